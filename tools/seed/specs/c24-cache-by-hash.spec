@id c24-cache-by-hash
@prop C24
@needs two distinct keys whose hashes collide (a key type with a coarse but valid Hash)
@breaks a lookup returns the value computed for another key
@file src/datatypes/wrapper/memoizer.rs
<<<<
    cache: RwLock<HashMap<K, V>>,
}
====
    cache: RwLock<HashMap<u64, V>>,
    key: std::marker::PhantomData<fn(K)>,
}

/// The key under which a value is stored; avoids keeping the original keys alive.
fn slot<K: Hash>(key: &K) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut hasher = DefaultHasher::new();
    key.hash(&mut hasher);
    hasher.finish()
}
>>>>
@file src/datatypes/wrapper/memoizer.rs
<<<<
            cache: RwLock::new(HashMap::new()),
====
            cache: RwLock::new(HashMap::new()),
            key: std::marker::PhantomData,
>>>>
@file src/datatypes/wrapper/memoizer.rs
<<<<
            if let Some(v) = cache.get(&key) {
                return v.clone();
            }
        }
====
            if let Some(v) = cache.get(&slot(&key)) {
                return v.clone();
            }
        }
>>>>
@file src/datatypes/wrapper/memoizer.rs
<<<<
        // Double-check in case another thread inserted
        if let Some(v) = cache.get(&key) {
====
        // Double-check in case another thread inserted
        if let Some(v) = cache.get(&slot(&key)) {
>>>>
@file src/datatypes/wrapper/memoizer.rs
<<<<
        cache.insert(key.clone(), value.clone());
====
        cache.insert(slot(&key), value.clone());
>>>>
@demo
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::hash::{Hash, Hasher};
#[derive(Clone, PartialEq, Eq)]
struct K(String);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.0.len().hash(h) } }
fn main() {
    let m: Memoizer<K, String> = Memoizer::new();
    for _ in 0..2 {
        for k in ["ab", "cd", "abc", "x", "cd", "xyz"] {
            assert_eq!(m.get_or_compute(K(k.into()), |k| k.0.to_uppercase()), k.to_uppercase());
        }
    }
}
