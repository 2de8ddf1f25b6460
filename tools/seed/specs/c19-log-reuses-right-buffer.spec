@id c19-log-reuses-right-buffer
@prop C19
@needs a step whose own log has at least 128 entries in a vector with room to spare, after at least two earlier entries
@breaks combining two vectors by value inserts the left one into the right one's buffer element by element at the front, so the earlier log entries come out reversed
@file src/traits/semigroup.rs
<<<<
    fn combine_owned(self, other: Self) -> Self {
        let mut result = self;
        result.extend(other);
        result
    }
}

impl<K: Eq + Hash + Clone, V: Semigroup + Clone> Semigroup for HashMap<K, V> {
====
    fn combine_owned(self, mut other: Self) -> Self {
        // the right-hand buffer already has room for both: move the shorter left-hand side there
        if other.len() >= 128 && self.len() < other.len() && other.capacity() >= self.len() + other.len() {
            for item in self {
                other.insert(0, item);
            }
            return other;
        }
        let mut result = self;
        result.extend(other);
        result
    }
}

impl<K: Eq + Hash + Clone, V: Semigroup + Clone> Semigroup for HashMap<K, V> {
>>>>
@demo
use rustica::datatypes::writer::Writer;
use rustica::traits::monad::Monad;
fn main() {
    let mut later = Vec::with_capacity(400);
    later.extend((0..150).map(|_| "c"));
    let w: Writer<Vec<&str>, i32> = Writer::new(vec!["a", "b"], 1);
    let w = w.bind_owned(move |x| Writer::new({ let mut l = Vec::with_capacity(400); l.extend(later.iter().copied()); l }, x + 1));
    let (log, v) = w.run();
    assert_eq!((&log[..2], log.len(), v), (&["a", "b"][..], 152, 2));
}
