@id c21-sequence-same-description
@prop C21
@needs a sequence in which one description stands twice in a row (a clone of it)
@breaks the effect of the repeated description is performed only once and its value used twice
@file src/datatypes/io.rs
<<<<
        IO::new(move || ios_vec.iter().map(|io| io.run()).collect())
====
        IO::new(move || {
            let mut values: Vec<A> = Vec::with_capacity(ios_vec.len());
            let mut previous: Option<&IOMorphism<A>> = None;
            for io in &ios_vec {
                let value = match (io, previous, values.last()) {
                    (IO::Effect(f), Some(p), Some(v)) if Arc::ptr_eq(f, p) => v.clone(),
                    _ => io.run(),
                };
                previous = match io {
                    IO::Effect(f) => Some(f),
                    IO::Pure(_) => None,
                };
                values.push(value);
            }
            values
        })
>>>>
@demo
use rustica::datatypes::io::IO;
use std::sync::Arc;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
fn main() {
    let n = Arc::new(AtomicI32::new(0));
    let n2 = n.clone();
    let next = IO::new(move || n2.fetch_add(1, SeqCst));
    let all = IO::sequence(vec![next.clone(), next.clone(), IO::pure(9), next]);
    assert_eq!(all.run(), vec![0, 1, 9, 2]);
}
