@id c21-sequence-chunks
@prop C21
@needs a sequence of more than 256 descriptions
@breaks the blocks of a long sequence run in the wrong order
@file src/datatypes/io.rs
<<<<
        IO::new(move || ios_vec.iter().map(|io| io.run()).collect())
====
        IO::new(move || {
            let mut out = Vec::with_capacity(ios_vec.len());
            let mut blocks: Vec<_> = ios_vec.chunks(256).collect();
            while let Some(block) = blocks.pop() {
                let mut part: Vec<_> = block.iter().map(|io| io.run()).collect();
                part.append(&mut out);
                out = part;
            }
            out
        })
>>>>
@demo
use rustica::datatypes::io::IO;
use std::sync::{Arc, Mutex};
fn main() {
    for n in [1usize, 3, 40, 256, 257, 1000] {
        let log = Arc::new(Mutex::new(vec![]));
        let io = IO::sequence((0..n).map(|i| {
            let log = log.clone();
            IO::new(move || {
                log.lock().unwrap().push(i);
                i
            })
        }));
        assert!(log.lock().unwrap().is_empty());
        assert_eq!(io.run(), (0..n).collect::<Vec<_>>());
        assert_eq!(*log.lock().unwrap(), (0..n).collect::<Vec<_>>());
    }
}
