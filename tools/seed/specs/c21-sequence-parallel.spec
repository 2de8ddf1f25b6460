@id c21-sequence-parallel
@prop C21
@needs sequencing more than eight effects
@breaks the effects of a long sequence run concurrently, out of program order, and a failing one no longer stops the later ones
@file src/datatypes/io.rs
<<<<
        IO::new(move || ios_vec.iter().map(|io| io.run()).collect())
====
        IO::new(move || {
            if ios_vec.len() <= 8 {
                return ios_vec.iter().map(|io| io.run()).collect();
            }
            // long batches: run them on scoped threads and collect the results in order
            std::thread::scope(|scope| {
                let handles: Vec<_> = ios_vec
                    .iter()
                    .map(|io| scope.spawn(move || io.run()))
                    .collect();
                handles
                    .into_iter()
                    .map(|handle| {
                        handle
                            .join()
                            .unwrap_or_else(|panic| std::panic::resume_unwind(panic))
                    })
                    .collect()
            })
        })
>>>>
@demo
use rustica::datatypes::io::IO;
use std::sync::{Arc, Mutex};
fn main() {
    for n in [1usize, 3, 8, 9, 40] {
        let log = Arc::new(Mutex::new(vec![]));
        let io = IO::sequence((0..n).map(|i| {
            let log = log.clone();
            IO::new(move || {
                std::thread::sleep(std::time::Duration::from_micros(((n - i) * 200) as u64));
                log.lock().unwrap().push(i);
                i
            })
        }));
        assert!(log.lock().unwrap().is_empty());
        assert_eq!(io.run(), (0..n).collect::<Vec<_>>());
        assert_eq!(*log.lock().unwrap(), (0..n).collect::<Vec<_>>());
    }
}
