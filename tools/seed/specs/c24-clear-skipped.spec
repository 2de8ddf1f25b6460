@id c24-clear-skipped
@prop C24
@needs clearing while another thread is inside a lookup of the same memoizer
@breaks such a clear does nothing, so lookups made after it still return the value from before
@file src/datatypes/wrapper/memoizer.rs
<<<<
    pub fn clear(&self) {
====
    pub fn clear(&self) {
        if let Err(std::sync::TryLockError::WouldBlock) = self.cache.try_write() {
            // somebody is filling the cache at this moment, there is nothing old in it
            return;
        }
>>>>
@demo
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::sync::Arc;
use std::sync::mpsc::channel;
use std::time::Duration;
fn main() {
    let m: Arc<Memoizer<u32, u32>> = Arc::new(Memoizer::new());
    assert_eq!(m.get_or_compute(1, |_| 10), 10);
    let (tx, rx) = channel();
    let m2 = Arc::clone(&m);
    let t = std::thread::spawn(move || {
        m2.get_or_compute(2, |_| {
            tx.send(()).unwrap();
            std::thread::sleep(Duration::from_millis(300));
            20
        })
    });
    rx.recv().unwrap();
    m.clear();
    assert_eq!(m.get_or_compute(1, |_| 11), 11);
    t.join().unwrap();
}
