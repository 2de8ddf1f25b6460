@id c22-run-async-inline
@prop C22
@needs a single-threaded Tokio runtime whose run of the IO waits for something another task of the same runtime provides
@breaks the run blocks the runtime's only thread, so the source can never complete
@file src/datatypes/io.rs
<<<<
        let this = self.clone();
        let handle = tokio::runtime::Handle::current();
        handle
            .spawn_blocking(move || this.run())
            .await
            .expect("Failed to run blocking task")
====
        // give the other tasks a chance to make progress first
        tokio::task::yield_now().await;
        self.run()
>>>>
@dep tokio = { version = "1", features = ["rt", "rt-multi-thread", "sync", "time"] }
@demo
use rustica::datatypes::io::IO;
fn main() {
    // watchdog: a blocked runtime is a failure
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        println!("blocked");
        std::process::exit(1);
    });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let (tx, rx) = tokio::sync::oneshot::channel::<i32>();
        let io = IO::new_async(async move { rx.await.unwrap() });
        let sender = async {
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
            tx.send(7).unwrap();
        };
        let run = io.run_async();
        tokio::pin!(run);
        tokio::pin!(sender);
        let mut got = None;
        // poll both on this one thread
        std::future::poll_fn(|cx| {
            use std::future::Future;
            if got.is_none() {
                if let std::task::Poll::Ready(v) = run.as_mut().poll(cx) { got = Some(v); return std::task::Poll::Ready(()); }
            }
            let _ = sender.as_mut().poll(cx);
            std::task::Poll::Pending
        }).await;
        assert_eq!(got, Some(7));
        assert_eq!(io.run_async().await, 7);
    });
}
