@id c13-invalid-async-completion-order
@prop C13
@needs asynchronous error mappings that finish in another order than they started
@breaks the mapped errors are listed in the order in which the mappings finished
@dep tokio = { version = "1", features = ["full"] }
@file src/datatypes/validated/core.rs
<<<<
                let results = futures::future::join_all(futures).await;

====
                use futures::stream::StreamExt;
                let results: Vec<G> = futures.collect::<futures::stream::FuturesUnordered<_>>().collect().await;

>>>>
@demo
use rustica::datatypes::validated::Validated;
use std::time::Duration;
fn main(){ let rt=tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
 rt.block_on(async { let v:Validated<u64,i32>=Validated::invalid_many([3,1,2]);
 let r=v.fmap_invalid_async(|e| async move { tokio::time::sleep(Duration::from_millis(e*30)).await; e}).await; assert_eq!(r.errors(),vec![3,1,2]); }); }
