@id c16-context-built-early
@prop C16
@needs a lazy context on a result that is a success
@breaks the context is generated although there is no failure to attach it to
@file src/error/context.rs
<<<<
    result.map_err(|e| Box::new(with_context(e, context)))

====
    let context = context.into_error_context();
    result.map_err(|e| Box::new(with_context(e, context)))

>>>>
@demo
use rustica::error::{with_context_result,LazyContext};
use std::cell::Cell;
fn main(){ let n=Cell::new(0); let r=with_context_result(Ok::<i32,i32>(1),LazyContext::new(||{n.set(n.get()+1);"c".to_string()})); assert!(r.is_ok()); assert_eq!(n.get(),0);
 let r=with_context_result(Err::<i32,i32>(1),LazyContext::new(||{n.set(n.get()+1);"c".to_string()})); assert_eq!(r.unwrap_err().context(),vec!["c".to_string()]); assert_eq!(n.get(),1); }
