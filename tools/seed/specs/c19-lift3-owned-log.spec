@id c19-lift3-owned-log
@prop C19
@needs three writers with three different, non-empty logs lifted by value
@breaks the logs of the second and third writer are recorded in the wrong order
@file src/datatypes/writer.rs
<<<<
        let log = fa.log.combine_owned(fb.log).combine_owned(fc.log);
        let value = f(fa.value, fb.value, fc.value);

====
        let Writer { log: tail, value: c } = fc;
        let log = fa.log.combine_owned(tail).combine_owned(fb.log);
        let value = f(fa.value, fb.value, c);

>>>>
@demo
use rustica::datatypes::writer::Writer;
use rustica::traits::applicative::Applicative;
fn main(){ let w=|l:&str,v:i32|Writer::new(l.to_string(),v);
 let r=Writer::<String,i32>::lift3_owned(|a:i32,b:i32,c:i32|a-b*c,w("a",10),w("b",3),w("c",2));
 assert_eq!(r.run(),("abc".to_string(),4)); }
