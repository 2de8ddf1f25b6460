@id c32-sequence-left-order
@prop C32
@needs sequencing two computations whose effects do not commute
@breaks the provided sequence_left runs the second computation's effects first
@file src/traits/applicative.rs
<<<<
        Self::lift2(|a, _| a.clone(), fa, fb)

====
        Self::lift2(|_, a| a.clone(), fb, fa)

>>>>
@demo
use rustica::datatypes::writer::Writer;
use rustica::traits::applicative::Applicative;
fn main(){ let w=|l:&str,v:i32|Writer::new(l.to_string(),v);
 let r=Writer::<String,i32>::sequence_left(&w("a",1),&w("b",2)); assert_eq!(r.run(),("ab".to_string(),1)); }
