@id c25-modify-rebuilds
@prop C25
@needs a focus whose equality ignores part of its contents, and a function that leaves it equal
@breaks a modification that changes nothing rebuilds the structure instead of giving back the original
@file src/datatypes/prism.rs
<<<<
                let new_value = f(current_value.clone());
                if new_value == current_value {
                    source // Return original structure (structural sharing)
====
                let new_value = f(current_value.clone());
                if new_value == current_value {
                    self.review(&new_value) // equal to the original
>>>>
@demo
use rustica::datatypes::prism::Prism;
use std::sync::Arc;
#[derive(Clone, Debug, PartialEq)]
enum Shape {
    Named(Arc<String>),
    Other,
}
fn main() {
    let p = Prism::new(
        |s: &Arc<Shape>| match &**s {
            Shape::Named(n) => Some(n.to_string()),
            Shape::Other => None,
        },
        |n: &String| Arc::new(Shape::Named(Arc::new(n.clone()))),
    );
    let a = Arc::new(Shape::Named(Arc::new("x".to_string())));
    let b = p.modify(a.clone(), |n| n);
    assert_eq!(a, b);
    assert!(Arc::ptr_eq(&a, &b));
    let o = Arc::new(Shape::Other);
    assert!(Arc::ptr_eq(&o, &p.modify(o.clone(), |n| n)));
    let c = p.modify(a.clone(), |n| n + "!");
    assert_eq!(*c, Shape::Named(Arc::new("x!".to_string())));
}
