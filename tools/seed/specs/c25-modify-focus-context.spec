@id c25-modify-focus-context
@prop C25
@needs an isomorphism whose forward direction returns a context different from its input (it strips or normalises what it focused on)
@breaks modify_focus rebuilds from the original structure instead of the context the isomorphism returned
@file src/datatypes/iso_lens.rs
<<<<
        let (current_focus_value, s_context) = self.iso.forward(s);
        let new_focus_value = f(current_focus_value);
        self.iso.backward(&(new_focus_value, s_context))
====
        let (current_focus_value, _) = self.iso.forward(s);
        self.set_focus(s, &f(current_focus_value))
>>>>
@demo
use rustica::datatypes::iso_lens::IsoLens;
use rustica::traits::iso::Iso;
// splits off the last element; the context is what remains
struct Last;
impl Iso<Vec<i32>, (i32, Vec<i32>)> for Last {
    type From = Vec<i32>;
    type To = (i32, Vec<i32>);
    fn forward(&self, v: &Vec<i32>) -> (i32, Vec<i32>) {
        let mut v = v.clone();
        let x = v.pop().unwrap_or(0);
        (x, v)
    }
    fn backward(&self, t: &(i32, Vec<i32>)) -> Vec<i32> {
        let mut v = t.1.clone();
        v.push(t.0);
        v
    }
}
fn main() {
    let l: IsoLens<Vec<i32>, (i32, Vec<i32>), Last> = IsoLens::new(Last);
    assert_eq!(l.modify_focus(&vec![1, 2, 3], |x| x + 10), vec![1, 2, 13]);
    assert_eq!(l.modify_focus(&vec![1, 2, 3], |x| x), vec![1, 2, 3]);
}
