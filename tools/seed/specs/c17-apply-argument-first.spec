@id c17-apply-argument-first
@prop C17
@needs applying a function computation that itself reads or changes the state
@breaks the argument's state transition happens before the function's
@file src/datatypes/state.rs
<<<<
            let (f, s1) = self.run_state(s);
            let (a, s2) = other.run_state(s1);
            (f(a), s2)
====
            let (a, s1) = other.run_state(s);
            let (f, s2) = self.run_state(s1);
            (f(a), s2)
>>>>
@demo
use rustica::datatypes::state::State;
fn main() {
    let fs = State::new(|s: i32| (move |x: i32| s * 100 + x, s + 1));
    let xs = State::new(|s: i32| (s, s * 10));
    assert_eq!(fs.apply(xs).run_state(3), (304, 40));
}
