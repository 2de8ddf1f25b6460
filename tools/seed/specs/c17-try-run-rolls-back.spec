@id c17-try-run-rolls-back
@prop C17
@needs a failing stateful computation that changed the state before it failed
@breaks try_run_state returns the initial state instead of the state reached when the computation fails
@file src/datatypes/state.rs
<<<<
        let (result, final_state) = self.run_state(s);
        let transformed_result = result.map_err(ComposableError::new);
        (transformed_result, final_state)
    }
====
        let initial_state = s.clone();
        let (result, final_state) = self.run_state(s);
        match result {
            Ok(value) => (Ok(value), final_state),
            Err(error) => (Err(ComposableError::new(error)), initial_state),
        }
    }
>>>>
@demo
use rustica::datatypes::state::State;
fn main() {
    let s: State<i32, Result<i32, String>> = State::new(|s| (if s > 0 { Err(format!("bad {s}")) } else { Ok(s) }, s + 1));
    let (r, st) = s.try_run_state(-3);
    assert_eq!((r.ok(), st), (Some(-3), -2));
    let (r, st) = s.try_run_state(4);
    assert_eq!(r.err().map(|e| e.core_error().clone()), Some("bad 4".to_string()));
    assert_eq!(st, 5);
}
