@id c16-repeat-context-dropped
@prop C16
@needs the same context message attached twice in a row
@breaks a context equal to the one attached just before it is silently dropped, so an error that passed through the same layer twice (recursion, a retry) loses part of its history
@file src/error/types.rs
<<<<
        self.context.push(ctx.into_error_context().message().to_string());
        self
====
        let message = ctx.into_error_context().message().to_string();
        // avoid stuttering chains such as "a -> a -> a"
        if self.context.last() != Some(&message) {
            self.context.push(message);
        }
        self
>>>>
@demo
use rustica::error::ComposableError;
fn main() {
    let e = ComposableError::new("boom").with_context("outer").with_context("step").with_context("step");
    assert_eq!(e.context(), vec!["step", "step", "outer"]);
    assert_eq!(e.error_chain(), "step -> step -> outer -> boom");
}
