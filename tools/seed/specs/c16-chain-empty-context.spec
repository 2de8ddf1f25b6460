@id c16-chain-empty-context
@prop C16
@needs an error whose contexts all have an empty message
@breaks the chain loses the arrow before the core error
@file src/error/types.rs
<<<<
        if !self.context.is_empty() {
            chain.push_str(" -> ");
        }

====
        if !chain.is_empty() {
            chain.push_str(" -> ");
        }

>>>>
@demo
use rustica::error::ComposableError;
fn main() {
    assert_eq!(ComposableError::new("boom").error_chain(), "boom");
    assert_eq!(ComposableError::new("boom").with_context("a").error_chain(), "a -> boom");
    assert_eq!(ComposableError::new("boom").with_context("a").with_context("").error_chain(), " -> a -> boom");
    assert_eq!(ComposableError::new("boom").with_context("").error_chain(), " -> boom");
}
