@id c28-app-error-equality
@prop C28
@needs comparing two errors with the same message and different context
@breaks errors that differ only in their context compare equal, so an error that lost or changed its context is taken for the original
@file src/utils/error_utils.rs
<<<<
        self.message == other.message && self.context == other.context
====
        self.message == other.message
>>>>
@demo
#![allow(deprecated)]
use rustica::utils::error_utils::AppError;
fn main() {
    assert_eq!(AppError::with_context("m", 1), AppError::with_context("m", 1));
    assert_ne!(AppError::with_context("m", 1), AppError::with_context("m", 2));
}
