@id c12-sequence-reports-last-error
@prop C12
@needs a collection with two or more failures, sequenced through sequence_with_error
@breaks the collection is emptied from the back, so the failure reported is the last one instead of the first
@file src/utils/error_utils.rs
<<<<
    let mut values = Vec::with_capacity(collection.len());

    for item in collection {
        match item.to_result() {
            Ok(value) => values.push(value.into()),
            Err(error) => return Err(error),
        }
    }

    Ok(values)
}

// ===== Error Type Conversions =====
====
    let mut values = Vec::with_capacity(collection.len());

    for item in collection.into_iter().rev() {
        match item.to_result() {
            Ok(value) => values.push(value.into()),
            Err(error) => return Err(error),
        }
    }
    values.reverse();

    Ok(values)
}

// ===== Error Type Conversions =====
>>>>
@demo
use rustica::utils::error_utils::sequence_with_error;
fn main() {
    let ok: Result<Vec<i32>, String> = sequence_with_error(vec![Ok::<i32, String>(1), Ok(2)]);
    assert_eq!(ok, Ok(vec![1, 2]));
    let r: Result<Vec<i32>, String> = sequence_with_error(vec![Ok(1), Err("first".to_string()), Ok(2), Err("second".to_string())]);
    assert_eq!(r, Err("first".to_string()));
}
