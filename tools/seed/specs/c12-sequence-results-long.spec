@id c12-sequence-results-long
@prop C12
@needs more than 64 results of which at least two are failures
@breaks long inputs report the last failure, found by a scan from the end, and not the first
@file src/utils/categorical_utils.rs
<<<<
    results.into_iter().collect()
====
    let mut results = results;
    // look for a failure before moving a long list
    if results.len() > 64
        && let Some(i) = results.iter().rposition(|r| r.is_err())
    {
        results.swap(0, i);
    }
    results.into_iter().collect()
>>>>
@demo
use rustica::utils::categorical_utils::sequence_results;
fn main() {
    let rs: Vec<Result<i32, i32>> = (0..100).map(|i| if i % 30 == 29 { Err(i) } else { Ok(i) }).collect();
    assert_eq!(sequence_results(rs), Err(29));
    let rs: Vec<Result<i32, i32>> = (0..100).map(Ok).collect();
    assert_eq!(sequence_results(rs), Ok((0..100).collect()));
}
