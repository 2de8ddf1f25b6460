@id c12-traverse-reserves-bound
@prop C12
@needs traversing a very long lazy source that fails early
@breaks memory is reserved for every item the source might yield, so a source with a huge upper bound panics instead of giving the first error
@file src/utils/error_utils.rs
<<<<
{
    let mut values = Vec::new();

    for item in collection {
        match f(item) {
            Ok(value) => values.push(value),
            Err(error) => return Err(error),
        }
    }

====
{
    let items = collection.into_iter();
    let (lower, upper) = items.size_hint();
    let mut values = Vec::with_capacity(upper.unwrap_or(lower));

    for item in items {
        match f(item) {
            Ok(value) => values.push(value),
            Err(error) => return Err(error),
        }
    }

>>>>
@demo
use rustica::utils::error_utils::traverse;
fn main(){ let r:Result<Vec<u64>,u64>=traverse(0..u64::MAX,|x| if x==3 {Err(x)} else {Ok(x)}); assert_eq!(r,Err(3));
 let r:Result<Vec<u64>,u64>=traverse((0..u64::MAX).take_while(|x|*x<3),Ok); assert_eq!(r,Ok(vec![0,1,2])); }
