@id c10-sum-two-lanes
@prop C10
@needs summing more than sixteen elements whose addition is not commutative (strings, ordered concatenation) or not associative (floats)
@breaks long sums are accumulated in two interleaved lanes, so the elements are no longer added in order
@file src/traits/foldable.rs
<<<<
        self.fold_left(&Self::Source::default(), |acc, x| acc.clone() + x.clone())
====
        if self.length() <= 16 {
            return self.fold_left(&Self::Source::default(), |acc, x| acc.clone() + x.clone());
        }
        // two independent accumulators shorten the dependency chain of long sums
        let zero = Self::Source::default();
        let (even, odd, _) = self.fold_left(&(zero.clone(), zero, 0usize), |(even, odd, i), x| {
            if i % 2 == 0 {
                (even.clone() + x.clone(), odd.clone(), i + 1)
            } else {
                (even.clone(), odd.clone() + x.clone(), i + 1)
            }
        });
        even + odd
>>>>
@demo
use rustica::traits::foldable::FoldableExt;
use std::ops::Add;
#[derive(Clone, Debug, Default, PartialEq)]
struct Cat(Vec<usize>);
impl Add for Cat {
    type Output = Cat;
    fn add(mut self, o: Cat) -> Cat {
        self.0.extend(o.0);
        self
    }
}
fn main() {
    for n in [0usize, 1, 5, 16, 17, 40] {
        let xs: Vec<Cat> = (0..n).map(|i| Cat(vec![i])).collect();
        assert_eq!(xs.sum_values(), Cat((0..n).collect()));
        let ys: Vec<i64> = (0..n as i64).collect();
        assert_eq!(ys.sum_values(), ys.iter().sum::<i64>());
    }
}
