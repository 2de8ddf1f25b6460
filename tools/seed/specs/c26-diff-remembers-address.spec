@id c26-diff-remembers-address
@prop C26
@needs asking a difference predicate twice about a value that was changed in place between the two questions
@breaks the predicate remembers its last answer by the address of the value it was asked about
@file src/datatypes/wrapper/predicate.rs
<<<<
            let f2 = remove.func.clone();
            move |a| f1(a) && !f2(a)
        })
    }
====
            let f2 = remove.func.clone();
            // asked about the same value again: reuse the answer
            let last = std::cell::Cell::new((std::ptr::null::<A>(), false));
            move |a| {
                let (seen, answer) = last.get();
                if std::ptr::eq(seen, a) {
                    return answer;
                }
                let answer = f1(a) && !f2(a);
                last.set((a, answer));
                answer
            }
        })
    }
>>>>
@demo
use rustica::datatypes::wrapper::predicate::Predicate;
fn main() {
    let p = Predicate::new(|x: &i32| *x > 0).diff(&Predicate::new(|x: &i32| *x > 10));
    let mut v = vec![5, 50, -5, 6];
    for want in [true, false, false, true] {
        assert_eq!(p.contains(&v[0]), want);
        v.rotate_left(1);
    }
}
