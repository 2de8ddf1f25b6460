@id c18-local-first-environment
@prop C18
@needs running one reader that has a local modification in two different environments
@breaks the modified environment is computed on the first run and kept, so later runs in other environments see the first one
@file src/datatypes/reader.rs
<<<<
        Reader {
            inner: ReaderT::new(move |e: E| inner_clone.run_reader(f(e))),
        }
    }
====
        let modified = std::sync::OnceLock::new();
        Reader {
            inner: ReaderT::new(move |e: E| {
                inner_clone.run_reader(modified.get_or_init(|| f(e)).clone())
            }),
        }
    }
>>>>
@demo
use rustica::datatypes::reader::Reader;
fn main() {
    let r: Reader<i32, i32> = Reader::asks(|e: i32| e * 10).local(|e| e + 1);
    assert_eq!(r.run_reader(1), 20);
    assert_eq!(r.run_reader(1), 20);
    assert_eq!(r.run_reader(5), 60);
}
