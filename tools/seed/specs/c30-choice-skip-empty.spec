@id c30-choice-skip-empty
@prop C30
@needs an empty choice written to a positional format (one without field names)
@breaks an empty choice writes nothing, so a positional format cannot read it back and loses the values that follow it
@file src/datatypes/choice.rs
<<<<
pub struct Choice<T> {
    values
====
pub struct Choice<T> {
    #[cfg_attr(feature = "serde", serde(default = "SmallVec::new", skip_serializing_if = "SmallVec::is_empty"))]
    values
>>>>
@dep serde_json = "1"
@dep bincode = "1"
@demo
use rustica::datatypes::choice::Choice;
fn main() {
    for c in [Choice::<i64>::new_empty(), Choice::new(1, vec![]), Choice::new(1, vec![2, 3])] {
        let js = serde_json::to_string(&c).unwrap();
        assert_eq!(serde_json::from_str::<Choice<i64>>(&js).unwrap(), c);
        let doc = (7u8, c, 9u8);
        let b = bincode::serialize(&doc).unwrap();
        assert_eq!(bincode::deserialize::<(u8, Choice<i64>, u8)>(&b).unwrap(), doc);
    }
}
