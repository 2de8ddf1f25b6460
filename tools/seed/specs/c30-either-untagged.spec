@id c30-either-untagged
@prop C30
@needs a right value that could also be read as a left one
@breaks the side is no longer written, so a right value is read back as a left one when both sides have the same shape
@dep serde_json = "1"
@file src/datatypes/either.rs
<<<<
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum Either<L, R> {
====
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize), serde(untagged))]
pub enum Either<L, R> {
>>>>
@demo
use rustica::datatypes::either::Either;
fn main(){ for e in [Either::<i32,i32>::Left(1),Either::Right(1)] { let s=serde_json::to_string(&e).unwrap(); let b:Either<i32,i32>=serde_json::from_str(&s).unwrap(); assert_eq!(b,e);} }
