//! The library's own reading of JSONL files, to compare the tools with.
pub fn main(_a: &[String]) {}
