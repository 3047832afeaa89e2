//! Only there so that the library is built for the programs which tools/declare.py writes.
fn main() {}
