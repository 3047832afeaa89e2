pub mod ops;
pub mod varint;
