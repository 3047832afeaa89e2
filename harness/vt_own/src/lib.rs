pub mod borrow;
pub mod drops;
