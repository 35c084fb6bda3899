//! Only here so that cargo builds the crate under test.
pub use bitfields;
