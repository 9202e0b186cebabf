pub use crate::raw::*;
pub mod header;
pub mod caps1;
pub mod caps2;
pub mod pcie;
pub mod ext1;
pub mod ext2;
