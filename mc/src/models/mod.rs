#![allow(unused_variables)]
pub mod caps2;
pub mod ext1;
pub mod ext2;
pub mod header;
pub mod legacy;
