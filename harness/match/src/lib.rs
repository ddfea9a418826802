#![allow(dead_code)]
mod buffers;
mod filter;
mod tree;
mod values;
