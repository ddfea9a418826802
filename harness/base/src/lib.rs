#![allow(dead_code)]
mod errors;
mod flags;
mod session;
mod times;
mod zlib;
