#![allow(dead_code)]
mod device;
mod fields;
mod session;
mod storage;
mod store;
mod versions;
