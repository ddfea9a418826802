#![allow(dead_code)]
mod completion;
mod cpus;
mod shutdown;
mod warn;
