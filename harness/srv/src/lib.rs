#![allow(dead_code, static_mut_refs)]
mod flags;
mod loader;
mod metadata;
mod stats;
