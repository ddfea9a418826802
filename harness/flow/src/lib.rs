mod engine;
mod flush;
mod graph;
mod metrics;
mod sankey;
mod talk;
mod state;
mod w01;
