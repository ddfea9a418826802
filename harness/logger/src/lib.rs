mod batch;
mod config;
mod encode;
mod manager;
mod network;
mod pipeline;
mod queue;
mod retry;
