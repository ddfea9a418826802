mod ring;
mod queue;
mod pring;
mod agg;
