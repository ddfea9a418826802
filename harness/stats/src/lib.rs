mod counters;
mod files;
