mod answers;
mod client;
mod connection;
mod kill;
