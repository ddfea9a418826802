mod channel;
mod early;
mod rate;
