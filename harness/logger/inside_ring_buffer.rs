//! Consumers over a scripted source of records instead of a buffer's.
use super::*;

struct Unlocked;
impl LockHandle for Unlocked {
  fn await_reservations_drained(&self) {}
}

fn any_buffer() -> Arc<RingBuffer> {
  let c = || Counter::default();
  let (b, _) = RingBuffer::new("t", 64, PathBuf::from("any"), 256, false, c(), c(), c(), c(), c(), None).unwrap();
  // (its thread never runs)
  std::mem::forget(b.clone());
  b
}

pub fn consumer(c: Box<dyn RingBufferConsumer>) -> Consumer {
  Consumer { consumer: c, _lock_handle: Box::new(Unlocked), _buffer: any_buffer() }
}

pub fn cursor(c: Box<dyn RingBufferCursorConsumer>) -> CursorConsumer {
  CursorConsumer { cursor_consumer: c, _buffer: any_buffer() }
}

/// A request to flush buffers, and how to say that it is done.
pub fn open(b: BuffersWithAck) -> (Vec<String>, Option<bd_completion::Sender<()>>) { (b.buffers, b.completed_tx) }

pub type Ring = RingBuffer;
