//! L02: the queue before the first configuration.
use bd_logger::memory_bound::MemorySized;
use bd_logger::pre_config_buffer::{Error, PreConfigBuffer};

#[derive(Debug, Clone, Copy, PartialEq)]
struct Item {
  id: u64,
  size: u64,
}

impl MemorySized for Item {
  fn size(&self) -> usize { self.size as usize }
}

vh::entry!(l02_history, {
  let max_count = vh::range("max_count", 0, 8) as usize;
  let max_size = vh::range("max_size", 0, 1 << 40);
  let mut b: PreConfigBuffer<Item> = PreConfigBuffer::new(max_count, max_size as usize);
  vh::check(b.max_count() == max_count && b.max_size() == max_size as usize, "limits");
  let mut kept: Vec<Item> = vec![];
  let mut used = 0;
  for id in 0 .. vh::param("pushes", 5) {
    let item = Item { id, size: vh::range("size", 0, 1 << 40) };
    match b.push(item) {
      Ok(()) => {
        vh::check(kept.len() < max_count, "within_count");
        vh::check(used + item.size <= max_size, "within_size");
        used += item.size;
        kept.push(item);
        vh::reach("kept");
      },
      Err(Error::FullCountOverflow) => {
        vh::check(kept.len() >= max_count, "count_full");
        vh::reach("count");
      },
      Err(Error::FullSizeOverflow) => {
        vh::check(used + item.size > max_size, "size_full");
        vh::check(kept.len() < max_count, "count_first");
        vh::reach("size");
      },
    }
  }
  let all: Vec<Item> = b.pop_all().collect();
  vh::check(all == kept, "replayed_in_order");
});
