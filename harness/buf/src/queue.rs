//! B12: the queue of outstanding reservations.
use bd_buffer::queue::{Container, IntrusiveQueueWithFreeList};

vh::entry!(b12_queue, {
  let mut q = IntrusiveQueueWithFreeList::<u32>::default();
  let mut model: Vec<(*mut Container<u32>, u32)> = vec![];
  for _ in 0 .. vh::param("ops", 7) {
    match vh::choose("op", 3) {
      0 => {
        let v = vh::u32v("value");
        let at = q.emplace_back(v);
        vh::check(model.iter().all(|(p, _)| *p != at), "node_not_in_use");
        model.push((at, v));
        vh::reach("pushed");
      },
      1 => {
        q.pop_front();
        if !model.is_empty() {
          model.remove(0);
          vh::reach("popped");
        }
      },
      _ => {
        if model.is_empty() {
          vh::done();
        }
        let i = vh::choose("which", model.len() as u64) as usize;
        let v = vh::u32v("new");
        let old = q.map_mut(model[i].0, |x| std::mem::replace(x, v));
        vh::check(old == model[i].1, "entry_reached_through_its_pointer");
        model[i].1 = v;
        vh::reach("changed");
      },
    }
    vh::check(q.is_empty() == model.is_empty(), "empty");
    vh::check(q.front().copied() == model.first().map(|m| m.1), "front_is_oldest");
  }
  while let Some(f) = q.front().copied() {
    vh::check(!model.is_empty() && model.remove(0).1 == f, "in_order");
    q.pop_front();
  }
  vh::check(model.is_empty(), "none_lost");
});
