//! L01: the memory-bounded channel against a queue with a byte and a slot budget.
use bd_logger::memory_bound::{channel, MemorySized, Receiver, Sender, TrySendError};
use std::collections::VecDeque;
use std::sync::Mutex;

#[derive(Debug, Clone, Copy, PartialEq)]
struct Msg {
  id: u64,
  size: u64,
}

impl MemorySized for Msg {
  fn size(&self) -> usize { self.size as usize }
}

// what the queue holds at most: the messages that fit
vh::entry!(l01_history, {
  let slots = 1 + vh::choose("slots", 2) as usize;
  let budget = vh::range("budget", 0, 1 << 16);
  let (tx, rx): (Sender<Msg>, Receiver<Msg>) = channel(slots, budget as usize);
  let other = tx.clone();
  let mut rx = Some(rx);
  let mut queue: VecDeque<Msg> = VecDeque::new();
  let mut used = 0u64;
  let mut next = 0;
  for _ in 0 .. vh::param("ops", 5) {
    match vh::choose("op", 3) {
      0 => {
        next += 1;
        let m = Msg { id: next, size: vh::range("size", 0, 1 << 16) };
        let r = if next % 2 == 0 { tx.try_send(m) } else { other.try_send(m) };
        let fits = used + m.size <= budget;
        if rx.is_none() {
          match r {
            Err(TrySendError::Closed(x)) => { vh::check(x == m, "given_back_closed"); vh::reach("closed"); },
            Err(TrySendError::FullSizeOverflow(x)) => vh::check(x == m && !fits, "closed_size"),
            _ => vh::fail("accepted_when_closed"),
          }
        } else {
          match r {
            Ok(()) => {
              vh::check(fits, "within_bytes");
              vh::check(queue.len() < slots, "within_slots");
              queue.push_back(m);
              used += m.size;
              vh::reach("accepted");
            },
            Err(TrySendError::FullSizeOverflow(x)) => {
              vh::check(x == m, "given_back_size");
              vh::check(!fits, "refused_for_bytes");
              vh::reach("bytes");
            },
            Err(TrySendError::FullCountOverflow(x)) => {
              vh::check(x == m, "given_back_count");
              vh::check(queue.len() == slots, "refused_for_slots");
              vh::reach("slots");
            },
            Err(TrySendError::Closed(_)) => vh::fail("closed_while_open"),
          }
        }
      },
      1 => {
        if let Some(r) = rx.as_mut() {
          let got = vh::poll_n(r.recv(), 1).flatten();
          let want = queue.pop_front();
          vh::check(got == want, "received_in_order");
          if let Some(w) = want {
            used -= w.size;
            vh::reach("received");
          }
        }
      },
      _ => { rx = None; },
    }
  }
  // what was taken out gives all of its room back
  if let Some(r) = rx.as_mut() {
    while let Some(w) = queue.pop_front() {
      vh::check(vh::poll_n(r.recv(), 1).flatten() == Some(w), "drained");
    }
    let whole = Msg { id: 0, size: budget };
    vh::check(tx.try_send(whole).is_ok(), "all_room_back");
    vh::check(vh::poll_n(r.recv(), 1).flatten() == Some(whole), "whole");
    drop(tx);
    drop(other);
    vh::check(vh::poll_n(r.recv(), 1) == Some(None), "ends");
    vh::reach("ends");
  }
});

// two senders and the receiver on threads of their own
vh::entry!(l01_threads, {
  let senders = vh::param("senders", 2) as usize;
  let budget = vh::range("budget", 0, 1 << 16);
  let size = [vh::range("size0", 0, 1 << 16), vh::range("size1", 0, 1 << 16)];
  let slots = 1 + vh::choose("slots", 2) as usize;
  let (tx, rx): (Sender<Msg>, Receiver<Msg>) = channel(slots, budget as usize);
  let tx = Mutex::new((0 .. senders).map(|_| Some(tx.clone())).collect::<Vec<_>>());
  let keep = tx.lock().unwrap()[0].clone().unwrap();
  let rx = Mutex::new(Some(rx));
  let sent = Mutex::new(vec![None; senders]);
  let got: Mutex<Vec<Msg>> = Mutex::new(vec![]);
  vh::par(senders + 1, &|i| {
    if i < senders {
      let t = tx.lock().unwrap()[i].take().unwrap();
      let r = t.try_send(Msg { id: i as u64, size: size[i] });
      sent.lock().unwrap()[i] = Some(match r { Ok(()) => 0, Err(TrySendError::FullSizeOverflow(_)) => 1, Err(TrySendError::FullCountOverflow(_)) => 2, Err(_) => 3 });
    } else {
      let mut r = rx.lock().unwrap().take().unwrap();
      for _ in 0 .. 2 {
        if let Some(Some(m)) = vh::poll_n(r.recv(), 1) { got.lock().unwrap().push(m); }
      }
      *rx.lock().unwrap() = Some(r);
    }
  });
  let mut r = rx.lock().unwrap().take().unwrap();
  let mut got = std::mem::take(&mut *got.lock().unwrap());
  let early = got.len();
  let mut held = 0;
  while let Some(Some(m)) = vh::poll_n(r.recv(), 1) { held += m.size; got.push(m); }
  vh::check(held <= budget, "never_over");
  if early > 0 { vh::reach("concurrent"); }
  let sent = sent.lock().unwrap();
  for i in 0 .. senders {
    let n = got.iter().filter(|m| m.id == i as u64 && m.size == size[i]).count();
    vh::check(n == usize::from(sent[i] == Some(0)), "exactly_once");
    match sent[i] {
      Some(0) => { vh::check(size[i] <= budget, "fits"); vh::reach("accepted"); },
      // another sender's message, queued or about to be refused, can take the room
      Some(1) => { vh::check(size.iter().take(senders).sum::<u64>() > budget, "no_room"); vh::reach("bytes"); },
      Some(2) => { vh::check(slots < senders, "no_slot"); vh::reach("slots"); },
      _ => vh::fail("closed"),
    }
  }
  let whole = Msg { id: 9, size: budget };
  vh::check(keep.try_send(whole).is_ok(), "all_room_back");
});
