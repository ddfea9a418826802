//! X02: one-shot completion signals under every order of poll, send, drop.
use bd_completion::{Receiver, Sender};
use std::future::Future;
use std::pin::Pin;
use vh::*;

entry!(x02_completion, {
  let v = u64v("v");
  let (tx, rx): (Sender<u64>, Receiver<u64>) = Sender::new();
  let mut tx = Some(tx);
  let mut rx = Some(rx);
  let mut fut: Option<Pin<Box<dyn Future<Output = Result<u64, ()>>>>> = None;
  let mut sent = false;
  let mut got = 0u32;
  let mut failed = 0u32;
  for _ in 0..param("ops", 5) {
    match choose("op", 6) {
      0 => if let Some(t) = tx.take() { t.send(v); sent = true; },
      1 => if tx.take().is_some() { reach("tx_dropped"); },
      2 => if let Some(r) = rx.take() {
        fut = Some(Box::pin(async move { r.recv().await.map_err(|_| ()) }));
      },
      3 => if let Some(f) = fut.as_mut() {
        match poll_pinned(f.as_mut()) {
          Some(Ok(x)) => { check(sent, "value_only_after_send"); check(x == v, "value_is_the_one_sent"); got += 1; fut = None; reach("got"); },
          Some(Err(())) => { check(tx.is_none() && !sent, "fails_only_without_sender"); failed += 1; fut = None; reach("failed"); },
          None => { check(tx.is_some(), "pending_only_while_sender_lives"); reach("pending"); },
        }
      },
      4 => { rx = None; },
      _ => { fut = None; },
    }
  }
  // whatever happened before, a receiver that is still there resolves once the sender is gone
  let dropped = if let Some(t) = tx.take() {
    if boolv("send_last") { t.send(v); sent = true; false } else { true }
  } else { false };
  let _ = dropped;
  if let Some(r) = rx.take() { fut = Some(Box::pin(async move { r.recv().await.map_err(|_| ()) })); }
  if let Some(mut f) = fut.take() {
    match poll_pinned(f.as_mut()) {
      Some(Ok(x)) => { check(sent && x == v, "final_value"); got += 1; },
      Some(Err(())) => { check(!sent, "final_failure_only_unsent"); failed += 1; },
      None => fail("hangs_after_sender_gone"),
    }
  }
  check(got + failed <= 1, "at_most_one_resolution");
});

entry!(x02_blocking, {
  let v = u64v("v");
  let (tx, rx): (Sender<u64>, Receiver<u64>) = Sender::new();
  let send = boolv("send");
  if send { tx.send(v); } else { drop(tx); }
  match rx.blocking_recv() {
    Ok(x) => { reach("ok"); check(send && x == v, "blocking_value"); },
    Err(_) => { reach("err"); check(!send, "blocking_failure"); },
  }
});

// the sender and the receiver on threads of their own
entry!(x02_threads, {
  let v = u64v("v");
  let (tx, rx): (Sender<u64>, Receiver<u64>) = Sender::new();
  let send = choose("send", 2) == 1;
  let how = choose("how", 3);
  let slots = std::sync::Mutex::new((Some(tx), Some(rx)));
  let got = std::sync::Mutex::new(None);
  par(2, &|i| {
    if i == 0 {
      let t = slots.lock().unwrap().0.take().unwrap();
      if send { t.send(v); } else { drop(t); }
    } else {
      let r = slots.lock().unwrap().1.take().unwrap();
      let x = match how {
        0 => block_on(r.recv()).ok(),
        1 => r.blocking_recv().ok(),
        // gone before it gets anything: the sender must not mind
        _ => return,
      };
      *got.lock().unwrap() = Some(x);
    }
  });
  let g = got.lock().unwrap().take();
  if how < 2 {
    check(g == Some(if send { Some(v) } else { None }), "value_or_failure");
    reach(if send { "threads_value" } else { "threads_failure" });
  } else {
    check(g.is_none(), "nothing");
  }
});
