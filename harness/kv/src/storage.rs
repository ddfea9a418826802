//! In-memory storage the stores under test write to.
use bd_key_value::{Storage, Store};
use std::sync::Arc;

#[derive(Default)]
pub struct Inner {
  pub map: Vec<(String, String)>,
  pub sets: usize,
  pub deletes: Vec<String>,
  pub fail_get: bool,
  pub fail_set: bool,
  pub fail_delete: bool,
}

#[derive(Clone, Default)]
pub struct Mem(pub Arc<parking_lot::Mutex<Inner>>);

impl Mem {
  pub fn store(&self) -> Store { Store::new(Box::new(self.clone())) }
  pub fn text(&self, key: &str) -> Option<String> {
    self.0.lock().map.iter().find(|(k, _)| k == key).map(|(_, v)| v.clone())
  }
  pub fn put(&self, key: &str, text: &str) {
    let mut g = self.0.lock();
    if let Some(e) = g.map.iter_mut().find(|(k, _)| k == key) {
      e.1 = text.to_string();
    } else {
      g.map.push((key.to_string(), text.to_string()));
    }
  }
  pub fn sets(&self) -> usize { self.0.lock().sets }
}

impl Storage for Mem {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    if self.0.lock().fail_set {
      anyhow::bail!("set failed");
    }
    self.put(key, value);
    self.0.lock().sets += 1;
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    if self.0.lock().fail_get {
      anyhow::bail!("get failed");
    }
    Ok(self.text(key))
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    let mut g = self.0.lock();
    if g.fail_delete {
      anyhow::bail!("delete failed");
    }
    g.deletes.push(key.to_string());
    g.map.retain(|(k, _)| k != key);
    Ok(())
  }
}

/// A string of `len` symbolic ASCII characters.
pub fn ascii(name: &str, len: usize) -> String {
  let mut v = Vec::with_capacity(len);
  for _ in 0..len {
    v.push(vh::var(name, 8, 0, 127) as u8);
  }
  unsafe { String::from_utf8_unchecked(v) }
}
