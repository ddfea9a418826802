//! Stand-in for intrusive-collections, which is absent from the offline cache: a doubly linked list of owned
//! nodes with the operations used here.  Nodes keep their address while they are linked.
#![allow(warnings)]
use std::collections::VecDeque;
pub use std::mem::offset_of;

#[derive(Default)]
pub struct LinkedListLink;
impl LinkedListLink {
  pub const fn new() -> Self { Self }
}
pub trait Adapter {
  type Value;
}
pub struct LinkedList<A: Adapter> {
  nodes: VecDeque<*mut A::Value>,
}
impl<A: Adapter> Default for LinkedList<A> {
  fn default() -> Self { Self { nodes: VecDeque::new() } }
}
pub struct Cursor<'a, V>(Option<&'a V>);
impl<'a, V> Cursor<'a, V> {
  pub fn get(&self) -> Option<&'a V> { self.0 }
  pub fn is_null(&self) -> bool { self.0.is_none() }
}
impl<A: Adapter> LinkedList<A> {
  pub fn is_empty(&self) -> bool { self.nodes.is_empty() }
  pub fn front(&self) -> Cursor<'_, A::Value> { Cursor(self.nodes.front().map(|p| unsafe { &**p })) }
  pub fn back(&self) -> Cursor<'_, A::Value> { Cursor(self.nodes.back().map(|p| unsafe { &**p })) }
  pub fn push_back(&mut self, v: Box<A::Value>) { self.nodes.push_back(Box::into_raw(v)); }
  pub fn push_front(&mut self, v: Box<A::Value>) { self.nodes.push_front(Box::into_raw(v)); }
  pub fn pop_front(&mut self) -> Option<Box<A::Value>> { self.nodes.pop_front().map(|p| unsafe { Box::from_raw(p) }) }
  pub fn pop_back(&mut self) -> Option<Box<A::Value>> { self.nodes.pop_back().map(|p| unsafe { Box::from_raw(p) }) }
}
impl<A: Adapter> Drop for LinkedList<A> {
  fn drop(&mut self) {
    while let Some(b) = self.pop_front() { drop(b); }
  }
}
unsafe impl<A: Adapter> Send for LinkedList<A> where A::Value: Send {}

#[macro_export]
macro_rules! intrusive_adapter {
  ($name:ident<$t:ident> = Box<$v:ty>: $v2:ty { $link:ident: LinkedListLink }) => {
    struct $name<$t>(std::marker::PhantomData<$t>);
    impl<$t> $crate::Adapter for $name<$t> { type Value = $v; }
  };
}
