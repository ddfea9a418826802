//! Copy-on-write object memory. address = (object id << 24) + offset.
use crate::expr::*;
use crate::ir::{OBJ_SHIFT, SYM_BASE};
use std::rc::Rc;

pub const STACK0: u32 = 16;
pub const HEAP0: u32 = 1 << 20;
const PG: u32 = 6;
const PGN: usize = 1 << PG;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>,
    pub ro: bool,
    pub watched: bool,
}
type Page = [Option<Rc<Obj>>; PGN];

#[derive(Clone)]
pub struct Mem {
    stack: Vec<Rc<Page>>,
    syms: Vec<Rc<Page>>,
    heap: Vec<Rc<Page>>,
    pub next_stack: u32,
    pub next_heap: u32,
}
fn empty() -> Rc<Page> {
    Rc::new(std::array::from_fn(|_| None))
}
pub fn split(addr: u64) -> (u32, u64) {
    ((addr >> OBJ_SHIFT) as u32, addr & ((1 << OBJ_SHIFT) - 1))
}

impl Mem {
    pub fn new() -> Mem {
        Mem { stack: vec![], syms: vec![], heap: vec![], next_stack: STACK0, next_heap: HEAP0 }
    }
    fn tab(&self, id: u32) -> (&Vec<Rc<Page>>, u32) {
        if id >= HEAP0 {
            (&self.heap, id - HEAP0)
        } else if id >= SYM_BASE as u32 {
            (&self.syms, id - SYM_BASE as u32)
        } else {
            (&self.stack, id)
        }
    }
    fn tab_mut(&mut self, id: u32) -> (&mut Vec<Rc<Page>>, u32) {
        if id >= HEAP0 {
            (&mut self.heap, id - HEAP0)
        } else if id >= SYM_BASE as u32 {
            (&mut self.syms, id - SYM_BASE as u32)
        } else {
            (&mut self.stack, id)
        }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let (t, i) = self.tab(id);
        t.get((i >> PG) as usize).and_then(|p| p[i as usize & (PGN - 1)].as_ref())
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let (t, i) = self.tab_mut(id);
        let p = t.get_mut((i >> PG) as usize)?;
        if p[i as usize & (PGN - 1)].is_none() {
            return None;
        }
        let p = Rc::make_mut(p);
        p[i as usize & (PGN - 1)].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let (t, i) = self.tab_mut(id);
        while t.len() <= (i >> PG) as usize {
            t.push(empty());
        }
        let p = Rc::make_mut(&mut t[(i >> PG) as usize]);
        p[i as usize & (PGN - 1)] = o;
    }
    pub fn alloc_heap(&mut self, size: u64, fill: u8) -> u64 {
        let id = self.next_heap;
        self.next_heap += 1;
        assert!(id < (1 << 23), "heap ids exhausted");
        self.put(id, Some(Rc::new(Obj { data: vec![fill; size as usize], sym: vec![], ro: false, watched: false })));
        (id as u64) << OBJ_SHIFT
    }
    pub fn alloc_stack(&mut self, size: u64) -> u64 {
        let id = self.next_stack;
        self.next_stack += 1;
        assert!((id as u64) < SYM_BASE, "stack ids exhausted");
        self.put(id, Some(Rc::new(Obj { data: vec![0xA5; size as usize], sym: vec![], ro: false, watched: false })));
        (id as u64) << OBJ_SHIFT
    }
    pub fn pop_stack(&mut self, to: u32) {
        while self.next_stack > to {
            self.next_stack -= 1;
            let id = self.next_stack;
            self.put(id, None);
        }
    }
}
