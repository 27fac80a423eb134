//! Object memory: addresses are (object id << 32 | offset); objects are copy-on-write across states.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Heap, Stack, Global, Const, Dead }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: BTreeMap<u32, E>, pub kind: Kind }

impl Obj {
    pub fn new(size: usize, kind: Kind) -> Obj { Obj { data: vec![0; size], sym: BTreeMap::new(), kind } }
    #[inline] pub fn has_sym(&self, off: usize, n: usize) -> bool { !self.sym.is_empty() && self.sym.range(off as u32..(off + n) as u32).next().is_some() }
    pub fn byte(&self, off: usize) -> Result<u8, E> { match self.sym.get(&(off as u32)) { Some(e) => Err(*e), None => Ok(self.data[off]) } }
    pub fn byte_e(&self, off: usize) -> E { match self.sym.get(&(off as u32)) { Some(e) => *e, None => pool().konst(8, self.data[off] as u128) } }
    pub fn set_e(&mut self, off: usize, e: E) { match pool().is_const(e) { Some(c) => { self.data[off] = c as u8; if !self.sym.is_empty() { self.sym.remove(&(off as u32)); } } None => { self.sym.insert(off as u32, e); } } }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if self.sym.is_empty() { return; }
        let ks: Vec<u32> = self.sym.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
        for k in ks { self.sym.remove(&k); }
    }
}

const PG: usize = 64;
type Page = [Option<Rc<Obj>>; PG];
#[derive(Clone)]
pub struct Mem { pages: Vec<Rc<Page>>, pub next: u32, pub free_stack: Vec<u32> }
impl Mem {
    pub fn new(first: u32) -> Mem { Mem { pages: vec![], next: first, free_stack: vec![] } }
    #[inline] pub fn get(&self, id: u32) -> Option<&Rc<Obj>> { self.pages.get(id as usize / PG).and_then(|p| p[id as usize % PG].as_ref()) }
    #[inline] pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let pg = self.pages.get_mut(id as usize / PG)?;
        Rc::make_mut(pg)[id as usize % PG].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u32, o: Rc<Obj>) {
        let p = id as usize / PG;
        while self.pages.len() <= p { self.pages.push(Rc::new([const { None }; PG])); }
        Rc::make_mut(&mut self.pages[p])[id as usize % PG] = Some(o);
    }
    pub fn alloc(&mut self, size: usize, kind: Kind) -> u32 {
        if kind == Kind::Stack { if let Some(id) = self.free_stack.pop() { self.put(id, Rc::new(Obj::new(size, kind))); return id; } }
        let id = self.next; self.next += 1;
        self.put(id, Rc::new(Obj::new(size, kind)));
        id
    }
    pub fn kill(&mut self, id: u32) { self.put(id, Rc::new(Obj { data: vec![], sym: BTreeMap::new(), kind: Kind::Dead })); }
}
