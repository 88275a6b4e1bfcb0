//! Object memory: an address is (object id << 32) + offset.
use std::rc::Rc;

pub const NOSYM: u32 = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    pub s: Option<Vec<u32>>, // NOSYM or a width-8 term per byte
    pub ro: bool,
}

const CH: usize = 64;

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u64,
}

impl Mem {
    pub fn alloc(&mut self, size: usize) -> u64 {
        self.put(Obj { b: vec![0; size], s: None, ro: false })
    }
    pub fn put(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        id
    }
    pub fn get(&self, id: u64) -> Option<&Obj> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_deref()
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(id as usize / CH)?);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u64) {
        if let Some(c) = self.chunks.get_mut(id as usize / CH) {
            Rc::make_mut(c)[id as usize % CH] = None;
        }
    }
}
