//! Copy-on-write byte memory with a symbolic shadow.
use std::rc::Rc;

pub struct Page {
    pub d: [u8; 4096],
    pub s: Option<Box<[u32; 4096]>>,
}
impl Clone for Page {
    fn clone(&self) -> Page {
        Page { d: self.d, s: self.s.clone() }
    }
}
pub struct L2 {
    pub p: Vec<Option<Rc<Page>>>,
}
impl Clone for L2 {
    fn clone(&self) -> L2 {
        L2 { p: self.p.clone() }
    }
}
#[derive(Clone)]
pub struct Mem {
    pub top: Vec<Option<Rc<L2>>>,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { top: vec![None; 4096] }
    }
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> {
        let pn = a >> 12;
        if pn >= 1 << 20 {
            return None;
        }
        match &self.top[(pn >> 8) as usize] {
            None => None,
            Some(l) => match &l.p[(pn & 255) as usize] {
                None => None,
                Some(p) => Some(p),
            },
        }
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let pn = a >> 12;
        if pn >= 1 << 20 {
            return None;
        }
        match &mut self.top[(pn >> 8) as usize] {
            None => None,
            Some(l) => match &mut Rc::make_mut(l).p[(pn & 255) as usize] {
                None => None,
                Some(p) => Some(Rc::make_mut(p)),
            },
        }
    }
    pub fn map(&mut self, pn: u64, init: Option<&[u8]>) {
        let l = self.top[(pn >> 8) as usize].get_or_insert_with(|| Rc::new(L2 { p: vec![None; 256] }));
        let l = Rc::make_mut(l);
        let e = &mut l.p[(pn & 255) as usize];
        if e.is_none() {
            let mut p = Page { d: [0; 4096], s: None };
            if let Some(i) = init {
                p.d.copy_from_slice(i);
            }
            *e = Some(Rc::new(p));
        }
    }
    pub fn mapped(&self, pn: u64) -> bool {
        match &self.top[(pn >> 8) as usize] {
            None => false,
            Some(l) => l.p[(pn & 255) as usize].is_some(),
        }
    }
}
