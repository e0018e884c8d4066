//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
}

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub type Supp = [u64; SW];
pub const SW: usize = 8;

pub struct Arena {
    pub n: Vec<Node>,
    pub supp: Vec<u32>,
    pub rng: Vec<(u128, u128)>,
    supps: Vec<Supp>,
    suppix: HashMap<Supp, u32>,
    suppu: HashMap<(u32, u32), u32>,
    ix: HashMap<Node, u32, FxB>,
    pub nvars: u32,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
#[derive(Default, Clone, Copy)]
pub struct FxB;
impl std::hash::BuildHasher for FxB {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            supp: vec![],
            rng: vec![],
            supps: vec![[0; SW]],
            suppix: HashMap::new(),
            suppu: HashMap::new(),
            ix: HashMap::default(),
            nvars: 0,
        };
        a.suppix.insert([0; SW], 0);
        // id 0 is reserved: "no expression" in the memory shadow
        a.n.push(Node { op: O::Const, w: 1, a: 0, b: 0, c: 0, k: 0xdead });
        a.supp.push(0);
        a.rng.push((0, 0));
        a
    }
    pub fn supp_of(&self, e: E) -> &Supp {
        &self.supps[self.supp[e as usize] as usize]
    }
    fn supp_union(&mut self, x: u32, y: u32) -> u32 {
        if x == y || y == 0 {
            return x;
        }
        if x == 0 {
            return y;
        }
        let key = (x.min(y), x.max(y));
        if let Some(r) = self.suppu.get(&key) {
            return *r;
        }
        let mut s = self.supps[x as usize];
        for i in 0..SW {
            s[i] |= self.supps[y as usize][i];
        }
        let r = self.intern_supp(s);
        self.suppu.insert(key, r);
        r
    }
    fn intern_supp(&mut self, s: Supp) -> u32 {
        if let Some(r) = self.suppix.get(&s) {
            return *r;
        }
        let r = self.supps.len() as u32;
        self.supps.push(s);
        self.suppix.insert(s, r);
        r
    }
    fn mk(&mut self, op: O, w: u32, a: u32, b: u32, c: u32, k: u128) -> E {
        let nd = Node { op, w: w as u16, a, b, c, k };
        if let Some(r) = self.ix.get(&nd) {
            return *r;
        }
        let id = self.n.len() as u32;
        let sp = match op {
            O::Const => 0,
            O::Var => {
                let mut s = [0; SW];
                let i = k as usize;
                assert!(i < SW * 64, "too many symbolic variables");
                s[i / 64] |= 1 << (i % 64);
                self.intern_supp(s)
            }
            _ => {
                let mut s = self.supp[a as usize];
                if b != 0 {
                    s = self.supp_union(s, self.supp[b as usize]);
                }
                if c != 0 {
                    s = self.supp_union(s, self.supp[c as usize]);
                }
                s
            }
        };
        let r = self.range_of(op, w, a, b, c, k);
        self.n.push(nd);
        self.supp.push(sp);
        self.rng.push(r);
        self.ix.insert(nd, id);
        id
    }
    fn range_of(&self, op: O, w: u32, a: u32, b: u32, c: u32, k: u128) -> (u128, u128) {
        let m = mask(w);
        let ra = self.rng[a as usize];
        let rb = self.rng[b as usize];
        match op {
            O::Const => (k, k),
            O::Add => match ra.1.checked_add(rb.1) {
                Some(h) if h <= m => (ra.0 + rb.0, h),
                _ => (0, m),
            },
            O::Sub => {
                if ra.0 >= rb.1 {
                    (ra.0 - rb.1, ra.1 - rb.0)
                } else {
                    (0, m)
                }
            }
            O::Mul => match ra.1.checked_mul(rb.1) {
                Some(h) if h <= m => (ra.0 * rb.0, h),
                _ => (0, m),
            },
            O::UDiv => {
                if rb.0 > 0 {
                    (ra.0 / rb.1, ra.1 / rb.0)
                } else {
                    (0, m)
                }
            }
            O::URem => {
                if rb.0 > 0 {
                    (0, (rb.1 - 1).min(ra.1))
                } else {
                    (0, m)
                }
            }
            O::And => (0, ra.1.min(rb.1)),
            O::Or | O::Xor => {
                let x = ra.1 | rb.1;
                let h = if x == 0 { 0 } else { mask(128 - x.leading_zeros()) };
                (if op == O::Or { ra.0.max(rb.0) } else { 0 }, h.min(m))
            }
            O::LShr => {
                if rb.0 == rb.1 {
                    if rb.0 >= w as u128 {
                        (0, 0)
                    } else {
                        (ra.0 >> rb.0, ra.1 >> rb.0)
                    }
                } else {
                    (0, ra.1)
                }
            }
            O::ZExt => ra,
            O::SExt => {
                let wa = self.n[a as usize].w as u32;
                if ra.1 < 1u128 << (wa - 1) {
                    ra
                } else {
                    (0, m)
                }
            }
            O::Extract => {
                if k == 0 && ra.1 <= m {
                    ra
                } else {
                    (0, m)
                }
            }
            O::Concat => {
                let wb = self.n[b as usize].w as u32;
                ((ra.0 << wb) | rb.0, (ra.1 << wb) | rb.1)
            }
            O::Ite => {
                let rc = self.rng[c as usize];
                (rb.0.min(rc.0), rb.1.max(rc.1))
            }
            _ => (0, m),
        }
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn c(&mut self, k: u128, w: u32) -> E {
        self.mk(O::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, ix: u32, w: u32) -> E {
        self.mk(O::Var, w, 0, 0, 0, ix as u128)
    }
    pub fn k(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn not(&mut self, e: E) -> E {
        // width 1 negation
        let n = self.n[e as usize];
        debug_assert!(n.w == 1);
        match n.op {
            O::Const => self.c(n.k ^ 1, 1),
            O::Ult => self.mk(O::Ule, 1, n.b, n.a, 0, 0),
            O::Ule => self.mk(O::Ult, 1, n.b, n.a, 0, 0),
            O::Slt => self.mk(O::Sle, 1, n.b, n.a, 0, 0),
            O::Sle => self.mk(O::Slt, 1, n.b, n.a, 0, 0),
            O::Xor if self.k(n.b) == Some(1) => n.a,
            _ => {
                let one = self.c(1, 1);
                self.mk(O::Xor, 1, e, one, 0, 0)
            }
        }
    }
    pub fn concrete(op: O, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        match op {
            O::Add => a.wrapping_add(b) & m,
            O::Sub => a.wrapping_sub(b) & m,
            O::Mul => a.wrapping_mul(b) & m,
            O::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            O::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            O::SDiv => {
                if b == 0 {
                    m
                } else {
                    (sext(a, w).wrapping_div(sext(b, w))) as u128 & m
                }
            }
            O::SRem => {
                if b == 0 {
                    a
                } else {
                    (sext(a, w).wrapping_rem(sext(b, w))) as u128 & m
                }
            }
            O::And => a & b,
            O::Or => a | b,
            O::Xor => a ^ b,
            O::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            O::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            O::AShr => {
                let s = sext(a, w);
                (if b >= w as u128 { s >> 127 } else { s >> b }) as u128 & m
            }
            O::Eq => (a == b) as u128,
            O::Ult => (a < b) as u128,
            O::Ule => (a <= b) as u128,
            O::Slt => (sext(a, w) < sext(b, w)) as u128,
            O::Sle => (sext(a, w) <= sext(b, w)) as u128,
            _ => unreachable!(),
        }
    }
    pub fn bin(&mut self, op: O, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            let rw = if matches!(op, O::Eq | O::Ult | O::Ule | O::Slt | O::Sle) { 1 } else { w };
            let v = Self::concrete(op, w, x, y);
            return self.c(v, rw);
        }
        let comm = matches!(op, O::Add | O::Mul | O::And | O::Or | O::Xor | O::Eq);
        if comm && (self.k(a).is_some() || (self.k(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.k(b);
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        match op {
            O::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    if na.op == O::Add {
                        if let Some(x) = self.k(na.b) {
                            let c = self.c(x.wrapping_add(y), w);
                            return self.bin(O::Add, na.a, c);
                        }
                    }
                    // ite with constant arms: push the addition in
                    if na.op == O::Ite && (self.k(na.b).is_some() || self.k(na.c).is_some()) {
                        let x = self.bin(O::Add, na.b, b);
                        let y = self.bin(O::Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            O::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = kb {
                    let c = self.c((!y).wrapping_add(1), w);
                    return self.bin(O::Add, a, c);
                }
                if na.op == O::Add && na.a == b {
                    return na.b;
                }
                if na.op == O::Add && na.b == b {
                    return na.a;
                }
                if na.op == O::Add && nb.op == O::Add && na.a == nb.a {
                    return self.bin(O::Sub, na.b, nb.b);
                }
            }
            O::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let c = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(O::Shl, a, c);
                    }
                }
            }
            O::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let c = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(O::LShr, a, c);
                    }
                }
            }
            O::URem => {
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let c = self.c(y - 1, w);
                        return self.bin(O::And, a, c);
                    }
                    if self.rng[a as usize].1 < y {
                        return a;
                    }
                }
            }
            O::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == mask(w) {
                        return a;
                    }
                    if w == 1 {
                        return a;
                    }
                    // low mask
                    if (y + 1).is_power_of_two() {
                        let lw = y.trailing_ones();
                        if self.rng[a as usize].1 <= y {
                            return a;
                        }
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                    if na.op == O::And {
                        if let Some(x) = self.k(na.b) {
                            let c = self.c(x & y, w);
                            return self.bin(O::And, na.a, c);
                        }
                    }
                    if na.op == O::ZExt {
                        let wa = self.w(na.a);
                        if y & mask(wa) == 0 {
                            return self.c(0, w);
                        }
                        let c = self.c(y, wa);
                        let x = self.bin(O::And, na.a, c);
                        return self.zext(x, w);
                    }
                    if na.op == O::Concat {
                        let wl = self.w(na.b);
                        let ch = self.c(y >> wl, w - wl);
                        let cl = self.c(y, wl);
                        let h = self.bin(O::And, na.a, ch);
                        let l = self.bin(O::And, na.b, cl);
                        return self.concat(h, l);
                    }
                    if na.op == O::Ite && (self.k(na.b).is_some() && self.k(na.c).is_some()) {
                        let x = self.bin(O::And, na.b, b);
                        let y = self.bin(O::And, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            O::Or | O::Xor => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return if op == O::Or { a } else { self.c(0, w) };
                }
                if w == 1 && kb == Some(1) {
                    return if op == O::Or { b } else { self.not(a) };
                }
                if op == O::Or && kb == Some(mask(w)) {
                    return b;
                }
                // disjoint concat(x,0) | zext(y)
                for (x, y) in [(a, b), (b, a)] {
                    let nx = self.n[x as usize];
                    let ny = self.n[y as usize];
                    if nx.op == O::Concat {
                        if self.k(nx.b) == Some(0) {
                            let wl = self.w(nx.b);
                            if self.rng[y as usize].1 <= mask(wl) {
                                let l = self.extract(y, 0, wl);
                                return self.concat(nx.a, l);
                            }
                        }
                        if ny.op == O::Concat && self.w(ny.b) == self.w(nx.b) {
                            let h = self.bin(op, nx.a, ny.a);
                            let l = self.bin(op, nx.b, ny.b);
                            return self.concat(h, l);
                        }
                        if let Some(ky) = self.k(y) {
                            let wl = self.w(nx.b);
                            let ch = self.c(ky >> wl, w - wl);
                            let cl = self.c(ky, wl);
                            let h = self.bin(op, nx.a, ch);
                            let l = self.bin(op, nx.b, cl);
                            return self.concat(h, l);
                        }
                    }
                }
                if op == O::Xor && na.op == O::Xor && self.k(na.b).is_some() && kb.is_some() {
                    let v = self.k(na.b).unwrap() ^ kb.unwrap();
                    let c = self.c(v, w);
                    return self.bin(O::Xor, na.a, c);
                }
            }
            O::Shl => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, 0, w - y as u32);
                    let z = self.c(0, y as u32);
                    return self.concat(x, z);
                }
            }
            O::LShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, y as u32, w - y as u32);
                    return self.zext(x, w);
                }
            }
            O::AShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    let y = y.min(w as u128 - 1) as u32;
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            O::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    return self.c(0, 1);
                }
                if w == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(y) = kb {
                    match na.op {
                        O::ZExt => {
                            let wa = self.w(na.a);
                            let c = self.c(y, wa);
                            return self.bin(O::Eq, na.a, c);
                        }
                        O::SExt => {
                            let wa = self.w(na.a);
                            if sext(y & mask(wa), wa) as u128 & mask(w) != y {
                                return self.c(0, 1);
                            }
                            let c = self.c(y, wa);
                            return self.bin(O::Eq, na.a, c);
                        }
                        O::Concat => {
                            let wl = self.w(na.b);
                            let ch = self.c(y >> wl, w - wl);
                            let cl = self.c(y, wl);
                            let h = self.bin(O::Eq, na.a, ch);
                            if self.k(h) == Some(0) {
                                return h;
                            }
                            let l = self.bin(O::Eq, na.b, cl);
                            return self.bin(O::And, h, l);
                        }
                        O::Ite => {
                            if self.k(na.b).is_some() || self.k(na.c).is_some() {
                                let x = self.bin(O::Eq, na.b, b);
                                let z = self.bin(O::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        O::Add => {
                            if let Some(x) = self.k(na.b) {
                                let c = self.c(y.wrapping_sub(x), w);
                                return self.bin(O::Eq, na.a, c);
                            }
                        }
                        O::Xor => {
                            if let Some(x) = self.k(na.b) {
                                let c = self.c(y ^ x, w);
                                return self.bin(O::Eq, na.a, c);
                            }
                            if y == 0 {
                                return self.bin(O::Eq, na.a, na.b);
                            }
                        }
                        O::Sub => {
                            if y == 0 {
                                return self.bin(O::Eq, na.a, na.b);
                            }
                        }
                        O::Or => {
                            if y == 0 {
                                let z = self.c(0, w);
                                let l = self.bin(O::Eq, na.a, z);
                                let r = self.bin(O::Eq, na.b, z);
                                return self.bin(O::And, l, r);
                            }
                        }
                        _ => {}
                    }
                } else if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.bin(O::Eq, na.a, nb.a);
                    if self.k(h) == Some(0) {
                        return h;
                    }
                    let l = self.bin(O::Eq, na.b, nb.b);
                    return self.bin(O::And, h, l);
                } else if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(O::Eq, na.a, nb.a);
                }
                return self.mk(O::Eq, 1, a, b, 0, 0);
            }
            O::Ult | O::Ule => {
                if a == b {
                    return self.c((op == O::Ule) as u128, 1);
                }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                if op == O::Ult {
                    if ra.1 < rb.0 {
                        return self.c(1, 1);
                    }
                    if ra.0 >= rb.1 {
                        return self.c(0, 1);
                    }
                } else {
                    if ra.1 <= rb.0 {
                        return self.c(1, 1);
                    }
                    if ra.0 > rb.1 {
                        return self.c(0, 1);
                    }
                }
                if op == O::Ult && kb == Some(1) {
                    let z = self.c(0, w);
                    return self.bin(O::Eq, a, z);
                }
                if na.op == O::ZExt {
                    let wa = self.w(na.a);
                    if let Some(y) = kb {
                        if y <= mask(wa) {
                            let c = self.c(y, wa);
                            return self.bin(op, na.a, c);
                        }
                    }
                    if nb.op == O::ZExt && self.w(nb.a) == wa {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if nb.op == O::ZExt {
                    let wb = self.w(nb.a);
                    if let Some(x) = self.k(a) {
                        if x <= mask(wb) {
                            let c = self.c(x, wb);
                            return self.bin(op, c, nb.a);
                        }
                    }
                }
                return self.mk(op, 1, a, b, 0, 0);
            }
            O::Slt | O::Sle => {
                if a == b {
                    return self.c((op == O::Sle) as u128, 1);
                }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                let h = 1u128 << (w - 1);
                if ra.1 < h && rb.1 < h {
                    return self.bin(if op == O::Slt { O::Ult } else { O::Ule }, a, b);
                }
                return self.mk(op, 1, a, b, 0, 0);
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.k(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(O::And, nc, b);
                }
                (Some(1), None) => return self.bin(O::Or, c, b),
                (None, Some(0)) => return self.bin(O::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(O::Or, nc, a);
                }
                _ => {}
            }
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.c(n.k, w),
            O::ZExt => self.mk(O::ZExt, w, n.a, 0, 0, 0),
            O::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(O::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.c(sext(n.k, wa) as u128, w),
            O::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => {
                if self.rng[a as usize].1 < 1u128 << (wa - 1) {
                    return self.zext(a, w);
                }
                self.mk(O::SExt, w, a, 0, 0, 0)
            }
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.c(n.k >> lo, w),
            O::Extract => self.extract(n.a, n.k as u32 + lo, w),
            O::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    self.c(0, w)
                } else if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, wi - lo);
                    self.zext(x, w)
                }
            }
            O::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            O::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else {
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, lo + w - wl);
                    self.concat(h, l)
                }
            }
            O::Ite => {
                if self.k(n.b).is_some() || self.k(n.c).is_some() || n.w > 8 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(O::Extract, w, a, 0, 0, lo as u128)
                }
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            _ => {
                if self.rng[a as usize].1 <= mask(lo) && lo > 0 {
                    return self.c(0, w);
                }
                self.mk(O::Extract, w, a, 0, 0, lo as u128)
            }
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        let (wh, wl) = (nh.w as u32, nl.w as u32);
        let w = wh + wl;
        if nh.op == O::Const {
            if nl.op == O::Const {
                return self.c((nh.k << wl) | nl.k, w);
            }
            if nh.k == 0 {
                return self.zext(l, w);
            }
        }
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // extract high part of x with x's own low part where low part is the whole
        if nh.op == O::Extract && nh.a == l && false {
            unreachable!()
        }
        if nl.op == O::Concat {
            // right-assoc normalise: concat(h, concat(a,b)) with h,a mergeable
            let m = self.concat_merge(h, nl.a);
            if let Some(m) = m {
                return self.concat(m, nl.b);
            }
        }
        if nh.op == O::Concat {
            let m = self.concat_merge(nh.b, l);
            if let Some(m) = m {
                return self.concat(nh.a, m);
            }
            // normal form: left spine in the high argument is rotated
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        // high ite(c,k1,k2) stays
        self.mk(O::Concat, w, h, l, 0, 0)
    }
    fn concat_merge(&mut self, h: E, l: E) -> Option<E> {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == O::Const && nl.op == O::Const {
            return Some(self.c((nh.k << nl.w) | nl.k, nh.w as u32 + nl.w as u32));
        }
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return Some(self.extract(nh.a, nl.k as u32, nh.w as u32 + nl.w as u32));
        }
        None
    }
    pub fn eval(&self, e: E, model: &[u64], memo: &mut HashMap<E, u128, FxB>) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            O::Const => return n.k,
            O::Var => return (*model.get(n.k as usize).unwrap_or(&0) as u128) & mask(n.w as u32),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = n.w as u32;
        let v = match n.op {
            O::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            O::ZExt => self.eval(n.a, model, memo),
            O::SExt => sext(self.eval(n.a, model, memo), self.w(n.a)) as u128 & mask(w),
            O::Extract => (self.eval(n.a, model, memo) >> n.k as u32) & mask(w),
            O::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << self.w(n.b)) | l
            }
            _ => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                Self::concrete(n.op, self.w(n.a), x, y)
            }
        };
        memo.insert(e, v);
        v
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n[e as usize];
        match n.op {
            O::Const => format!("{}", n.k),
            O::Var => format!("v{}", n.k),
            _ if d == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}", n.op);
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, d - 1);
                    }
                }
                if n.op == O::Extract {
                    s += &format!(" @{}+{}", n.k, n.w)
                }
                s + ")"
            }
        }
    }
}
