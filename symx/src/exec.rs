//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: *const Func,
    pub blk: u32,
    pub ip: u32,
    pub base: usize,
    pub sp: u64,
    pub dst: u32,
    pub normal: *const Edge,
}

#[derive(Clone)]
pub struct SymIn {
    pub name: Rc<str>,
    pub e: E,
    pub w: u32,
    pub hidden: bool,
}

#[derive(Clone)]
pub struct HashRec {
    pub seed: Vec<u8>,
    pub data: Rc<Vec<V>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<V>,
    // current frame, cached
    pub f: *const Func,
    pub blk: u32,
    pub ip: u32,
    pub base: usize,
    pub sp: u64,
    pub mem: Mem,
    pub brk: u64,
    pub free: Rc<HashMap<u64, Vec<u64>>>,
    pub sizes: Rc<HashMap<u64, u64>>,
    pub pc: Vec<E>,
    pub known: Vec<(E, u64)>,
    pub model: Vec<u64>,
    pub inputs: Vec<SymIn>,
    pub nvars: u32,
    pub insts: u64,
    pub hashers: Rc<Vec<HashRec>>,
    pub hkeys: Rc<Vec<(Vec<u8>, Vec<(Rc<Vec<V>>, u64)>)>>,
    pub digests: Rc<Vec<(Rc<Vec<V>>, [u8; 32])>>,
    pub panic_ok: bool,
    pub panic_tag: Option<Rc<str>>,
    pub order: u64,       // permutation index applied to hash slots
    pub order_map: u64,   // 0: every map, k: only the k-th seed
    pub covers: Rc<BTreeSet<String>>,
    pub depth: u32,
    pub tag: u64,
    pub finding: Option<Rc<String>>, // the path has left the claim: a recorded finding
    pub files: u64,
    pub heap_live: u64,
}

pub enum End {
    Done,
    Bad, // a check failed on every input of the path
    Assumed,
    Panic(String),
    Error(String),
    Limit(String),
    Stop,
    Switched, // the current state was replaced
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, u32, u64, bool)>,
    pub trace: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub panics_ok: u64,
    pub forks: u64,
    pub insts: u64,
    pub prof: HashMap<u32, (u64, u64)>,
    pub checks: u64,
    pub checks_sym: u64,
    pub errors: BTreeMap<String, u64>,
    pub limits: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub violations: BTreeMap<String, Violation>,
    pub vcount: BTreeMap<String, u64>,
    pub witnesses: BTreeMap<String, Vec<Vec<(String, u32, u64, bool)>>>,
}

pub struct Ex {
    pub prog: Prog,
    pub ar: Arena,
    pub sol: Solver,
    pub work: VecDeque<State>,
    pub st: Stats,
    pub path_limit: u64,
    pub deadline: std::time::Instant,
    pub stop_on_violation: bool,
    pub stop: bool,
    pub shared_stop: *mut u32,
    pub merge_loads: bool,
    pub prof: bool,
    pub trace: bool,
    pub params: BTreeMap<String, u64>,
}

type Res<T> = Result<T, End>;

const H_NONE: u16 = 1;
#[allow(dead_code)]
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u16)]
pub enum H {
    Unres = 0,
    None = 1,
    Panic = 2,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    SipReset,
    SipWrite,
    SipWriteStr,
    SipFinish,
    Digest,
    SymBytes,
    SymChoice,
    SymAssume,
    SymCheck,
    SymCover,
    SymOrder,
    SymPanicOk,
    SymParam,
    SymNote,
    SymKnown,
    Memcpy,
    Memmove,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Malloc,
    Free,
    CRealloc,
    Calloc,
    PosixMemalign,
    Ret0,
    RetM1,
    Write,
    GetRandom,
    Syscall,
    Errno,
    Intr, // llvm.* generic
    Tls,
    Trap,
    ClockGettime,
    Missing,
    AllocErr,
    Sqlite,
    Memchr,
    PhfHash,
    RegexNew,
    Log,
}

fn hook_for(n: &str, ext: bool) -> H {
    if n.starts_with("llvm.") {
        if n.starts_with("llvm.memcpy") {
            return H::Memcpy;
        }
        if n.starts_with("llvm.memmove") {
            return H::Memmove;
        }
        if n.starts_with("llvm.memset") {
            return H::Memset;
        }
        if n.starts_with("llvm.threadlocal") {
            return H::Tls;
        }
        for p in [
            "llvm.lifetime", "llvm.assume", "llvm.experimental", "llvm.dbg", "llvm.x86.sse2.pause", "llvm.donothing", "llvm.sideeffect",
            "llvm.stackrestore", "llvm.invariant", "llvm.fake.use", "llvm.prefetch",
        ] {
            if n.starts_with(p) {
                return H::Nop;
            }
        }
        if n.starts_with("llvm.trap") || n.starts_with("llvm.ubsantrap") {
            return H::Trap;
        }
        return H::Intr;
    }
    match n {
        "__sym_bytes" => return H::SymBytes,
        "__sym_choice" => return H::SymChoice,
        "__sym_assume" => return H::SymAssume,
        "__sym_check" => return H::SymCheck,
        "__sym_cover" => return H::SymCover,
        "__sym_order" => return H::SymOrder,
        "__sym_panic_ok" => return H::SymPanicOk,
        "__sym_param" => return H::SymParam,
        "__sym_note" => return H::SymNote,
        "__sym_known" => return H::SymKnown,
        "memcpy" => return H::Memcpy,
        "memmove" => return H::Memmove,
        "memset" => return H::Memset,
        "bcmp" => return H::Bcmp,
        "memcmp" => return H::Memcmp,
        "strlen" => return H::Strlen,
        "memchr" => return H::Memchr,
        "malloc" => return H::Malloc,
        "free" => return H::Free,
        "realloc" => return H::CRealloc,
        "calloc" => return H::Calloc,
        "posix_memalign" => return H::PosixMemalign,
        "write" => return H::Write,
        "getrandom" => return H::GetRandom,
        "syscall" => return H::Syscall,
        "__errno_location" => return H::Errno,
        "clock_gettime" => return H::ClockGettime,
        "getenv" | "sigaltstack" | "__cxa_thread_atexit_impl" | "pthread_self" | "sysconf" | "gettid" | "close" | "sched_yield" | "pthread_key_create"
        | "pthread_setspecific" | "pthread_getspecific" | "getpid" | "munmap" | "pthread_key_delete" => return H::Ret0,
        "open64" | "open" | "getcwd" | "readlink" | "stat64" | "statx" => return H::RetM1,
        "log" => return H::Log,
        "abort" => return H::Trap,
        _ => {}
    }
    if n.ends_with("4core9panicking9panic_fmt")
        || n.ends_with("4core9panicking18panic_nounwind_fmt")
        || n.ends_with("4core9panicking19panic_cannot_unwind")
        || n.contains("3std9panicking11begin_panic")
        || n.ends_with("rust_begin_unwind")
        || n.ends_with("3std7process5abort")
        || n.ends_with("3std7process4exit")
    {
        return H::Panic;
    }
    if n.ends_with("5alloc5alloc18handle_alloc_error") || n.ends_with("5alloc7raw_vec12handle_error")
        || n.ends_with("5alloc7raw_vec17capacity_overflow")
    {
        return H::AllocErr;
    }
    if n.ends_with("___rustc12___rust_alloc") {
        return H::Alloc;
    }
    if n.ends_with("___rustc19___rust_alloc_zeroed") {
        return H::AllocZ;
    }
    if n.ends_with("___rustc14___rust_dealloc") {
        return H::Dealloc;
    }
    if n.ends_with("___rustc14___rust_realloc") {
        return H::Realloc;
    }
    if n.contains("___rust_no_alloc_shim_is_unstable") {
        return H::Nop;
    }
    if n.contains("4core4hash3sip") && n.contains("6HasherNtB5_11Sip13Rounds") {
        if n.contains("6Hasher5write") {
            return H::SipWrite;
        }
        if n.contains("6Hasher9write_str") {
            return H::SipWriteStr;
        }
        if n.contains("6Hasher6finish") {
            return H::SipFinish;
        }
        if n.contains("E5reset") {
            return H::SipReset;
        }
    }
    if n.ends_with("_6blake34hash") {
        return H::Digest;
    }
    if n.contains("10phf_shared4hash") && !ext {
        return H::PhfHash;
    }
    if n.ends_with("5regex6stringNtB5_5Regex3new") {
        return H::RegexNew;
    }
    if n.starts_with("sqlite3_") && ext {
        return H::Sqlite;
    }
    if ext {
        return H::Missing;
    }
    H::None
}

fn vw(x: u128, w: u32) -> V {
    let x = x & mask(w);
    if w <= 64 {
        V::C(x as u64)
    } else {
        V::W(Rc::new(x))
    }
}

impl State {
    pub fn new() -> State {
        State {
            frames: vec![],
            regs: vec![],
            f: std::ptr::null(),
            blk: 0,
            ip: 0,
            base: 0,
            sp: STACK_BASE,
            mem: Mem::new(),
            brk: HEAP_BASE,
            free: Rc::new(HashMap::new()),
            sizes: Rc::new(HashMap::new()),
            pc: vec![],
            known: vec![],
            model: vec![],
            inputs: vec![],
            nvars: 0,
            insts: 0,
            hashers: Rc::new(vec![]),
            hkeys: Rc::new(vec![]),
            digests: Rc::new(vec![]),
            panic_ok: false,
            panic_tag: None,
            order: 0,
            order_map: 0,
            covers: Rc::new(BTreeSet::new()),
            depth: 0,
            tag: 0,
            finding: None,
            files: 0,
            heap_live: 0,
        }
    }
}

impl Ex {
    // ---------------------------------------------------------------- values
    #[inline]
    fn get(&self, s: &State, o: &Op) -> V {
        match o {
            Op::R(r) => s.regs[s.base + *r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, s: &mut State, r: u32, v: V) {
        if r != u32::MAX {
            let i = s.base + r as usize;
            s.regs[i] = v;
        }
    }
    fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.ar.c(*x as u128, w),
            V::W(x) => self.ar.c(**x, w),
            V::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(a) => {
                // vector as an integer
                let n = a.len() as u32;
                let lw = w / n;
                let mut r = None;
                for x in a.iter() {
                    let e = self.to_e(x, lw);
                    r = Some(match r {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                r.unwrap()
            }
        }
    }
    fn from_e(&self, e: E) -> V {
        match self.ar.k(e) {
            Some(k) => vw(k, self.ar.w(e)),
            None => V::S(e),
        }
    }
    fn conc(v: &V) -> Option<u128> {
        match v {
            V::C(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            _ => None,
        }
    }
    // ---------------------------------------------------------------- solver
    fn eval_model(&self, s: &State, e: E) -> u128 {
        let mut memo = HashMap::default();
        self.ar.eval(e, &s.model, &mut memo)
    }
    /// is pc /\ e satisfiable? On success the model that shows it.
    fn feasible(&mut self, s: &State, e: E) -> Option<Option<Vec<(u32, u64)>>> {
        match self.ar.k(e) {
            Some(0) => return None,
            Some(_) => return Some(None),
            _ => {}
        }
        if self.eval_model(s, e) != 0 {
            return Some(None);
        }
        match self.sol.check(&self.ar, &s.pc, e) {
            R::Unsat => None,
            R::Sat(m) => Some(Some(m)),
            R::Unknown => {
                *self.st.limits.entry("solver returned unknown".into()).or_insert(0) += 1;
                None
            }
        }
    }
    fn constrain(&mut self, s: &mut State, e: E, m: Option<Vec<(u32, u64)>>) {
        if self.ar.k(e).is_some() {
            return;
        }
        if let Some(m) = m {
            for (v, x) in m {
                if s.model.len() <= v as usize {
                    s.model.resize(v as usize + 1, 0);
                }
                s.model[v as usize] = x;
            }
        }
        // split conjunctions so slices stay small
        let n = self.ar.n[e as usize];
        if n.op == O::And && n.w == 1 {
            self.constrain(s, n.a, None);
            self.constrain(s, n.b, None);
            return;
        }
        if !s.pc.contains(&e) {
            s.pc.push(e);
        }
        if n.op == O::Eq {
            if let Some(k) = self.ar.k(n.b) {
                if self.ar.w(n.b) <= 64 {
                    s.known.push((n.a, k as u64));
                }
            }
        }
    }
    fn push(&mut self, mut s: State) {
        s.depth += 1;
        self.st.forks += 1;
        self.work.push_back(s);
    }
    /// a single concrete value for e; other feasible values continue in forks
    /// that re-execute the current instruction.
    fn concretize(&mut self, s: &mut State, e: E) -> Res<u64> {
        if let Some(k) = self.ar.k(e) {
            return Ok(k as u64);
        }
        for (x, v) in &s.known {
            if *x == e {
                return Ok(*v);
            }
        }
        let w = self.ar.w(e);
        let v0 = self.eval_model(s, e) as u64;
        let mut vals = vec![];
        let c0 = self.ar.c(v0 as u128, w);
        let e0 = self.ar.bin(O::Eq, e, c0);
        let mut acc = self.ar.not(e0);
        loop {
            match self.sol.check(&self.ar, &s.pc, acc) {
                R::Unsat => break,
                R::Unknown => {
                    *self.st.limits.entry("solver returned unknown".into()).or_insert(0) += 1;
                    break;
                }
                R::Sat(m) => {
                    let mut mm = s.model.clone();
                    for (v, x) in &m {
                        if mm.len() <= *v as usize {
                            mm.resize(*v as usize + 1, 0);
                        }
                        mm[*v as usize] = *x;
                    }
                    let mut memo = HashMap::default();
                    let v = self.ar.eval(e, &mm, &mut memo) as u64;
                    let c = self.ar.c(v as u128, w);
                    let q = self.ar.bin(O::Eq, e, c);
                    vals.push((v, q, m));
                    let nq = self.ar.not(q);
                    acc = self.ar.bin(O::And, acc, nq);
                    if vals.len() > 400 {
                        return Err(End::Limit(format!("more than 400 values for a concretised expression {}", self.ar.show(e, 3))));
                    }
                }
            }
        }
        for (v, q, m) in vals {
            let mut t = s.clone();
            self.constrain(&mut t, q, Some(m));
            t.known.push((e, v));
            self.push(t);
        }
        self.constrain(s, e0, None);
        s.known.push((e, v0));
        Ok(v0)
    }
    fn addr(&mut self, s: &mut State, v: &V) -> Res<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => self.concretize(s, *e),
            _ => Err(End::Error("address value".into())),
        }
    }
    fn cint(&mut self, s: &mut State, v: &V) -> Res<u64> {
        self.addr(s, v)
    }
    /// decide a width-1 condition, forking when both outcomes are feasible;
    /// the fork re-executes the current instruction.
    fn decide(&mut self, s: &mut State, e: E) -> Res<bool> {
        if let Some(k) = self.ar.k(e) {
            return Ok(k != 0);
        }
        let cur = self.eval_model(s, e) != 0;
        let ne = self.ar.not(e);
        let (mine, other) = if cur { (e, ne) } else { (ne, e) };
        if s.pc.contains(&mine) {
            return Ok(cur);
        }
        match self.sol.check(&self.ar, &s.pc, other) {
            R::Sat(m) => {
                let mut t = s.clone();
                self.constrain(&mut t, other, Some(m));
                self.push(t);
                self.constrain(s, mine, None);
            }
            R::Unsat => {}
            R::Unknown => {
                *self.st.limits.entry("solver returned unknown".into()).or_insert(0) += 1;
                self.constrain(s, mine, None);
            }
        }
        Ok(cur)
    }
    // ---------------------------------------------------------------- memory
    fn fault_in(&mut self, s: &mut State, a: u64) -> bool {
        let pn = a >> 12;
        if a >= MUT_BASE && a < FN_BASE {
            if let Some(p) = self.prog.muts.get(&pn) {
                s.mem.map(pn, Some(p));
                return true;
            }
        }
        false
    }
    #[inline]
    fn rd1(&mut self, s: &mut State, a: u64) -> Res<(u8, u32)> {
        if a < MUT_BASE {
            let o = a.wrapping_sub(IMG_BASE) as usize;
            if a < IMG_BASE || o >= self.prog.image.len() {
                return Err(End::Error(format!("wild read at {:#x}", a)));
            }
            return Ok((self.prog.image[o], 0));
        }
        if s.mem.page(a).is_none() && !self.fault_in(s, a) {
            return Err(End::Error(format!("wild read at {:#x}", a)));
        }
        let p = s.mem.page(a).unwrap();
        let o = (a & 4095) as usize;
        Ok((p.d[o], p.s.as_ref().map_or(0, |x| x[o])))
    }
    fn wr1(&mut self, s: &mut State, a: u64, b: u8, e: u32) -> Res<()> {
        if a < MUT_BASE || (s.mem.page(a).is_none() && !self.fault_in(s, a)) {
            return Err(End::Error(format!("wild write at {:#x}", a)));
        }
        let p = s.mem.page_mut(a).unwrap();
        let o = (a & 4095) as usize;
        p.d[o] = b;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; 4096]))[o] = e;
        } else if let Some(x) = &mut p.s {
            x[o] = 0;
        }
        Ok(())
    }
    fn rd_bytes(&mut self, s: &mut State, a: u64, n: u64) -> Res<Vec<V>> {
        let mut out = Vec::with_capacity(n as usize);
        for i in 0..n {
            let (b, e) = self.rd1(s, a + i)?;
            out.push(if e != 0 { V::S(e) } else { V::C(b as u64) });
        }
        Ok(out)
    }
    fn wr_bytes(&mut self, s: &mut State, a: u64, v: &[V]) -> Res<()> {
        for (i, x) in v.iter().enumerate() {
            match x {
                V::C(b) => self.wr1(s, a + i as u64, *b as u8, 0)?,
                V::S(e) => self.wr1(s, a + i as u64, 0, *e)?,
                _ => unreachable!(),
            }
        }
        Ok(())
    }
    pub fn rd_str(&mut self, s: &mut State, a: u64, n: u64) -> String {
        let mut out = vec![];
        for i in 0..n {
            match self.rd1(s, a + i) {
                Ok((b, 0)) => out.push(b),
                Ok((_, e)) => out.push(self.eval_model(s, e) as u8),
                _ => out.push(b'?'),
            }
        }
        String::from_utf8_lossy(&out).into()
    }
    fn load_int(&mut self, s: &mut State, a: u64, w: u32) -> Res<V> {
        let n = ((w + 7) / 8) as usize;
        let o = (a & 4095) as usize;
        if a < MUT_BASE {
            let i = a.wrapping_sub(IMG_BASE) as usize;
            if a < IMG_BASE || i + n > self.prog.image.len() {
                return Err(End::Error(format!("wild read at {:#x}", a)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.prog.image[i..i + n]);
            return Ok(vw(u128::from_le_bytes(b), w));
        }
        if o + n <= 4096 {
            if s.mem.page(a).is_none() && !self.fault_in(s, a) {
                return Err(End::Error(format!("wild read at {:#x}", a)));
            }
            let p = s.mem.page(a).unwrap();
            let sym = match &p.s {
                None => false,
                Some(x) => x[o..o + n].iter().any(|e| *e != 0),
            };
            if !sym {
                if w == 64 {
                    return Ok(V::C(u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap())));
                }
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&p.d[o..o + n]);
                return Ok(vw(u128::from_le_bytes(b), w));
            }
        }
        let mut r: Option<E> = None;
        for i in 0..n {
            let (b, e) = self.rd1(s, a + i as u64)?;
            let e = if e != 0 { e } else { self.ar.c(b as u128, 8) };
            r = Some(match r {
                None => e,
                Some(l) => self.ar.concat(e, l),
            });
        }
        let mut r = r.unwrap();
        if w % 8 != 0 {
            r = self.ar.extract(r, 0, w);
        }
        Ok(self.from_e(r))
    }
    fn load(&mut self, s: &mut State, t: &Ty, a: u64) -> Res<V> {
        match t {
            Ty::Int(w) => self.load_int(s, a, *w),
            Ty::Ptr | Ty::F64 => self.load_int(s, a, 64),
            Ty::F32 => self.load_int(s, a, 32),
            Ty::F128 => self.load_int(s, a, 128),
            Ty::Vec(e, n) => {
                let sz = e.bits() as u64;
                if sz % 8 != 0 {
                    let v = self.load_int(s, a, sz as u32 * n)?;
                    return self.bitcast(&Ty::Int(sz as u32 * n), t, v);
                }
                let mut out = vec![];
                for i in 0..*n as u64 {
                    out.push(self.load(s, e, a + i * sz / 8)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Struct(st) => {
                let mut out = vec![];
                for (i, f) in st.f.iter().enumerate() {
                    out.push(self.load(s, f, a + st.off[i])?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Arr(e, n) => {
                let mut out = vec![];
                for i in 0..*n {
                    out.push(self.load(s, e, a + i * e.size())?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Err(End::Error("load type".into())),
        }
    }
    fn store_int(&mut self, s: &mut State, a: u64, w: u32, v: &V) -> Res<()> {
        let n = ((w + 7) / 8) as usize;
        let o = (a & 4095) as usize;
        if a < MUT_BASE {
            return Err(End::Error(format!("wild write at {:#x}", a)));
        }
        match v {
            V::C(_) | V::W(_) => {
                let x = Self::conc(v).unwrap().to_le_bytes();
                if o + n <= 4096 {
                    if s.mem.page(a).is_none() && !self.fault_in(s, a) {
                        return Err(End::Error(format!("wild write at {:#x}", a)));
                    }
                    let p = s.mem.page_mut(a).unwrap();
                    p.d[o..o + n].copy_from_slice(&x[..n]);
                    if let Some(sh) = &mut p.s {
                        sh[o..o + n].fill(0);
                    }
                } else {
                    for i in 0..n {
                        self.wr1(s, a + i as u64, x[i], 0)?;
                    }
                }
            }
            V::S(e) => {
                let mut e = *e;
                if w % 8 != 0 {
                    e = self.ar.zext(e, n as u32 * 8);
                }
                for i in 0..n {
                    let b = self.ar.extract(e, i as u32 * 8, 8);
                    match self.ar.k(b) {
                        Some(k) => self.wr1(s, a + i as u64, k as u8, 0)?,
                        None => self.wr1(s, a + i as u64, 0, b)?,
                    }
                }
            }
            V::A(_) => return Err(End::Error("store of aggregate as integer".into())),
        }
        Ok(())
    }
    fn store(&mut self, s: &mut State, t: &Ty, a: u64, v: &V) -> Res<()> {
        match t {
            Ty::Int(w) => self.store_int(s, a, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(s, a, 64, v),
            Ty::F32 => self.store_int(s, a, 32, v),
            Ty::F128 => self.store_int(s, a, 128, v),
            Ty::Vec(e, n) => {
                let sz = e.bits();
                let V::A(x) = v else { return Err(End::Error("vector store".into())) };
                if sz % 8 != 0 {
                    let v = self.bitcast(t, &Ty::Int(sz * n), v.clone())?;
                    return self.store_int(s, a, sz * n, &v);
                }
                for i in 0..*n as usize {
                    self.store(s, e, a + i as u64 * sz as u64 / 8, &x[i])?;
                }
                Ok(())
            }
            Ty::Struct(st) => {
                let V::A(x) = v else { return Err(End::Error("struct store".into())) };
                for (i, f) in st.f.iter().enumerate() {
                    self.store(s, f, a + st.off[i], &x[i])?;
                }
                Ok(())
            }
            Ty::Arr(e, n) => {
                let V::A(x) = v else { return Err(End::Error("array store".into())) };
                for i in 0..*n as usize {
                    self.store(s, e, a + i as u64 * e.size(), &x[i])?;
                }
                Ok(())
            }
            _ => Err(End::Error("store type".into())),
        }
    }
    fn bitcast(&mut self, f: &Ty, t: &Ty, v: V) -> Res<V> {
        match (f, t) {
            (Ty::Vec(..), Ty::Vec(..)) => {
                let w = f.bits();
                if w > 128 {
                    // lane-wise regrouping
                    let (Ty::Vec(fe, _), Ty::Vec(te, tn)) = (f, t) else { unreachable!() };
                    let V::A(a) = v else { return Err(End::Error("bitcast".into())) };
                    let (fw, tw) = (fe.bits(), te.bits());
                    let mut out = vec![];
                    for i in 0..*tn {
                        if tw >= fw {
                            let k = tw / fw;
                            let mut r: Option<E> = None;
                            for j in 0..k {
                                let e = self.to_e(&a[(i * k + j) as usize], fw);
                                r = Some(match r {
                                    None => e,
                                    Some(l) => self.ar.concat(e, l),
                                });
                            }
                            out.push(self.from_e(r.unwrap()));
                        } else {
                            let k = fw / tw;
                            let e = self.to_e(&a[(i / k) as usize], fw);
                            let x = self.ar.extract(e, (i % k) * tw, tw);
                            out.push(self.from_e(x));
                        }
                    }
                    return Ok(V::A(Rc::new(out)));
                }
                let i = self.bitcast(f, &Ty::Int(w), v)?;
                self.bitcast(&Ty::Int(w), t, i)
            }
            (Ty::Vec(e, n), _) => {
                let V::A(a) = &v else { return Err(End::Error("bitcast".into())) };
                let lw = e.bits();
                if a.iter().all(|x| matches!(x, V::C(_))) && lw * n <= 128 {
                    let mut r = 0u128;
                    for (i, x) in a.iter().enumerate() {
                        r |= Self::conc(x).unwrap() << (i as u32 * lw);
                    }
                    return Ok(vw(r, lw * n));
                }
                let e = self.to_e(&v, lw * n);
                Ok(self.from_e(e))
            }
            (_, Ty::Vec(e, n)) => {
                let lw = e.bits();
                if let Some(x) = Self::conc(&v) {
                    return Ok(V::A(Rc::new((0..*n).map(|i| vw(x >> (i * lw), lw)).collect())));
                }
                let x = self.to_e(&v, lw * n);
                let mut out = vec![];
                for i in 0..*n {
                    let y = self.ar.extract(x, i * lw, lw);
                    out.push(self.from_e(y));
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Ok(v),
        }
    }
    // ---------------------------------------------------------------- heap
    fn alloc(&mut self, s: &mut State, size: u64, align: u64) -> Res<u64> {
        if size > 1 << 30 {
            return Err(End::Panic(format!("huge allocation ({} bytes)", size)));
        }
        let al = align.max(16);
        let cls = (size.max(1) + 15) / 16 * 16;
        if al == 16 {
            if let Some(v) = s.free.get(&cls) {
                if !v.is_empty() {
                    let f = Rc::make_mut(&mut s.free);
                    let a = f.get_mut(&cls).unwrap().pop().unwrap();
                    // fresh contents
                    for i in (0..cls).step_by(8) {
                        self.store_int(s, a + i, 64, &V::C(0))?;
                    }
                    s.heap_live += cls;
                    return Ok(a);
                }
            }
        }
        let a = (s.brk + al - 1) / al * al;
        s.brk = a + cls;
        if s.brk >= STACK_BASE {
            return Err(End::Limit("heap exhausted".into()));
        }
        for pn in (a >> 12)..=((a + cls - 1) >> 12) {
            s.mem.map(pn, None);
        }
        s.heap_live += cls;
        Ok(a)
    }
    fn dealloc(&mut self, s: &mut State, a: u64, size: u64) {
        if size == 0 || a < HEAP_BASE {
            return;
        }
        let cls = (size + 15) / 16 * 16;
        s.heap_live -= cls.min(s.heap_live);
        Rc::make_mut(&mut s.free).entry(cls).or_default().push(a);
    }
    fn copy(&mut self, s: &mut State, d: u64, sr: u64, n: u64) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        // fast path: no page of either side has a shadow and no overlap trouble
        if n <= 16 && (n == 8 || n == 16 || n == 4 || n == 2 || n == 1) {
            let v = self.load_int(s, sr, n as u32 * 8)?;
            return self.store_int(s, d, n as u32 * 8, &v);
        }
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut shadow: Option<Vec<u32>> = None;
        let mut i = 0;
        while i < n {
            let a = sr + i;
            let o = (a & 4095) as usize;
            let k = ((4096 - o) as u64).min(n - i) as usize;
            if a < MUT_BASE {
                let j = a.wrapping_sub(IMG_BASE) as usize;
                if a < IMG_BASE || j + k > self.prog.image.len() {
                    return Err(End::Error(format!("wild read at {:#x}", a)));
                }
                buf.extend_from_slice(&self.prog.image[j..j + k]);
                if let Some(sh) = &mut shadow {
                    sh.extend(std::iter::repeat(0).take(k));
                }
            } else {
                if s.mem.page(a).is_none() && !self.fault_in(s, a) {
                    return Err(End::Error(format!("wild read at {:#x}", a)));
                }
                let p = s.mem.page(a).unwrap();
                buf.extend_from_slice(&p.d[o..o + k]);
                match &p.s {
                    Some(x) => {
                        let sl = &x[o..o + k];
                        if shadow.is_none() && sl.iter().any(|e| *e != 0) {
                            shadow = Some(vec![0; i as usize]);
                        }
                        if let Some(sh) = &mut shadow {
                            sh.extend_from_slice(sl);
                        }
                    }
                    None => {
                        if let Some(sh) = &mut shadow {
                            sh.extend(std::iter::repeat(0).take(k));
                        }
                    }
                }
            }
            i += k as u64;
        }
        let mut i = 0;
        while i < n {
            let a = d + i;
            let o = (a & 4095) as usize;
            let k = ((4096 - o) as u64).min(n - i) as usize;
            if a < MUT_BASE || (s.mem.page(a).is_none() && !self.fault_in(s, a)) {
                return Err(End::Error(format!("wild write at {:#x}", a)));
            }
            let p = s.mem.page_mut(a).unwrap();
            p.d[o..o + k].copy_from_slice(&buf[i as usize..i as usize + k]);
            match &shadow {
                Some(sh) => {
                    let sl = &sh[i as usize..i as usize + k];
                    if p.s.is_some() || sl.iter().any(|e| *e != 0) {
                        p.s.get_or_insert_with(|| Box::new([0; 4096]))[o..o + k].copy_from_slice(sl);
                    }
                }
                None => {
                    if let Some(x) = &mut p.s {
                        x[o..o + k].fill(0);
                    }
                }
            }
            i += k as u64;
        }
        Ok(())
    }
    // ---------------------------------------------------------------- ops
    fn bin(&mut self, s: &mut State, op: O, w: u32, a: &V, b: &V) -> Res<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                if matches!(op, O::UDiv | O::SDiv | O::URem | O::SRem) && *y == 0 {
                    return Err(End::Error("division by zero".into()));
                }
                return Ok(V::C(Arena::concrete(op, w, *x as u128, *y as u128) as u64));
            }
        }
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            return Ok(vw(Arena::concrete(op, w, x, y), w));
        }
        let (x, mut y) = (self.to_e(a, w), self.to_e(b, w));
        if matches!(op, O::Mul | O::UDiv | O::SDiv | O::URem | O::SRem) && self.ar.k(x).is_none() && self.ar.k(y).is_none() && w > 16 {
            let k = self.concretize(s, y)?;
            y = self.ar.c(k as u128, w);
        }
        let r = self.ar.bin(op, x, y);
        Ok(self.from_e(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(O::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(O::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.bin(O::Ult, y, x),
            Pred::Uge => self.ar.bin(O::Ule, y, x),
            Pred::Ult => self.ar.bin(O::Ult, x, y),
            Pred::Ule => self.ar.bin(O::Ule, x, y),
            Pred::Sgt => self.ar.bin(O::Slt, y, x),
            Pred::Sge => self.ar.bin(O::Sle, y, x),
            Pred::Slt => self.ar.bin(O::Slt, x, y),
            Pred::Sle => self.ar.bin(O::Sle, x, y),
        };
        self.from_e(r)
    }
    fn cast(&mut self, s: &mut State, k: Cast, f: &Ty, t: &Ty, v: V) -> Res<V> {
        if let (Ty::Vec(fe, _), Ty::Vec(te, _)) = (f, t) {
            if k != Cast::Bit {
                let V::A(a) = v else { return Err(End::Error("vector cast".into())) };
                let mut out = vec![];
                for x in a.iter() {
                    out.push(self.cast(s, k, fe, te, x.clone())?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        match k {
            Cast::Bit => return self.bitcast(f, t, v),
            Cast::Trunc => {
                let w = t.bits();
                return Ok(match &v {
                    V::C(x) => vw(*x as u128, w),
                    V::W(x) => vw(**x, w),
                    V::S(e) => {
                        let r = self.ar.extract(*e, 0, w);
                        self.from_e(r)
                    }
                    _ => return Err(End::Error("trunc".into())),
                });
            }
            Cast::ZExt => {
                let w = t.bits();
                return Ok(match &v {
                    V::C(x) => vw(*x as u128, w),
                    V::W(x) => vw(**x, w),
                    V::S(e) => {
                        let r = self.ar.zext(*e, w);
                        self.from_e(r)
                    }
                    _ => return Err(End::Error("zext".into())),
                });
            }
            Cast::SExt => {
                let (fw, w) = (f.bits(), t.bits());
                return Ok(match &v {
                    V::C(x) => vw(sext(*x as u128, fw) as u128, w),
                    V::W(x) => vw(sext(**x, fw) as u128, w),
                    V::S(e) => {
                        let r = self.ar.sext(*e, w);
                        self.from_e(r)
                    }
                    _ => return Err(End::Error("sext".into())),
                });
            }
            _ => {}
        }
        let x = match &v {
            V::S(e) => self.concretize(s, *e)? as u128,
            o => Self::conc(o).ok_or(End::Error("float cast".into()))?,
        };
        let ff = |t: &Ty, x: u128| -> f64 {
            if *t == Ty::F32 {
                f32::from_bits(x as u32) as f64
            } else {
                f64::from_bits(x as u64)
            }
        };
        let pk = |t: &Ty, y: f64| -> V {
            if *t == Ty::F32 {
                V::C((y as f32).to_bits() as u64)
            } else {
                V::C(y.to_bits())
            }
        };
        Ok(match k {
            Cast::FpExt | Cast::FpTrunc => pk(t, ff(f, x)),
            Cast::FpToUi => vw(ff(f, x) as u128, t.bits()),
            Cast::FpToSi => vw(ff(f, x) as i128 as u128, t.bits()),
            Cast::UiToFp => {
                if *t == Ty::F32 {
                    V::C((x as f32).to_bits() as u64)
                } else {
                    V::C((x as f64).to_bits())
                }
            }
            Cast::SiToFp => {
                let y = sext(x, f.bits());
                if *t == Ty::F32 {
                    V::C((y as f32).to_bits() as u64)
                } else {
                    V::C((y as f64).to_bits())
                }
            }
            _ => unreachable!(),
        })
    }
    fn select(&mut self, t: &Ty, c: &V, a: V, b: V) -> Res<V> {
        match c {
            V::C(x) => Ok(if *x != 0 { a } else { b }),
            V::S(e) => match t {
                Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                    let w = t.bits();
                    let (x, y) = (self.to_e(&a, w), self.to_e(&b, w));
                    let r = self.ar.ite(*e, x, y);
                    Ok(self.from_e(r))
                }
                Ty::Vec(et, _) => {
                    let (V::A(x), V::A(y)) = (&a, &b) else { return Err(End::Error("select".into())) };
                    let mut out = vec![];
                    for i in 0..x.len() {
                        out.push(self.select(et, &V::S(*e), x[i].clone(), y[i].clone())?);
                    }
                    Ok(V::A(Rc::new(out)))
                }
                Ty::Struct(st) => {
                    let (V::A(x), V::A(y)) = (&a, &b) else { return Err(End::Error("select".into())) };
                    let mut out = vec![];
                    for i in 0..x.len() {
                        out.push(self.select(&st.f[i], &V::S(*e), x[i].clone(), y[i].clone())?);
                    }
                    Ok(V::A(Rc::new(out)))
                }
                _ => Err(End::Error("select type".into())),
            },
            _ => Err(End::Error("select condition".into())),
        }
    }
    // -------------------------------------------------------------- control
    fn jump(&mut self, s: &mut State, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.get(s, &e.copies[0].1);
                self.set(s, e.copies[0].0, v);
            }
            _ => {
                let vals: Vec<V> = e.copies.iter().map(|(_, o)| self.get(s, o)).collect();
                for ((d, _), v) in e.copies.iter().zip(vals) {
                    self.set(s, *d, v);
                }
            }
        }
        s.blk = e.to;
        s.ip = 0;
    }
    pub fn enter(&mut self, s: &mut State, fid: u32, args: Vec<V>, dst: u32, normal: *const Edge) -> Res<()> {
        let f = match self.prog.func(fid) {
            Some(f) => f,
            None => return Err(End::Error(format!("call to an unknown function {}", self.prog.fns[fid as usize].name))),
        };
        self.prog.fns[fid as usize].calls += 1;
        if s.frames.len() > 4000 {
            return Err(End::Limit("call depth 4000".into()));
        }
        if !s.f.is_null() {
            s.frames.push(Frame { f: s.f, blk: s.blk, ip: s.ip, base: s.base, sp: s.sp, dst, normal });
        }
        s.base = s.regs.len();
        let n = f.nregs as usize;
        let mut args = args;
        args.truncate(f.nparams as usize);
        let na = args.len();
        s.regs.extend(args);
        for _ in na..n {
            s.regs.push(V::C(0));
        }
        s.f = Rc::as_ptr(&f);
        s.blk = 0;
        s.ip = 0;
        Ok(())
    }
    /// x86-64: every variable argument is passed in memory (va_start reports that no registers are left)
    fn enter_vararg(&mut self, s: &mut State, fid: u32, c: &CallI, args: Vec<V>, normal: *const Edge) -> Res<()> {
        let f = self.prog.func(fid).unwrap();
        let n = f.nparams as usize;
        let rest: Vec<V> = args.iter().skip(n).cloned().collect();
        self.enter(s, fid, args, c.dst, normal)?;
        let a = (s.sp + 15) / 16 * 16;
        s.sp = a + (rest.len() as u64 * 8).max(8);
        for pn in (a >> 12)..=((s.sp - 1) >> 12) {
            if !s.mem.mapped(pn) {
                s.mem.map(pn, None);
            }
        }
        for (i, v) in rest.iter().enumerate() {
            let p = a + 8 * i as u64;
            self.store_int(s, p, 64, &V::C(0))?;
            let t = c.tys[n + i].clone();
            self.store(s, &t, p, v)?;
        }
        let r = s.base + f.nregs as usize - 1;
        s.regs[r] = V::C(a);
        Ok(())
    }
    fn ret(&mut self, s: &mut State, v: Option<V>) -> Res<()> {
        match s.frames.pop() {
            None => Err(End::Done),
            Some(fr) => {
                s.regs.truncate(s.base);
                s.f = fr.f;
                s.blk = fr.blk;
                s.ip = fr.ip;
                s.base = fr.base;
                s.sp = fr.sp;
                if let Some(v) = v {
                    self.set(s, fr.dst, v);
                }
                if !fr.normal.is_null() {
                    let e = unsafe { &*fr.normal };
                    self.jump(s, e);
                }
                Ok(())
            }
        }
    }
    pub fn backtrace(&self, s: &State) -> String {
        let mut v = vec![];
        let mut add = |f: *const Func| {
            let n = unsafe { &(*f).name };
            v.push(short_name(n));
        };
        add(s.f);
        for fr in s.frames.iter().rev().take(60) {
            add(fr.f);
        }
        v.join(" < ")
    }
    pub fn violation(&mut self, s: &State, model: &[u64], kind: &str, msg: &str) {
        let kk;
        let kind = match &s.finding {
            Some(k) => {
                kk = format!("known:{}", k);
                kk.as_str()
            }
            None => kind,
        };
        let key = format!("{}|{}", kind, msg);
        *self.st.vcount.entry(key.clone()).or_insert(0) += 1;
        if !self.st.violations.contains_key(&key) {
            let inputs = s
                .inputs
                .iter()
                .map(|i| {
                    let mut memo = HashMap::default();
                    (i.name.to_string(), i.w, self.ar.eval(i.e, model, &mut memo) as u64, i.hidden)
                })
                .collect();
            let trace = self.backtrace(s);
            self.st.violations.insert(key, Violation { kind: kind.into(), msg: msg.into(), inputs, trace });
        }
        if self.stop_on_violation && s.finding.is_none() {
            self.stop = true;
            if !self.shared_stop.is_null() {
                unsafe { std::ptr::write_volatile(self.shared_stop, 1) };
            }
        }
    }
    fn fresh(&mut self, s: &mut State, name: &str, w: u32, hidden: bool) -> E {
        let ix = s.nvars;
        s.nvars += 1;
        // one width per index: indices are reused across paths, widths differ by slot
        let e = self.var_slot(ix, w);
        s.inputs.push(SymIn { name: name.into(), e, w, hidden });
        e
    }
    fn var_slot(&mut self, ix: u32, w: u32) -> E {
        // Variables of different widths must not share an index: the slot
        // index is interleaved with a width class.
        let cls = match w {
            8 => 0,
            16 => 1,
            32 => 2,
            _ => 3,
        };
        let _ = cls;
        while self.sol.vars.len() <= ix as usize {
            self.sol.vars.push(0);
        }
        if self.sol.vars[ix as usize] == 0 || self.sol.vars[ix as usize] == w {
            self.sol.vars[ix as usize] = w;
            return self.ar.var(ix, w);
        }
        panic!("symbolic variable {} used with two widths", ix);
    }
    // ---------------------------------------------------------------- run
    pub fn run_state(&mut self, s: &mut State) -> End {
        loop {
            match self.run_inner(s) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }
    fn sample(&mut self, s: &State) {
        let mut seen: Vec<u32> = vec![];
        let top = unsafe { (*s.f).fid as u32 };
        for fr in &s.frames {
            if !fr.f.is_null() {
                let id = unsafe { (*fr.f).fid as u32 };
                if !seen.contains(&id) && id != top {
                    seen.push(id);
                }
            }
        }
        for id in seen {
            self.st.prof.entry(id).or_default().1 += 1;
        }
        let e = self.st.prof.entry(top).or_default();
        e.0 += 1;
        e.1 += 1;
    }
    fn run_inner(&mut self, s: &mut State) -> Res<()> {
        let mut budget: u32 = 20_000;
        loop {
            if budget == 0 {
                if std::time::Instant::now() > self.deadline {
                    return Err(End::Limit("time budget".into()));
                }
                if !self.shared_stop.is_null() && unsafe { std::ptr::read_volatile(self.shared_stop) } != 0 {
                    return Err(End::Stop);
                }
                if s.insts > self.path_limit {
                    return Err(End::Limit("step bound".into()));
                }
                return Ok(());
            }
            budget -= 1;
            s.insts += 1;
            self.st.insts += 1;
            let f = unsafe { &*s.f };
            if self.prof && self.st.insts % 997 == 0 {
                self.sample(s);
            }
            let inst = &f.blocks[s.blk as usize][s.ip as usize];
            match inst {
                I::Bin(op, w, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let v = self.bin(s, *op, *w, &x, &y)?;
                    self.set(s, *d, v);
                    s.ip += 1;
                }
                I::ICmp(p, w, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let v = self.icmp(*p, *w, &x, &y);
                    self.set(s, *d, v);
                    s.ip += 1;
                }
                I::Load(t, d, p) => {
                    let pv = self.get(s, p);
                    if let V::S(e) = pv {
                        if self.merge_loads && !t.is_agg() && !matches!(t, Ty::Vec(..)) {
                            if let Some(v) = self.table_load(s, t, e)? {
                                self.set(s, *d, v);
                                s.ip += 1;
                                continue;
                            }
                        }
                    }
                    let a = self.addr(s, &pv)?;
                    let v = self.load(s, t, a)?;
                    self.set(s, *d, v);
                    s.ip += 1;
                }
                I::Store(t, v, p) => {
                    let pv = self.get(s, p);
                    let a = self.addr(s, &pv)?;
                    let x = self.get(s, v);
                    self.store(s, t, a, &x)?;
                    s.ip += 1;
                }
                I::Gep(d, b, off, idx) => {
                    let mut v = self.get(s, b);
                    if *off != 0 {
                        v = match v {
                            V::C(x) => V::C(x.wrapping_add(*off as u64)),
                            o => self.bin(s, O::Add, 64, &o, &V::C(*off as u64))?,
                        };
                    }
                    for (o, w, sc) in idx {
                        let i = self.get(s, o);
                        match (&v, &i) {
                            (V::C(x), V::C(i)) => {
                                let i = sext(*i as u128, *w) as i64;
                                v = V::C(x.wrapping_add(i.wrapping_mul(*sc) as u64));
                            }
                            _ => {
                                let mut e = self.to_e(&i, *w);
                                if *w < 64 {
                                    e = self.ar.sext(e, 64);
                                }
                                let k = self.ar.c(*sc as u64 as u128, 64);
                                let m = self.ar.bin(O::Mul, e, k);
                                let b = self.to_e(&v, 64);
                                let r = self.ar.bin(O::Add, b, m);
                                v = self.from_e(r);
                            }
                        }
                    }
                    self.set(s, *d, v);
                    s.ip += 1;
                }
                I::Br(e) => self.jump(s, e),
                I::CBr(c, a, b) => {
                    let v = self.get(s, c);
                    match v {
                        V::C(x) => self.jump(s, if x != 0 { a } else { b }),
                        V::S(e) => {
                            if self.decide(s, e)? {
                                self.jump(s, a)
                            } else {
                                self.jump(s, b)
                            }
                        }
                        _ => return Err(End::Error("branch condition".into())),
                    }
                }
                I::Switch(w, v, d, cs) => {
                    let x = self.get(s, v);
                    match Self::conc(&x) {
                        Some(k) => {
                            let e = cs.iter().find(|(c, _)| *c == k).map(|x| &x.1).unwrap_or(d);
                            self.jump(s, e);
                        }
                        None => {
                            let e = self.to_e(&x, *w);
                            // group the cases by target
                            let mut taken = false;
                            let mut byt: BTreeMap<u32, E> = BTreeMap::new();
                            let mut none = self.ar.c(1, 1);
                            for (k, ed) in cs {
                                let c = self.ar.c(*k, *w);
                                let q = self.ar.bin(O::Eq, e, c);
                                let nq = self.ar.not(q);
                                none = self.ar.bin(O::And, none, nq);
                                let o = byt.get(&ed.to).copied();
                                let r = match o {
                                    None => q,
                                    Some(o) => self.ar.bin(O::Or, o, q),
                                };
                                byt.insert(ed.to, r);
                            }
                            // targets with phi copies that differ per case value are split by value
                            let mut opts: Vec<(E, *const Edge)> = vec![];
                            let mut seen = BTreeSet::new();
                            for (k, ed) in cs {
                                if ed.copies.is_empty() {
                                    if seen.insert(ed.to) {
                                        opts.push((byt[&ed.to], ed));
                                    }
                                } else {
                                    let c = self.ar.c(*k, *w);
                                    let q = self.ar.bin(O::Eq, e, c);
                                    opts.push((q, ed));
                                }
                            }
                            opts.push((none, d));
                            let mut mine: Option<(E, *const Edge)> = None;
                            for (q, ed) in opts {
                                if self.ar.k(q) == Some(0) {
                                    continue;
                                }
                                if !taken && self.eval_model(s, q) != 0 {
                                    mine = Some((q, ed));
                                    taken = true;
                                    continue;
                                }
                                if let R::Sat(m) = self.sol.check(&self.ar, &s.pc, q) {
                                    let mut t = s.clone();
                                    self.constrain(&mut t, q, Some(m));
                                    let ed = unsafe { &*ed };
                                    self.jump(&mut t, ed);
                                    self.push(t);
                                }
                            }
                            let (q, ed) = mine.ok_or(End::Error("switch without a feasible target".into()))?;
                            self.constrain(s, q, None);
                            let ed = unsafe { &*ed };
                            self.jump(s, ed);
                        }
                    }
                }
                I::Ret(v) => {
                    let v = v.as_ref().map(|o| self.get(s, o));
                    self.ret(s, v)?;
                }
                I::Call(c) => self.call(s, c)?,
                I::Cast(k, f, t, d, a) => {
                    let v = self.get(s, a);
                    let r = self.cast(s, *k, f, t, v)?;
                    self.set(s, *d, r);
                    s.ip += 1;
                }
                I::Alloca(d, sz, al) => {
                    let a = (s.sp + al - 1) / al * al;
                    s.sp = a + (*sz).max(1);
                    if s.sp > 0xE000_0000 {
                        return Err(End::Limit("stack".into()));
                    }
                    for pn in (a >> 12)..=((s.sp - 1) >> 12) {
                        if !s.mem.mapped(pn) {
                            s.mem.map(pn, None);
                        }
                    }
                    self.set(s, *d, V::C(a));
                    s.ip += 1;
                }
                I::AllocaDyn(d, sz, n) => {
                    let n = self.get(s, n);
                    let n = self.cint(s, &n)?;
                    let a = (s.sp + 15) / 16 * 16;
                    s.sp = a + (*sz * n).max(1);
                    for pn in (a >> 12)..=((s.sp - 1) >> 12) {
                        s.mem.map(pn, None);
                    }
                    self.set(s, *d, V::C(a));
                    s.ip += 1;
                }
                I::Select(t, d, c, a, b, vc) => {
                    let (c, x, y) = (self.get(s, c), self.get(s, a), self.get(s, b));
                    let r = if *vc {
                        let (V::A(c), V::A(x), V::A(y)) = (&c, &x, &y) else { return Err(End::Error("vselect".into())) };
                        let Ty::Vec(et, _) = t else { return Err(End::Error("vselect".into())) };
                        let mut out = vec![];
                        for i in 0..c.len() {
                            out.push(self.select(et, &c[i], x[i].clone(), y[i].clone())?);
                        }
                        V::A(Rc::new(out))
                    } else {
                        if let (V::S(e), Ty::Arr(..)) = (&c, t) {
                            if self.decide(s, *e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.select(t, &c, x, y)?
                        }
                    };
                    self.set(s, *d, r);
                    s.ip += 1;
                }
                I::Extract(d, a, ix) => {
                    let mut v = self.get(s, a);
                    for i in ix {
                        let V::A(x) = &v else { return Err(End::Error("extractvalue".into())) };
                        let n = x[*i as usize].clone();
                        v = n;
                    }
                    self.set(s, *d, v);
                    s.ip += 1;
                }
                I::Insert(_, d, a, b, ix) => {
                    let v = self.get(s, a);
                    let x = self.get(s, b);
                    fn ins(v: V, x: V, ix: &[u32]) -> Option<V> {
                        if ix.is_empty() {
                            return Some(x);
                        }
                        let V::A(a) = v else { return None };
                        let mut a = (*a).clone();
                        let i = ix[0] as usize;
                        a[i] = ins(a[i].clone(), x, &ix[1..])?;
                        Some(V::A(Rc::new(a)))
                    }
                    let r = ins(v, x, ix).ok_or(End::Error("insertvalue".into()))?;
                    self.set(s, *d, r);
                    s.ip += 1;
                }
                I::Copy(d, a) => {
                    let v = self.get(s, a);
                    self.set(s, *d, v);
                    s.ip += 1;
                }
                I::Nop => s.ip += 1,
                I::VBin(op, t, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let (V::A(x), V::A(y)) = (&x, &y) else { return Err(End::Error("vector op".into())) };
                    let Ty::Vec(et, _) = t else { unreachable!() };
                    let w = et.bits();
                    let mut out = vec![];
                    for i in 0..x.len() {
                        out.push(self.bin(s, *op, w, &x[i], &y[i])?);
                    }
                    self.set(s, *d, V::A(Rc::new(out)));
                    s.ip += 1;
                }
                I::VICmp(p, t, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let (V::A(x), V::A(y)) = (&x, &y) else { return Err(End::Error("vector cmp".into())) };
                    let Ty::Vec(et, _) = t else { unreachable!() };
                    let w = et.bits();
                    let mut out = vec![];
                    for i in 0..x.len() {
                        out.push(self.icmp(*p, w, &x[i], &y[i]));
                    }
                    self.set(s, *d, V::A(Rc::new(out)));
                    s.ip += 1;
                }
                I::ExtractElem(d, a, i) => {
                    let v = self.get(s, a);
                    let i = self.get(s, i);
                    let i = self.cint(s, &i)? as usize;
                    let V::A(x) = &v else { return Err(End::Error("extractelement".into())) };
                    let r = x[i].clone();
                    self.set(s, *d, r);
                    s.ip += 1;
                }
                I::InsertElem(_, d, a, b, i) => {
                    let v = self.get(s, a);
                    let b = self.get(s, b);
                    let i = self.get(s, i);
                    let i = self.cint(s, &i)? as usize;
                    let V::A(x) = &v else { return Err(End::Error("insertelement".into())) };
                    let mut x = (**x).clone();
                    x[i] = b;
                    self.set(s, *d, V::A(Rc::new(x)));
                    s.ip += 1;
                }
                I::Shuffle(d, a, b, n, m) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let (V::A(x), V::A(y)) = (&x, &y) else { return Err(End::Error("shuffle".into())) };
                    let mut out = vec![];
                    for i in m {
                        out.push(match i {
                            None => x[0].clone(),
                            Some(i) if i < n => x[*i as usize].clone(),
                            Some(i) => y[(*i - n) as usize].clone(),
                        });
                    }
                    self.set(s, *d, V::A(Rc::new(out)));
                    s.ip += 1;
                }
                I::FBin(op, t, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let (x, y) = (self.cint(s, &x)?, self.cint(s, &y)?);
                    let r = if *t == Ty::F32 {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            b'a' => x + y,
                            b's' => x - y,
                            b'm' => x * y,
                            b'd' => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match op {
                            b'a' => x + y,
                            b's' => x - y,
                            b'm' => x * y,
                            b'd' => x / y,
                            _ => x % y,
                        })
                        .to_bits()
                    };
                    self.set(s, *d, V::C(r));
                    s.ip += 1;
                }
                I::FNeg(t, d, a) => {
                    let x = self.get(s, a);
                    let x = self.cint(s, &x)?;
                    let r = if *t == Ty::F32 { x ^ (1 << 31) } else { x ^ (1 << 63) };
                    self.set(s, *d, V::C(r));
                    s.ip += 1;
                }
                I::FCmp(p, t, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let (x, y) = (self.cint(s, &x)?, self.cint(s, &y)?);
                    let (x, y) = if *t == Ty::F32 {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    } else {
                        (f64::from_bits(x), f64::from_bits(y))
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "one" => !un && x != y,
                        "ord" => !un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => x != y,
                        "uno" => un,
                        "true" => true,
                        _ => false,
                    };
                    self.set(s, *d, V::C(r as u64));
                    s.ip += 1;
                }
                I::Rmw(op, t, d, p, v) => {
                    let pv = self.get(s, p);
                    let a = self.addr(s, &pv)?;
                    let old = self.load(s, t, a)?;
                    let v = self.get(s, v);
                    let w = t.bits();
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(s, O::Add, w, &old, &v)?,
                        "sub" => self.bin(s, O::Sub, w, &old, &v)?,
                        "and" => self.bin(s, O::And, w, &old, &v)?,
                        "or" => self.bin(s, O::Or, w, &old, &v)?,
                        "xor" => self.bin(s, O::Xor, w, &old, &v)?,
                        "umax" | "umin" => {
                            let c = self.icmp(if op == "umax" { Pred::Ugt } else { Pred::Ult }, w, &old, &v);
                            self.select(t, &c, old.clone(), v)?
                        }
                        _ => return Err(End::Error(format!("atomicrmw {}", op))),
                    };
                    self.store(s, t, a, &nv)?;
                    self.set(s, *d, old);
                    s.ip += 1;
                }
                I::CmpXchg(t, d, p, c, n) => {
                    let pv = self.get(s, p);
                    let a = self.addr(s, &pv)?;
                    let old = self.load(s, t, a)?;
                    let cv = self.get(s, c);
                    let eq = self.icmp(Pred::Eq, t.bits(), &old, &cv);
                    let ok = match eq {
                        V::C(x) => x != 0,
                        V::S(e) => self.decide(s, e)?,
                        _ => unreachable!(),
                    };
                    if ok {
                        let nv = self.get(s, n);
                        self.store(s, t, a, &nv)?;
                    }
                    self.set(s, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                    s.ip += 1;
                }
                I::Unreachable => return Err(End::Error("reached unreachable".into())),
                I::VGep => return Err(End::Error("vector gep".into())),
                I::Unsupported(m) => return Err(End::Error(format!("unsupported instruction: {}", m.chars().take(160).collect::<String>()))),
            }
        }
    }
    /// load through a symbolic address that ranges over a constant table
    fn table_load(&mut self, s: &mut State, t: &Ty, e: E) -> Res<Option<V>> {
        for (x, _) in &s.known {
            if *x == e {
                return Ok(None);
            }
        }
        // base + scale * idx with idx of few bits
        let (lo, hi) = self.ar.rng[e as usize];
        let sz = t.store_size() as u128;
        if hi - lo > 16384 || lo < IMG_BASE as u128 || hi >= MUT_BASE as u128 {
            return Ok(None);
        }
        if (hi - lo) / sz > 1100 {
            return Ok(None);
        }
        let n = self.ar.n[e as usize];
        // stride
        let mut stride = 1u128;
        if n.op == O::Add {
            let m = self.ar.n[n.a as usize];
            if m.op == O::Concat {
                if self.ar.k(m.b) == Some(0) {
                    stride = 1 << self.ar.w(m.b);
                }
            } else if m.op == O::Mul {
                if let Some(k) = self.ar.k(m.b) {
                    stride = k;
                }
            } else if m.op == O::ZExt {
                let m2 = self.ar.n[m.a as usize];
                if m2.op == O::Concat && self.ar.k(m2.b) == Some(0) {
                    stride = 1 << self.ar.w(m2.b);
                }
            }
        }
        let w = t.bits();
        let mut runs: Vec<(u128, u128)> = vec![]; // (last address, value)
        let mut a = lo;
        let end = (IMG_BASE as usize + self.prog.image.len()) as u128;
        while a <= hi {
            if a + sz > end {
                break;
            }
            let v = self.load_int(s, a as u64, w)?;
            let v = Self::conc(&v).unwrap();
            match runs.last_mut() {
                Some(l) if l.1 == v => l.0 = a,
                _ => runs.push((a, v)),
            }
            a += stride;
        }
        if runs.is_empty() {
            return Ok(None);
        }
        let mut r = self.ar.c(runs.last().unwrap().1, w);
        for (last, v) in runs.iter().rev().skip(1) {
            let k = self.ar.c(*last, 64);
            let c = self.ar.bin(O::Ule, e, k);
            let x = self.ar.c(*v, w);
            r = self.ar.ite(c, x, r);
        }
        Ok(Some(self.from_e(r)))
    }
    // ---------------------------------------------------------------- calls
    fn call(&mut self, s: &mut State, c: &CallI) -> Res<()> {
        let fid = match &c.callee {
            Callee::F(f) => *f,
            Callee::P(o) => {
                let v = self.get(s, o);
                let a = self.addr(s, &v)?;
                if a < FN_BASE || a >= HEAP_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.prog.fns.len() as u64 {
                    return Err(End::Error(format!("indirect call to {:#x}", a)));
                }
                ((a - FN_BASE) / 16) as u32
            }
            Callee::Asm(t) => {
                if t.contains("cpuid") || t.contains("xgetbv") {
                    let n = match &c.ret {
                        Ty::Struct(st) => st.f.len(),
                        _ => 1,
                    };
                    let v = V::A(Rc::new(vec![V::C(0); n]));
                    self.set(s, c.dst, v);
                    return self.after(s, c);
                }
                if t.contains("\"\"") {
                    // optimisation barrier
                    if c.dst != u32::MAX && !c.args.is_empty() {
                        let v = self.get(s, &c.args[0]);
                        self.set(s, c.dst, v);
                    }
                    return self.after(s, c);
                }
                return Err(End::Error(format!("inline asm {}", t)));
            }
        };
        let mut h = self.prog.fns[fid as usize].hook;
        if h == 0 {
            let fe = &self.prog.fns[fid as usize];
            h = hook_for(&fe.name, fe.range.1 == 0) as u16;
            self.prog.fns[fid as usize].hook = h;
        }
        if h == H_NONE {
            let args: Vec<V> = c.args.iter().map(|o| self.get(s, o)).collect();
            s.ip += 1;
            let n = match &c.normal {
                Some(e) => e as *const Edge,
                None => std::ptr::null(),
            };
            if args.len() > 0 && self.prog.func(fid).map_or(false, |f| f.vararg) {
                return self.enter_vararg(s, fid, c, args, n);
            }
            return self.enter(s, fid, args, c.dst, n);
        }
        let h: H = unsafe { std::mem::transmute(h) };
        let args: Vec<V> = c.args.iter().map(|o| self.get(s, o)).collect();
        match self.hook(s, h, fid, c, args)? {
            Some(v) => {
                self.set(s, c.dst, v);
                self.after(s, c)
            }
            None => Ok(()),
        }
    }
    fn after(&mut self, s: &mut State, c: &CallI) -> Res<()> {
        match &c.normal {
            Some(e) => self.jump(s, e),
            None => s.ip += 1,
        }
        Ok(())
    }
    fn bytes_eq(&mut self, a: &[V], b: &[V]) -> E {
        let mut r = self.ar.c(1, 1);
        for (x, y) in a.iter().zip(b) {
            let (x, y) = (self.to_e(x, 8), self.to_e(y, 8));
            let q = self.ar.bin(O::Eq, x, y);
            if self.ar.k(q) == Some(0) {
                return q;
            }
            r = self.ar.bin(O::And, r, q);
        }
        r
    }
    fn panic_msg(&mut self, s: &mut State, args: &[V]) -> String {
        // the caller location is the last pointer argument
        if let Some(V::C(a)) = args.last() {
            let r: Res<String> = (|| {
                let p = self.load_int(s, *a, 64)?;
                let n = self.load_int(s, *a + 8, 64)?;
                let l = self.load_int(s, *a + 16, 32)?;
                match (p, n, l) {
                    (V::C(p), V::C(n), V::C(l)) if n < 400 => Ok(format!("{}:{}", self.rd_str(s, p, n), l)),
                    _ => Ok("?".into()),
                }
            })();
            return r.unwrap_or("?".into());
        }
        "?".into()
    }
    fn hook(&mut self, s: &mut State, h: H, fid: u32, c: &CallI, a: Vec<V>) -> Res<Option<V>> {
        let z = V::C(0);
        Ok(Some(match h {
            H::Panic => {
                let m = self.panic_msg(s, &a);
                return Err(End::Panic(m));
            }
            H::AllocErr => return Err(End::Panic("allocation failure".into())),
            H::Trap => return Err(End::Panic("abort".into())),
            H::Nop => z,
            H::Alloc | H::AllocZ => {
                let n = self.cint(s, &a[0])?;
                let al = self.cint(s, &a[1])?;
                V::C(self.alloc(s, n, al)?)
            }
            H::Dealloc => {
                let p = self.cint(s, &a[0])?;
                let n = self.cint(s, &a[1])?;
                let al = self.cint(s, &a[2])?;
                if al <= 16 {
                    self.dealloc(s, p, n);
                }
                z
            }
            H::Realloc => {
                let p = self.cint(s, &a[0])?;
                let n = self.cint(s, &a[1])?;
                let al = self.cint(s, &a[2])?;
                let m = self.cint(s, &a[3])?;
                let q = self.alloc(s, m, al)?;
                self.copy(s, q, p, n.min(m))?;
                if al <= 16 {
                    self.dealloc(s, p, n);
                }
                V::C(q)
            }
            H::Malloc | H::Calloc => {
                let mut n = self.cint(s, &a[0])?;
                if h == H::Calloc {
                    n *= self.cint(s, &a[1])?;
                }
                let p = self.alloc(s, n, 16)?;
                Rc::make_mut(&mut s.sizes).insert(p, n);
                V::C(p)
            }
            H::Free => z,
            H::CRealloc => {
                let p = self.cint(s, &a[0])?;
                let n = self.cint(s, &a[1])?;
                let q = self.alloc(s, n, 16)?;
                let old = s.sizes.get(&p).copied().unwrap_or(0);
                Rc::make_mut(&mut s.sizes).insert(q, n);
                self.copy(s, q, p, old.min(n))?;
                V::C(q)
            }
            H::PosixMemalign => {
                let pp = self.cint(s, &a[0])?;
                let al = self.cint(s, &a[1])?;
                let n = self.cint(s, &a[2])?;
                let p = self.alloc(s, n, al)?;
                self.store_int(s, pp, 64, &V::C(p))?;
                z
            }
            H::Memcpy | H::Memmove => {
                let n = self.cint(s, &a[2])?;
                if n > 0 {
                    let d = self.cint(s, &a[0])?;
                    let r = self.cint(s, &a[1])?;
                    self.copy(s, d, r, n)?;
                }
                a[0].clone()
            }
            H::Memset => {
                let n = self.cint(s, &a[2])?;
                if n > 0 {
                    let d = self.cint(s, &a[0])?;
                    let b = match &a[1] {
                        V::C(x) => V::C(*x & 255),
                        V::S(e) => {
                            let x = self.ar.extract(*e, 0, 8);
                            self.from_e(x)
                        }
                        _ => return Err(End::Error("memset".into())),
                    };
                    match b {
                        V::C(x) => {
                            let mut i = 0;
                            while i < n {
                                let ad = d + i;
                                let o = (ad & 4095) as usize;
                                let k = ((4096 - o) as u64).min(n - i) as usize;
                                if ad < MUT_BASE || (s.mem.page(ad).is_none() && !self.fault_in(s, ad)) {
                                    return Err(End::Error(format!("wild write at {:#x}", ad)));
                                }
                                let p = s.mem.page_mut(ad).unwrap();
                                p.d[o..o + k].fill(x as u8);
                                if let Some(sh) = &mut p.s {
                                    sh[o..o + k].fill(0);
                                }
                                i += k as u64;
                            }
                        }
                        v => {
                            for i in 0..n {
                                self.store_int(s, d + i, 8, &v)?;
                            }
                        }
                    }
                }
                a[0].clone()
            }
            H::Bcmp => {
                let n = self.cint(s, &a[2])?;
                if n == 0 {
                    return Ok(Some(z));
                }
                let (p, q) = (self.cint(s, &a[0])?, self.cint(s, &a[1])?);
                let x = self.rd_bytes(s, p, n)?;
                let y = self.rd_bytes(s, q, n)?;
                let e = self.bytes_eq(&x, &y);
                let ne = self.ar.not(e);
                let r = self.ar.zext(ne, 32);
                self.from_e(r)
            }
            H::Memcmp => {
                let n = self.cint(s, &a[2])?;
                if n == 0 {
                    return Ok(Some(z));
                }
                let (p, q) = (self.cint(s, &a[0])?, self.cint(s, &a[1])?);
                let x = self.rd_bytes(s, p, n)?;
                let y = self.rd_bytes(s, q, n)?;
                let mut r = self.ar.c(0, 32);
                for i in (0..n as usize).rev() {
                    let (l, g) = (self.to_e(&x[i], 8), self.to_e(&y[i], 8));
                    let eq = self.ar.bin(O::Eq, l, g);
                    let lt = self.ar.bin(O::Ult, l, g);
                    let m1 = self.ar.c(u128::MAX, 32);
                    let p1 = self.ar.c(1, 32);
                    let d = self.ar.ite(lt, m1, p1);
                    r = self.ar.ite(eq, r, d);
                }
                self.from_e(r)
            }
            H::Strlen => {
                let p = self.cint(s, &a[0])?;
                let mut n = 0;
                loop {
                    let (b, e) = self.rd1(s, p + n)?;
                    if e != 0 {
                        let zz = self.ar.c(0, 8);
                        let q = self.ar.bin(O::Eq, e, zz);
                        if self.decide(s, q)? {
                            break;
                        }
                    } else if b == 0 {
                        break;
                    }
                    n += 1;
                }
                V::C(n)
            }
            H::Memchr => return Err(End::Error("memchr".into())),
            H::Ret0 => z,
            H::RetM1 => V::C(mask(c.ret.bits()) as u64),
            H::Write => a[2].clone(),
            H::GetRandom => {
                let p = self.cint(s, &a[0])?;
                let n = self.cint(s, &a[1])?;
                for i in 0..n {
                    self.wr1(s, p + i, (i as u8).wrapping_mul(37).wrapping_add(11), 0)?;
                }
                V::C(n)
            }
            H::Syscall => {
                let n = self.cint(s, &a[0])?;
                match n {
                    318 => {
                        let p = self.cint(s, &a[1])?;
                        let n = self.cint(s, &a[2])?;
                        for i in 0..n {
                            self.wr1(s, p + i, (i as u8).wrapping_mul(37).wrapping_add(11), 0)?;
                        }
                        V::C(n)
                    }
                    202 | 186 => z,
                    _ => return Err(End::Error(format!("syscall {}", n))),
                }
            }
            H::Errno => {
                let p = 0x1FFF_F000;
                s.mem.map(p >> 12, None);
                V::C(p)
            }
            H::ClockGettime => {
                let p = self.cint(s, &a[1])?;
                self.store_int(s, p, 64, &V::C(1_700_000_000))?;
                self.store_int(s, p + 8, 64, &V::C(0))?;
                z
            }
            H::Tls => a[0].clone(),
            H::Missing => return Err(End::Error(format!("external function {}", self.prog.fns[fid as usize].name))),
            H::Sqlite => {
                let n = self.prog.fns[fid as usize].name.clone();
                return self.sqlite(s, &n, &a).map(Some);
            }
            // ------------------------------------------------ hashing model
            H::SipReset => {
                let p = self.cint(s, &a[0])?;
                let b = self.rd_bytes(s, p, 72)?;
                let mut seed = vec![];
                for x in &b {
                    match x {
                        V::C(x) => seed.push(*x as u8),
                        _ => seed.push(0),
                    }
                }
                // the keys are the only non-zero words before the state is initialised
                let t = s.hashers.len() as u64;
                Rc::make_mut(&mut s.hashers).push(HashRec { seed, data: Rc::new(vec![]) });
                self.store_int(s, p, 64, &V::C(0x4841_5348_0000_0000 + t))?;
                z
            }
            H::SipWrite | H::SipWriteStr => {
                let p = self.cint(s, &a[0])?;
                let t = self.load_int(s, p, 64)?;
                let t = Self::conc(&t).unwrap() as u64;
                let d = self.cint(s, &a[1])?;
                let n = self.cint(s, &a[2])?;
                let mut b = self.rd_bytes(s, d, n)?;
                if h == H::SipWriteStr {
                    b.push(V::C(255));
                }
                let i = (t - 0x4841_5348_0000_0000) as usize;
                let hs = Rc::make_mut(&mut s.hashers);
                Rc::make_mut(&mut hs[i].data).extend(b);
                z
            }
            H::SipFinish => {
                let p = self.cint(s, &a[0])?;
                let t = self.load_int(s, p, 64)?;
                let i = (Self::conc(&t).unwrap() as u64).wrapping_sub(0x4841_5348_0000_0000) as usize;
                if i >= s.hashers.len() {
                    return Err(End::Error("hash of an untracked hasher".into()));
                }
                let rec = s.hashers[i].clone();
                let ki = match s.hkeys.iter().position(|x| x.0 == rec.seed) {
                    Some(k) => k,
                    None => {
                        Rc::make_mut(&mut s.hkeys).push((rec.seed.clone(), vec![]));
                        s.hkeys.len() - 1
                    }
                };
                let keys = s.hkeys.clone();
                for (k, hv) in &keys[ki].1 {
                    if k.len() != rec.data.len() {
                        continue;
                    }
                    let e = self.bytes_eq(k, &rec.data);
                    if self.ar.k(e) == Some(0) {
                        continue;
                    }
                    if self.decide(s, e)? {
                        return Ok(Some(V::C(*hv)));
                    }
                }
                let j = keys[ki].1.len() as u64;
                let hv = perm_slot(if s.order_map == 0 || s.order_map == ki as u64 + 1 { s.order } else { 0 }, j);
                Rc::make_mut(&mut s.hkeys)[ki].1.push((rec.data.clone(), hv));
                V::C(hv)
            }
            H::RegexNew => {
                // through the harness, which keeps what is compiled
                let memo = self.prog.gfn.get(&b"__memo_regex_new"[..]).copied().unwrap_or(fid);
                let to = if unsafe { (*s.f).fid } == memo { fid } else { memo };
                s.ip += 1;
                let nx = match &c.normal {
                    Some(e) => e as *const Edge,
                    None => std::ptr::null(),
                };
                self.enter(s, to, a, c.dst, nx)?;
                return Ok(None);
            }
            H::PhfHash => {
                // keys of static tables: one path per key, not one formula
                // through the hash function
                let p = self.cint(s, &a[1])?;
                let n = self.cint(s, &a[2])?;
                let mut b = self.rd_bytes(s, p, n)?;
                let mut any = false;
                for v in b.iter_mut() {
                    if let V::S(e) = *v {
                        *v = V::C(self.concretize(s, e)?);
                        any = true;
                    }
                }
                if any {
                    self.wr_bytes(s, p, &b)?;
                }
                s.ip += 1;
                let nx = match &c.normal {
                    Some(e) => e as *const Edge,
                    None => std::ptr::null(),
                };
                self.enter(s, fid, a, c.dst, nx)?;
                return Ok(None);
            }
            H::Digest => {
                let out = self.cint(s, &a[0])?;
                let p = self.cint(s, &a[1])?;
                let n = self.cint(s, &a[2])?;
                let b = self.rd_bytes(s, p, n)?;
                let known = s.digests.clone();
                for (k, d) in known.iter() {
                    if k.len() != b.len() {
                        continue;
                    }
                    let e = self.bytes_eq(k, &b);
                    if self.ar.k(e) == Some(0) {
                        continue;
                    }
                    if self.decide(s, e)? {
                        let v: Vec<V> = d.iter().map(|x| V::C(*x as u64)).collect();
                        self.wr_bytes(s, out, &v)?;
                        return Ok(Some(z));
                    }
                }
                // a fresh digest, different from every digest handed out before
                let mut x = 0x9E37_79B9_7F4A_7C15u64;
                for v in &b {
                    let k = match v {
                        V::C(c) => *c,
                        V::S(e) => 256 + *e as u64,
                        _ => 0,
                    };
                    x = (x ^ k).wrapping_mul(0x100_0000_01b3).rotate_left(23);
                }
                let mut d = [0u8; 32];
                for i in 0..32 {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    d[i] = (x >> 33) as u8;
                }
                d[0] = (d[0] & 0xf0) | ((known.len() as u8) & 0xf);
                d[31] = known.len() as u8;
                Rc::make_mut(&mut s.digests).push((Rc::new(b), d));
                let v: Vec<V> = d.iter().map(|x| V::C(*x as u64)).collect();
                self.wr_bytes(s, out, &v)?;
                z
            }
            // ------------------------------------------------ harness API
            H::SymBytes => {
                let p = self.cint(s, &a[0])?;
                let n = self.cint(s, &a[1])?;
                let np = self.cint(s, &a[2])?;
                let nn = self.cint(s, &a[3])?;
                let name = self.rd_str(s, np, nn);
                for i in 0..n {
                    let e = self.fresh(s, &format!("{}[{}]", name, i), 8, false);
                    self.wr1(s, p + i, 0, e)?;
                }
                z
            }
            H::SymChoice => {
                let n = self.cint(s, &a[0])?;
                let np = self.cint(s, &a[1])?;
                let nn = self.cint(s, &a[2])?;
                if n == 0 || n > 256 {
                    return Err(End::Error("choice".into()));
                }
                let name = self.rd_str(s, np, nn);
                let e = self.fresh(s, &name, 8, false);
                let lim = self.ar.c(n as u128, 8);
                if n < 256 {
                    let c = self.ar.bin(O::Ult, e, lim);
                    self.constrain(s, c, Some(vec![(s.nvars - 1, 0)]));
                }
                let c8 = |ex: &mut Ex, v: u64| ex.ar.c(v as u128, 8);
                s.ip += 1;
                for v in (1..n).rev() {
                    let mut t = s.clone();
                    let k = c8(self, v);
                    let q = self.ar.bin(O::Eq, e, k);
                    let ix = t.nvars - 1;
                    self.constrain(&mut t, q, Some(vec![(ix, v)]));
                    self.set(&mut t, c.dst, V::C(v));
                    self.push(t);
                }
                let k = c8(self, 0);
                let q = self.ar.bin(O::Eq, e, k);
                self.constrain(s, q, None);
                self.set(s, c.dst, z);
                return Ok(None);
            }
            H::SymAssume => {
                match &a[0] {
                    V::C(0) => return Err(End::Assumed),
                    V::C(_) => {}
                    V::S(e) => match self.feasible(s, *e) {
                        None => return Err(End::Assumed),
                        Some(m) => self.constrain(s, *e, m),
                    },
                    _ => return Err(End::Error("assume".into())),
                }
                z
            }
            H::SymCheck => {
                let mp = self.cint(s, &a[1])?;
                let mn = self.cint(s, &a[2])?;
                let msg = self.rd_str(s, mp, mn);
                self.st.checks += 1;
                match &a[0] {
                    V::C(0) => {
                        let m = s.model.clone();
                        self.violation(s, &m, "check", &msg);
                        return Err(End::Bad);
                    }
                    V::C(_) => {}
                    V::S(e) => {
                        self.st.checks_sym += 1;
                        let ne = self.ar.not(*e);
                        if let Some(m) = self.feasible(s, ne) {
                            let mut t = s.clone();
                            self.constrain(&mut t, ne, m);
                            let md = t.model.clone();
                            self.violation(&t, &md, "check", &msg);
                        }
                        match self.feasible(s, *e) {
                            None => return Err(End::Bad),
                            Some(m) => self.constrain(s, *e, m),
                        }
                    }
                    _ => return Err(End::Error("check".into())),
                }
                z
            }
            H::SymCover => {
                let mp = self.cint(s, &a[0])?;
                let mn = self.cint(s, &a[1])?;
                let msg = self.rd_str(s, mp, mn);
                Rc::make_mut(&mut s.covers).insert(msg);
                z
            }
            H::SymOrder => {
                let o = self.cint(s, &a[0])?;
                let m = self.cint(s, &a[1])?;
                s.order = o;
                s.order_map = m;
                z
            }
            H::SymPanicOk => {
                let x = self.cint(s, &a[0])?;
                s.panic_ok = x != 0;
                z
            }
            H::SymParam => {
                let mp = self.cint(s, &a[0])?;
                let mn = self.cint(s, &a[1])?;
                let d = self.cint(s, &a[2])?;
                let n = self.rd_str(s, mp, mn);
                V::C(self.params.get(&n).copied().unwrap_or(d))
            }
            H::SymKnown => {
                let mp = self.cint(s, &a[0])?;
                let mn = self.cint(s, &a[1])?;
                let m = self.rd_str(s, mp, mn);
                s.finding = Some(Rc::new(m));
                z
            }
            H::SymNote => {
                let mp = self.cint(s, &a[0])?;
                let mn = self.cint(s, &a[1])?;
                let m = self.rd_str(s, mp, mn);
                if self.trace {
                    eprintln!("note: {}", m);
                }
                z
            }
            H::Intr => {
                let n = self.prog.fns[fid as usize].name.clone();
                self.intrinsic(s, &n, c, &a)?
            }
            H::Log => {
                let x = self.cint(s, &a[0])?;
                V::C(f64::from_bits(x).ln().to_bits())
            }
            H::Unres | H::None => unreachable!(),
        }))
    }
    fn sqlite(&mut self, _s: &mut State, n: &str, _a: &[V]) -> Res<V> {
        Err(End::Error(format!("sqlite call {}", n)))
    }
    fn intrinsic(&mut self, s: &mut State, n: &str, c: &CallI, a: &[V]) -> Res<V> {
        let base = &n[5..];
        let t = c.ret.clone();
        // element-wise vectors
        if let Ty::Vec(et, k) = &t {
            let mut out = vec![];
            for i in 0..*k as usize {
                let la: Vec<V> = a
                    .iter()
                    .map(|x| match x {
                        V::A(l) => l[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                out.push(self.intr1(s, base, et, &c.tys, &la)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        self.intr1(s, base, &t, &c.tys, a)
    }
    fn intr1(&mut self, s: &mut State, n: &str, t: &Ty, tys: &[Ty], a: &[V]) -> Res<V> {
        let is = |p: &str| n.starts_with(p);
        if is("umax") || is("umin") || is("smax") || is("smin") {
            let w = t.bits();
            let p = match &n[..4] {
                "umax" => Pred::Ugt,
                "umin" => Pred::Ult,
                "smax" => Pred::Sgt,
                _ => Pred::Slt,
            };
            let c = self.icmp(p, w, &a[0], &a[1]);
            return self.select(t, &c, a[0].clone(), a[1].clone());
        }
        if is("uadd.with") || is("usub.with") || is("umul.with") || is("sadd.with") || is("ssub.with") || is("smul.with") {
            let w = tys[0].bits();
            let op = match &n[1..4] {
                "add" => O::Add,
                "sub" => O::Sub,
                _ => O::Mul,
            };
            let signed = n.starts_with('s');
            if let (Some(x), Some(y)) = (Self::conc(&a[0]), Self::conc(&a[1])) {
                if w <= 64 {
                    let r = Arena::concrete(op, w, x, y);
                    let o = if signed {
                        let (x, y) = (sext(x, w), sext(y, w));
                        let f = match op {
                            O::Add => x + y,
                            O::Sub => x - y,
                            _ => x * y,
                        };
                        f != sext(r, w)
                    } else {
                        match op {
                            O::Add => x + y > mask(w),
                            O::Sub => x < y,
                            _ => x * y > mask(w),
                        }
                    };
                    return Ok(V::A(Rc::new(vec![vw(r, w), V::C(o as u64)])));
                }
                // 128 bits
                let r = Arena::concrete(op, w, x, y);
                let o = if signed {
                    match op {
                        O::Add => (x as i128).checked_add(y as i128).is_none(),
                        O::Sub => (x as i128).checked_sub(y as i128).is_none(),
                        _ => (x as i128).checked_mul(y as i128).is_none(),
                    }
                } else {
                    match op {
                        O::Add => x.checked_add(y).is_none(),
                        O::Sub => x < y,
                        _ => x.checked_mul(y).is_none(),
                    }
                };
                return Ok(V::A(Rc::new(vec![vw(r, w), V::C(o as u64)])));
            }
            let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
            let r = self.ar.bin(op, x, y);
            let o = if op == O::Mul || signed {
                if w > 64 {
                    return Err(End::Error("wide overflow".into()));
                }
                let (x2, y2) = if signed {
                    (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w))
                } else {
                    (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w))
                };
                let full = self.ar.bin(op, x2, y2);
                let back = if signed { self.ar.sext(r, 2 * w) } else { self.ar.zext(r, 2 * w) };
                let e = self.ar.bin(O::Eq, full, back);
                self.ar.not(e)
            } else if op == O::Add {
                self.ar.bin(O::Ult, r, x)
            } else {
                self.ar.bin(O::Ult, x, y)
            };
            let (r, o) = (self.from_e(r), self.from_e(o));
            return Ok(V::A(Rc::new(vec![r, o])));
        }
        if is("uadd.sat") || is("usub.sat") || is("sadd.sat") || is("ssub.sat") {
            let w = t.bits();
            let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
            let r = if is("uadd") {
                let r = self.ar.bin(O::Add, x, y);
                let o = self.ar.bin(O::Ult, r, x);
                let m = self.ar.c(u128::MAX, w);
                self.ar.ite(o, m, r)
            } else if is("usub") {
                let r = self.ar.bin(O::Sub, x, y);
                let o = self.ar.bin(O::Ult, x, y);
                let m = self.ar.c(0, w);
                self.ar.ite(o, m, r)
            } else {
                // overflow: the sign of the exact result is that of x
                let add = is("sadd");
                let r = self.ar.bin(if add { O::Add } else { O::Sub }, x, y);
                let z = self.ar.c(0, w);
                let (nx, ny, nr) = (self.ar.bin(O::Slt, x, z), self.ar.bin(O::Slt, y, z), self.ar.bin(O::Slt, r, z));
                let d = self.ar.bin(O::Xor, nx, ny);
                let one = self.ar.c(1, 1);
                let could = if add { self.ar.bin(O::Xor, d, one) } else { d };
                let flip = self.ar.bin(O::Xor, nx, nr);
                let o = self.ar.bin(O::And, could, flip);
                let (lo, hi) = (self.ar.c(1u128 << (w - 1), w), self.ar.c((1u128 << (w - 1)) - 1, w));
                let m = self.ar.ite(nx, lo, hi);
                self.ar.ite(o, m, r)
            };
            return Ok(self.from_e(r));
        }
        if is("ucmp") || is("scmp") {
            let w = tys[0].bits();
            let (lt, gt) = if is("ucmp") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = self.icmp(lt, w, &a[0], &a[1]);
            let g = self.icmp(gt, w, &a[0], &a[1]);
            let rw = t.bits();
            let x = self.select(t, &g, V::C(1), V::C(0))?;
            return self.select(t, &l, vw(u128::MAX, rw), x);
        }
        if is("abs.") {
            let w = t.bits();
            let neg = self.icmp(Pred::Slt, w, &a[0], &vw(0, w));
            let m = self.bin(s, O::Sub, w, &vw(0, w), &a[0])?;
            return self.select(t, &neg, m, a[0].clone());
        }
        if is("ctpop") {
            let w = t.bits();
            if let Some(x) = Self::conc(&a[0]) {
                return Ok(vw(x.count_ones() as u128, w));
            }
            let e = self.to_e(&a[0], w);
            let mut r = self.ar.c(0, w);
            for i in 0..w {
                let b = self.ar.extract(e, i, 1);
                let b = self.ar.zext(b, w);
                r = self.ar.bin(O::Add, r, b);
            }
            return Ok(self.from_e(r));
        }
        if is("cttz") || is("ctlz") {
            let w = t.bits();
            if let Some(x) = Self::conc(&a[0]) {
                let r = if is("cttz") {
                    (x.trailing_zeros()).min(w)
                } else {
                    x.leading_zeros() - (128 - w)
                };
                return Ok(vw(r as u128, w));
            }
            let e = self.to_e(&a[0], w);
            let mut r = self.ar.c(w as u128, w);
            for j in 0..w {
                let i = if is("cttz") { w - 1 - j } else { j };
                let b = self.ar.extract(e, i, 1);
                let v = self.ar.c(if is("cttz") { i } else { w - 1 - i } as u128, w);
                r = self.ar.ite(b, v, r);
            }
            return Ok(self.from_e(r));
        }
        if is("bswap") {
            let w = t.bits();
            if let Some(x) = Self::conc(&a[0]) {
                return Ok(vw(x.swap_bytes() >> (128 - w), w));
            }
            let e = self.to_e(&a[0], w);
            let mut r: Option<E> = None;
            for i in 0..w / 8 {
                let b = self.ar.extract(e, i * 8, 8);
                r = Some(match r {
                    None => b,
                    Some(h) => self.ar.concat(h, b),
                });
            }
            return Ok(self.from_e(r.unwrap()));
        }
        if is("bitreverse") {
            let w = t.bits();
            let e = self.to_e(&a[0], w);
            let mut r: Option<E> = None;
            for i in 0..w {
                let b = self.ar.extract(e, i, 1);
                r = Some(match r {
                    None => b,
                    Some(h) => self.ar.concat(h, b),
                });
            }
            return Ok(self.from_e(r.unwrap()));
        }
        if is("fshl") || is("fshr") {
            let w = t.bits();
            let k = match &a[2] {
                V::S(e) => self.concretize(s, *e)? as u32 % w,
                o => (Self::conc(o).unwrap() % w as u128) as u32,
            };
            let k = if is("fshl") { k } else { (w - k) % w };
            if is("fshr") && k == 0 {
                return Ok(a[1].clone());
            }
            if k == 0 {
                return Ok(a[0].clone());
            }
            let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
            let h = self.ar.extract(x, 0, w - k);
            let l = self.ar.extract(y, w - k, k);
            let r = self.ar.concat(h, l);
            return Ok(self.from_e(r));
        }
        if is("expect") || is("launder") || is("strip.inv") || is("ssa.copy") {
            return Ok(a[0].clone());
        }
        if is("is.constant") {
            return Ok(V::C(0));
        }
        if is("objectsize") {
            return Ok(vw(u128::MAX, t.bits()));
        }
        if is("stacksave") {
            return Ok(V::C(s.sp));
        }
        if is("ptrmask") {
            return self.bin(s, O::And, 64, &a[0], &a[1]);
        }
        if is("vector.reduce") {
            let V::A(l) = &a[0] else { return Err(End::Error(n.into())) };
            let w = t.bits();
            let mut r = l[0].clone();
            let o = n["vector.reduce.".len()..].split('.').next().unwrap();
            for x in l.iter().skip(1) {
                r = match o {
                    "add" => self.bin(s, O::Add, w, &r, x)?,
                    "or" => self.bin(s, O::Or, w, &r, x)?,
                    "and" => self.bin(s, O::And, w, &r, x)?,
                    "xor" => self.bin(s, O::Xor, w, &r, x)?,
                    "mul" => self.bin(s, O::Mul, w, &r, x)?,
                    "umax" | "umin" => {
                        let c = self.icmp(if o == "umax" { Pred::Ugt } else { Pred::Ult }, w, &r, x);
                        self.select(t, &c, r.clone(), x.clone())?
                    }
                    _ => return Err(End::Error(format!("intrinsic {}", n))),
                };
            }
            return Ok(r);
        }
        if is("va_start") {
            let p = self.addr(s, &a[0])?;
            let f = unsafe { &*s.f };
            let area = s.regs[s.base + f.nregs as usize - 1].clone();
            self.store_int(s, p, 32, &V::C(48))?;
            self.store_int(s, p + 4, 32, &V::C(176))?;
            self.store_int(s, p + 8, 64, &area)?;
            self.store_int(s, p + 16, 64, &V::C(0))?;
            return Ok(V::C(0));
        }
        if is("va_copy") {
            let (d, q) = (self.addr(s, &a[0])?, self.addr(s, &a[1])?);
            for i in 0..3 {
                let v = self.load_int(s, q + 8 * i, 64)?;
                self.store_int(s, d + 8 * i, 64, &v)?;
            }
            return Ok(V::C(0));
        }
        if is("va_end") {
            return Ok(V::C(0));
        }
        if (is("fmuladd") || is("fma")) && *t == Ty::F64 {
            let (x, y, z) = (self.cint(s, &a[0])?, self.cint(s, &a[1])?, self.cint(s, &a[2])?);
            return Ok(V::C((f64::from_bits(x) * f64::from_bits(y) + f64::from_bits(z)).to_bits()));
        }
        if is("copysign") && *t == Ty::F64 {
            let (x, y) = (self.cint(s, &a[0])?, self.cint(s, &a[1])?);
            return Ok(V::C(f64::from_bits(x).copysign(f64::from_bits(y)).to_bits()));
        }
        if is("fabs") || is("floor") || is("ceil") || is("trunc") || is("round") || is("sqrt") || is("rint") {
            let x = self.cint(s, &a[0])?;
            let f = |y: f64| {
                if is("fabs") {
                    y.abs()
                } else if is("floor") {
                    y.floor()
                } else if is("ceil") {
                    y.ceil()
                } else if is("trunc") {
                    y.trunc()
                } else if is("sqrt") {
                    y.sqrt()
                } else {
                    y.round()
                }
            };
            return Ok(if *t == Ty::F32 {
                V::C((f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64)
            } else {
                V::C(f(f64::from_bits(x)).to_bits())
            });
        }
        if is("maximumnum") || is("minimumnum") || is("maxnum") || is("minnum") || is("maximum") || is("minimum") {
            let (x, y) = (self.cint(s, &a[0])?, self.cint(s, &a[1])?);
            let mx = n[5..].starts_with("max");
            return Ok(if *t == Ty::F32 {
                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                V::C((if mx { x.max(y) } else { x.min(y) }).to_bits() as u64)
            } else {
                let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                V::C((if mx { x.max(y) } else { x.min(y) }).to_bits())
            });
        }
        if is("fptoui.sat") || is("fptosi.sat") {
            let x = self.cint(s, &a[0])?;
            let y = if tys[0] == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
            let w = t.bits();
            return Ok(if is("fptoui") {
                vw((y as u128).min(mask(w)), w)
            } else {
                let hi = (1i128 << (w - 1)) - 1;
                vw((y as i128).clamp(-hi - 1, hi) as u128, w)
            });
        }
        Err(End::Error(format!("intrinsic llvm.{}", n)))
    }
    // ---------------------------------------------------------------- paths
    pub fn finish(&mut self, s: &State, e: End) {
        match e {
            End::Done => {
                self.st.paths += 1;
                if !s.covers.is_empty() && s.finding.is_none() {
                    let key = s.covers.iter().cloned().collect::<Vec<_>>().join("+");
                    let n = self.st.witnesses.get(&key).map_or(0, |v| v.len());
                    if n < 3 && (n == 0 || (self.st.paths & (self.st.paths - 1)) == 0) {
                        let inputs = s
                            .inputs
                            .iter()
                            .map(|i| {
                                let mut memo = HashMap::default();
                                (i.name.to_string(), i.w, self.ar.eval(i.e, &s.model, &mut memo) as u64, i.hidden)
                            })
                            .collect();
                        self.st.witnesses.entry(key).or_default().push(inputs);
                    }
                }
                for c in s.covers.iter() {
                    *self.st.covers.entry(c.clone()).or_insert(0) += 1;
                }
            }
            End::Bad => self.st.paths += 1,
            End::Assumed => {
                self.st.assumed += 1;
            }
            End::Panic(m) => {
                self.st.paths += 1;
                if s.panic_ok {
                    self.st.panics_ok += 1;
                } else {
                    let md = s.model.clone();
                    self.violation(s, &md, "panic", &m);
                }
            }
            End::Error(m) => {
                let bt = if self.trace { format!(" in {}", self.backtrace(s)) } else { String::new() };
                *self.st.errors.entry(format!("{}{}", m, bt)).or_insert(0) += 1;
            }
            End::Limit(m) => {
                let bt = if self.trace { format!(" in {}", self.backtrace(s)) } else { String::new() };
                if m == "step bound" {
                    let md = s.model.clone();
                    self.violation(s, &md, "limit", "step bound");
                }
                *self.st.limits.entry(m + &bt).or_insert(0) += 1;
            }
            End::Stop | End::Switched => {}
        }
    }
}

/// slot of the j-th key under permutation index o
pub fn perm_slot(o: u64, j: u64) -> u64 {
    const P: [[u64; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    if o < 6 {
        if j < 3 {
            return P[o as usize][j as usize];
        }
        // later keys: reversed within their group of four for odd permutations
        return if o == 5 { (j & !3) + 3 - (j & 3) + if j == 3 { 3 } else { 0 } } else { j };
    }
    j
}

/// readable path of a v0-mangled name
pub fn short_name(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.into();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[s..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if l > 0 && i + l <= b.len() {
                out.push(n[i..i + l].to_string());
                i += l;
                continue;
            }
        } else if b[i] == b's' || b[i] == b'B' || b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // disambiguator or backref: skip base-62 up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
