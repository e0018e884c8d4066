//! Lazy parser for textual LLVM IR modules.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    F128,
    Void,
    Meta,
    Struct(Rc<StructTy>),
    Arr(Rc<Ty>, u64),
    Vec(Rc<Ty>, u32),
}
#[derive(Debug, PartialEq)]
pub struct StructTy {
    pub f: Vec<Ty>,
    pub off: Vec<u64>,
    pub size: u64,
    pub align: u64,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::F128 => 128,
            Ty::Vec(t, n) => t.bits() * n,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F128 => 16,
            Ty::Struct(s) => s.align,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(..) => ((self.bits() as u64 + 7) / 8).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 | Ty::F128 | Ty::Vec(..) => {
                let s = (self.bits() as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Struct(s) => s.size,
            Ty::Arr(t, n) => t.size() * n,
            _ => 0,
        }
    }
    pub fn mk_struct(f: Vec<Ty>, packed: bool) -> Ty {
        let mut off = vec![];
        let mut o = 0u64;
        let mut al = 1;
        for t in &f {
            let a = if packed { 1 } else { t.align() };
            al = al.max(a);
            o = (o + a - 1) / a * a;
            off.push(o);
            o += t.size();
        }
        let size = (o + al - 1) / al * al;
        Ty::Struct(Rc::new(StructTy { f, off, size, align: al }))
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(_) | Ty::Arr(..))
    }
}

/// Runtime values.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpExt,
    FpTrunc,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Vec<(u32, Op)>,
}

#[derive(Debug)]
pub struct CallI {
    pub dst: u32, // u32::MAX when unused
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<Op>,
    pub tys: Vec<Ty>,
    pub normal: Option<Edge>,
}
#[derive(Debug)]
pub enum Callee {
    F(u32),
    P(Op),
    Asm(String),
}

#[derive(Debug)]
pub enum I {
    Bin(crate::expr::O, u32, u32, Op, Op), // op,width,dst,a,b
    VBin(crate::expr::O, Ty, u32, Op, Op),
    FBin(u8, Ty, u32, Op, Op),
    FNeg(Ty, u32, Op),
    ICmp(Pred, u32, u32, Op, Op),
    VICmp(Pred, Ty, u32, Op, Op),
    FCmp(String, Ty, u32, Op, Op),
    Cast(Cast, Ty, Ty, u32, Op),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>), // dst, base, const offset, (index, width, scale)
    VGep,
    Alloca(u32, u64, u64),
    AllocaDyn(u32, u64, Op),
    Select(Ty, u32, Op, Op, Op, bool), // last: vector condition
    Extract(u32, Op, Vec<u32>),
    Insert(Ty, u32, Op, Op, Vec<u32>),
    ExtractElem(u32, Op, Op),
    InsertElem(Ty, u32, Op, Op, Op),
    Shuffle(u32, Op, Op, u32, Vec<Option<u32>>),
    Call(Box<CallI>),
    Rmw(String, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Copy(u32, Op),
    Nop,
    Br(Edge),
    CBr(Op, Edge, Edge),
    Switch(u32, Op, Edge, Vec<(u128, Edge)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func {
    pub fid: u32,
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub vararg: bool, // the last register points to the variable arguments
    pub blocks: Vec<Vec<I>>,
    pub ninsts: usize,
}

pub struct FnEnt {
    pub name: String,
    pub module: usize,
    pub range: (usize, usize), // (0,0): external
    pub parsed: Option<Rc<Func>>,
    pub hook: u16,
    pub calls: u64,
    pub local: bool,
}

pub struct Gl {
    pub module: usize,
    pub range: (usize, usize),
    pub addr: u64,
    pub size: u64,
    pub name: String,
}

pub struct Module {
    pub text: &'static [u8],
    pub path: String,
    pub fns: HashMap<&'static [u8], u32>,
    pub gls: HashMap<&'static [u8], u32>,
    pub types: HashMap<&'static [u8], Ty>,
    pub aliases: HashMap<&'static [u8], &'static [u8]>,
}

pub struct Prog {
    pub mods: Vec<Module>,
    pub fns: Vec<FnEnt>,
    pub gls: Vec<Gl>,
    pub gfn: HashMap<&'static [u8], u32>,
    pub ggl: HashMap<&'static [u8], u32>,
    /// read-only image of constants
    pub image: Vec<u8>,
    /// mutable globals: address, bytes (page aligned)
    pub muts: HashMap<u64, Vec<u8>>, // page number -> 4096 bytes
    pub next_mut: u64,
    pub queue: Vec<u32>,
}

pub const IMG_BASE: u64 = 0x0010_0000;
pub const MUT_BASE: u64 = 0x1000_0000;
pub const FN_BASE: u64 = 0x2000_0000;
pub const HEAP_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0xC000_0000;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn find(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

impl Prog {
    pub fn new() -> Prog {
        Prog {
            mods: vec![],
            fns: vec![],
            gls: vec![],
            gfn: HashMap::new(),
            ggl: HashMap::new(),
            image: vec![0; 64],
            muts: HashMap::new(),
            next_mut: MUT_BASE,
            queue: vec![],
        }
    }
    pub fn load(&mut self, path: &str) -> std::io::Result<()> {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::open(path)?;
        let len = f.metadata()?.len() as usize;
        if len == 0 {
            return Ok(());
        }
        let text: &'static [u8] = unsafe {
            let p = mmap(std::ptr::null_mut(), len, 1, 2, f.as_raw_fd(), 0);
            std::slice::from_raw_parts(p, len)
        };
        let mi = self.mods.len();
        let mut m = Module {
            text,
            path: path.into(),
            fns: HashMap::new(),
            gls: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut i = 0;
        let mut tydefs = vec![];
        while i < len {
            let e = match text[i..].iter().position(|c| *c == b'\n') {
                Some(p) => i + p,
                None => len,
            };
            let line = &text[i..e];
            match line.first() {
                Some(b'd') if line.starts_with(b"define ") => {
                    // find the end of the body
                    let mut j = e + 1;
                    loop {
                        if text[j] == b'}' && (j + 1 >= len || text[j + 1] == b'\n') {
                            break;
                        }
                        j = j + text[j..].iter().position(|c| *c == b'\n').expect("unterminated function") + 1;
                    }
                    let at = line.iter().position(|c| *c == b'@').unwrap();
                    let (name, _) = sym(&text[i + at + 1..]);
                    let local = find(&line[..at], b" internal ") || find(&line[..at], b" private ");
                    let fid = self.fns.len() as u32;
                    self.fns.push(FnEnt {
                        name: String::from_utf8_lossy(name).into(),
                        module: mi,
                        range: (i, j + 1),
                        parsed: None,
                        hook: 0,
                        calls: 0,
                        local,
                    });
                    m.fns.insert(name, fid);
                    if !local {
                        self.gfn.entry(name).or_insert(fid);
                    }
                    i = j + 2;
                    continue;
                }
                Some(b'@') => {
                    let (name, n) = sym(&line[1..]);
                    let rest = &line[1 + n..];
                    let head = &rest[..rest.len().min(200)];
                    if find(head, b" alias ") {
                        // @x = alias ty, ptr @y
                        if let Some(p) = rest.iter().rposition(|c| *c == b'@') {
                            let (t, _) = sym(&rest[p + 1..]);
                            m.aliases.insert(name, t);
                            self.gfn.entry(name).or_insert(u32::MAX); // fixed up below
                        }
                    } else {
                        let ext = head.starts_with(b" = external") || head.starts_with(b" = extern_weak")
                            || head.starts_with(b" = available_externally");
                        if !ext {
                            let local = find(&head[..head.len().min(30)], b" internal ")
                                || find(&head[..head.len().min(30)], b" private ");
                            let gid = self.gls.len() as u32;
                            self.gls.push(Gl {
                                module: mi,
                                range: (i + 1 + n, e),
                                addr: 0,
                                size: 0,
                                name: String::from_utf8_lossy(name).into(),
                            });
                            m.gls.insert(name, gid);
                            if !local {
                                self.ggl.entry(name).or_insert(gid);
                            }
                        }
                    }
                }
                Some(b'%') => {
                    tydefs.push((i, e));
                }
                _ => {}
            }
            i = e + 1;
        }
        self.mods.push(m);
        // a definition may come before those it refers to
        while !tydefs.is_empty() {
          let mut later = vec![];
          let n = tydefs.len();
          for (s, e) in tydefs {
            let line = &text[s..e];
            let mut ps = Ps { prog: self, m: mi, t: line, p: 1, regs: HashMap::new(), nregs: 0, unres: false };
            let name = ps.name();
            ps.ws();
            ps.eat("=");
            ps.ws();
            ps.eat("type");
            ps.ws();
            if ps.t[ps.p..].starts_with(b"opaque") {
                continue;
            }
            let t = ps.ty();
            if ps.unres {
                later.push((s, e));
            } else {
                self.mods[mi].types.insert(name, t);
            }
          }
          if later.len() == n {
            break;
          }
          tydefs = later;
        }
        // aliases
        let al: Vec<_> = self.mods[mi].aliases.iter().map(|(a, b)| (*a, *b)).collect();
        for (a, b) in al {
            if let Some(f) = self.mods[mi].fns.get(b).copied() {
                self.mods[mi].fns.insert(a, f);
                let e = self.gfn.entry(a).or_insert(f);
                if *e == u32::MAX {
                    *e = f
                }
            } else if self.gfn.get(a) == Some(&u32::MAX) {
                self.gfn.remove(a);
            }
        }
        Ok(())
    }
    pub fn resolve_fn(&mut self, m: usize, name: &'static [u8]) -> Option<u32> {
        if let Some(f) = self.mods[m].fns.get(name) {
            return Some(*f);
        }
        if let Some(f) = self.gfn.get(name) {
            return Some(*f);
        }
        None
    }
    pub fn ext_fn(&mut self, name: &'static [u8]) -> u32 {
        let fid = self.fns.len() as u32;
        self.fns.push(FnEnt {
            name: String::from_utf8_lossy(name).into(),
            module: usize::MAX,
            range: (0, 0),
            parsed: None,
            hook: 0,
            calls: 0,
            local: false,
        });
        self.gfn.insert(name, fid);
        fid
    }
    /// address of a symbol (function or global)
    pub fn sym_addr(&mut self, m: usize, name: &'static [u8]) -> u64 {
        if let Some(f) = self.mods[m].fns.get(name) {
            return FN_BASE + *f as u64 * 16;
        }
        let g = self.mods[m].gls.get(name).copied().or_else(|| self.ggl.get(name).copied());
        if let Some(g) = g {
            return self.gl_addr(g);
        }
        if let Some(f) = self.gfn.get(name) {
            return FN_BASE + *f as u64 * 16;
        }
        let f = self.ext_fn(name);
        FN_BASE + f as u64 * 16
    }
    pub fn gl_addr(&mut self, g: u32) -> u64 {
        if self.gls[g as usize].addr != 0 {
            return self.gls[g as usize].addr;
        }
        let (mi, (s, e)) = (self.gls[g as usize].module, self.gls[g as usize].range);
        let text = self.mods[mi].text;
        let mut ps = Ps { prog: self, m: mi, t: &text[s..e], p: 0, regs: HashMap::new(), nregs: 0, unres: false };
        ps.ws();
        ps.eat("=");
        let mut is_const = false;
        loop {
            ps.ws();
            let w = ps.peek_word();
            match w {
                b"constant" => {
                    is_const = true;
                    ps.p += w.len();
                    break;
                }
                b"global" => {
                    ps.p += w.len();
                    break;
                }
                b"" => panic!("bad global {:?}", String::from_utf8_lossy(ps.t)),
                _ => {
                    ps.p += w.len();
                    if ps.t[ps.p] == b'(' {
                        ps.skip_parens();
                    }
                }
            }
        }
        ps.ws();
        let t = ps.ty();
        let size = t.size();
        let addr = if is_const {
            let al = t.align().max(16);
            let mut o = self.image.len() as u64;
            o = (o + al - 1) / al * al;
            self.image.resize((o + size.max(1)) as usize, 0);
            IMG_BASE + o
        } else {
            let a = self.next_mut;
            let pages = (size.max(1) + 4095) / 4096;
            self.next_mut += pages * 4096;
            for p in 0..pages {
                self.muts.insert(a / 4096 + p, vec![0; 4096]);
            }
            a
        };
        let gl = &mut self.gls[g as usize];
        gl.addr = addr;
        gl.size = size;
        self.queue.push(g);
        addr
    }
    /// materialise the initialisers of every referenced global
    pub fn drain(&mut self) {
        while let Some(g) = self.queue.pop() {
            let (mi, (s, e), addr) = {
                let gl = &self.gls[g as usize];
                (gl.module, gl.range, gl.addr)
            };
            let text = self.mods[mi].text;
            let mut ps = Ps { prog: self, m: mi, t: &text[s..e], p: 0, regs: HashMap::new(), nregs: 0, unres: false };
            loop {
                ps.ws();
                let w = ps.peek_word();
                if w.is_empty() {
                    ps.p += 1; // '='
                    continue;
                }
                ps.p += w.len();
                if ps.t[ps.p] == b'(' {
                    ps.skip_parens();
                }
                if w == b"constant" || w == b"global" {
                    break;
                }
            }
            ps.ws();
            let t = ps.ty();
            ps.ws();
            let mut out = vec![0u8; t.size() as usize];
            ps.const_bytes(&t, &mut out);
            if addr >= MUT_BASE {
                for (i, b) in out.iter().enumerate() {
                    let a = addr + i as u64;
                    self.muts.get_mut(&(a / 4096)).unwrap()[(a % 4096) as usize] = *b;
                }
            } else {
                let o = (addr - IMG_BASE) as usize;
                self.image[o..o + out.len()].copy_from_slice(&out);
            }
        }
    }
    pub fn func(&mut self, fid: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns[fid as usize].parsed {
            return Some(f.clone());
        }
        let (s, e) = self.fns[fid as usize].range;
        if e == 0 {
            return None;
        }
        let mi = self.fns[fid as usize].module;
        let text = self.mods[mi].text;
        // an instruction this executor does not know loses the path, not the run
        let f = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_func(self, mi, fid, &text[s..e]))) {
            Ok(f) => f,
            Err(_) => return None,
        };
        let f = Rc::new(f);
        self.fns[fid as usize].parsed = Some(f.clone());
        self.drain();
        Some(f)
    }
}

/// symbol name after '@' or '%': returns (name bytes, consumed)
fn sym(t: &'static [u8]) -> (&'static [u8], usize) {
    if t[0] == b'"' {
        let e = t[1..].iter().position(|c| *c == b'"').unwrap();
        (&t[1..1 + e], e + 2)
    } else {
        let e = t
            .iter()
            .position(|c| !(c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-')))
            .unwrap_or(t.len());
        (&t[..e], e)
    }
}

pub struct Ps<'a> {
    pub prog: &'a mut Prog,
    pub m: usize,
    pub t: &'static [u8],
    pub p: usize,
    pub regs: HashMap<&'static [u8], u32>,
    pub nregs: u32,
    pub unres: bool,
}

fn cst(v: u128, w: u32) -> V {
    let v = v & crate::expr::mask(w);
    if w <= 64 {
        V::C(v as u64)
    } else {
        V::W(Rc::new(v))
    }
}

impl<'a> Ps<'a> {
    fn ws(&mut self) {
        while self.p < self.t.len() && matches!(self.t[self.p], b' ' | b'\t') {
            self.p += 1;
        }
    }
    fn wsnl(&mut self) {
        while self.p < self.t.len() && matches!(self.t[self.p], b' ' | b'\t' | b'\n') {
            self.p += 1;
        }
    }
    fn ch(&self) -> u8 {
        *self.t.get(self.p).unwrap_or(&b'\n')
    }
    fn eat(&mut self, s: &str) {
        if !self.t[self.p..].starts_with(s.as_bytes()) {
            let l = &self.t[self.p.saturating_sub(80)..(self.p + 80).min(self.t.len())];
            panic!("expected {:?} at ...{}", s, String::from_utf8_lossy(l));
        }
        self.p += s.len();
    }
    fn try_eat(&mut self, s: &str) -> bool {
        if self.t[self.p..].starts_with(s.as_bytes()) {
            self.p += s.len();
            true
        } else {
            false
        }
    }
    fn comma(&mut self) {
        self.ws();
        self.eat(",");
        self.ws();
    }
    fn peek_word(&self) -> &'static [u8] {
        let s = &self.t[self.p..];
        let e = s
            .iter()
            .position(|c| !(c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.')))
            .unwrap_or(s.len());
        &s[..e]
    }
    fn name(&mut self) -> &'static [u8] {
        let (n, l) = sym(&self.t[self.p..]);
        self.p += l;
        n
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.t[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn is_ty_start(&self) -> bool {
        match self.ch() {
            b'{' | b'[' | b'<' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit())
            }
            _ => matches!(self.peek_word(), b"ptr" | b"void" | b"float" | b"double" | b"fp128" | b"metadata" | b"half"),
        }
    }
    fn num(&mut self) -> i128 {
        let s = self.p;
        if self.ch() == b'-' {
            self.p += 1;
        }
        while self.ch().is_ascii_digit() {
            self.p += 1;
        }
        std::str::from_utf8(&self.t[s..self.p]).unwrap().parse().expect("number")
    }
    pub fn ty(&mut self) -> Ty {
        match self.ch() {
            b'i' => {
                self.p += 1;
                Ty::Int(self.num() as u32)
            }
            b'{' => {
                self.p += 1;
                self.struct_ty(b'}', false)
            }
            b'<' => {
                if self.t[self.p + 1] == b'{' {
                    self.p += 2;
                    let t = self.struct_ty(b'}', true);
                    self.eat(">");
                    t
                } else {
                    self.p += 1;
                    self.ws();
                    let n = self.num() as u32;
                    self.eat(" x ");
                    let t = self.ty();
                    self.ws();
                    self.eat(">");
                    Ty::Vec(Rc::new(t), n)
                }
            }
            b'[' => {
                self.p += 1;
                let n = self.num() as u64;
                self.eat(" x ");
                let t = self.ty();
                self.eat("]");
                Ty::Arr(Rc::new(t), n)
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                match self.prog.mods[self.m].types.get(n) {
                    Some(t) => t.clone(),
                    None => {
                        self.unres = true;
                        Ty::Int(8)
                    }
                }
            }
            _ => {
                let w = self.peek_word();
                self.p += w.len();
                match w {
                    b"ptr" => {
                        if self.t[self.p..].starts_with(b" addrspace") {
                            self.p += 10;
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    b"void" => Ty::Void,
                    b"float" => Ty::F32,
                    b"double" => Ty::F64,
                    b"fp128" => Ty::F128,
                    b"half" => Ty::Int(16),
                    b"metadata" => Ty::Meta,
                    _ => {
                        let l = &self.t[self.p.saturating_sub(80)..(self.p + 80).min(self.t.len())];
                        panic!("type? {:?} at {}", String::from_utf8_lossy(w), String::from_utf8_lossy(l))
                    }
                }
            }
        }
    }
    fn struct_ty(&mut self, end: u8, packed: bool) -> Ty {
        let mut f = vec![];
        self.ws();
        while self.ch() != end {
            f.push(self.ty());
            self.ws();
            if self.ch() == b',' {
                self.p += 1;
                self.ws();
            }
        }
        self.p += 1;
        Ty::mk_struct(f, packed)
    }
    fn skip_attrs(&mut self) {
        // attributes before a type or value
        loop {
            self.ws();
            let w = self.peek_word();
            if w.is_empty() {
                if self.ch() == b'"' {
                    // string attribute
                    self.p += 1;
                    while self.ch() != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    continue;
                }
                return;
            }
            if self.ch().is_ascii_digit() || self.is_val_word(w) || self.is_ty_start() {
                return;
            }
            self.p += w.len();
            if w == b"align" {
                self.ws();
                if self.ch() != b'(' {
                    self.num();
                    continue;
                }
            }
            if self.ch() == b'(' {
                self.skip_parens();
            }
        }
    }
    fn is_val_word(&self, w: &[u8]) -> bool {
        matches!(
            w,
            b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"inttoptr"
                | b"ptrtoint" | b"bitcast" | b"splat" | b"asm" | b"none" | b"blockaddress"
        ) || (w == b"add" || w == b"sub" || w == b"xor" || w == b"trunc" || w == b"c") && !self.is_ty_start()
            || w.starts_with(b"0x")
            || w.starts_with(b"f0x")
            || w.starts_with(b"u0x")
    }
    fn reg(&mut self, n: &'static [u8]) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    pub fn val(&mut self, t: &Ty) -> Op {
        self.ws();
        match self.ch() {
            b'%' => {
                self.p += 1;
                let n = self.name();
                Op::R(self.reg(n))
            }
            _ => Op::K(self.konst(t)),
        }
    }
    fn typed_val(&mut self) -> (Ty, Op) {
        self.ws();
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(s) => V::A(Rc::new(s.f.iter().map(|x| self.zero(x)).collect())),
            Ty::Arr(x, n) => V::A(Rc::new((0..*n).map(|_| self.zero(x)).collect())),
            Ty::Vec(x, n) => V::A(Rc::new((0..*n).map(|_| self.zero(x)).collect())),
            Ty::Meta | Ty::Void => V::C(0),
            _ => cst(0, t.bits()),
        }
    }
    pub fn konst(&mut self, t: &Ty) -> V {
        self.ws();
        match self.ch() {
            b'@' => {
                self.p += 1;
                let n = self.name();
                return V::C(self.prog.sym_addr(self.m, n));
            }
            b'+' if matches!(t, Ty::F32 | Ty::F64) => return self.float(t),
            b'-' | b'0'..=b'9' => {
                if matches!(t, Ty::F32 | Ty::F64) {
                    return self.float(t);
                }
                let v = self.num();
                return cst(v as u128, t.bits());
            }
            b'{' | b'[' => {
                self.p += 1;
                return self.agg_elems(&[b'}', b']']);
            }
            b'<' => {
                self.p += 1;
                if self.ch() == b'{' {
                    self.p += 1;
                    let v = self.agg_elems(&[b'}']);
                    self.eat(">");
                    return v;
                }
                return self.agg_elems(&[b'>']);
            }
            b'!' => {
                // metadata operand
                while !matches!(self.ch(), b',' | b')' | b'\n') {
                    if self.ch() == b'(' {
                        self.skip_parens();
                    } else {
                        self.p += 1;
                    }
                }
                return V::C(0);
            }
            b'c' if self.t[self.p + 1] == b'"' => {
                self.p += 2;
                let mut out = vec![];
                while self.t[self.p] != b'"' {
                    if self.t[self.p] == b'\\' && self.t[self.p + 1] == b'\\' {
                        out.push(V::C(b'\\' as u64));
                        self.p += 2;
                    } else if self.t[self.p] == b'\\' {
                        let h = std::str::from_utf8(&self.t[self.p + 1..self.p + 3]).unwrap();
                        out.push(V::C(u8::from_str_radix(h, 16).unwrap() as u64));
                        self.p += 3;
                    } else {
                        out.push(V::C(self.t[self.p] as u64));
                        self.p += 1;
                    }
                }
                self.p += 1;
                return V::A(Rc::new(out));
            }
            _ => {}
        }
        let w = self.peek_word();
        self.p += w.len();
        match w {
            b"true" => V::C(1),
            b"false" | b"null" | b"none" => V::C(0),
            b"undef" | b"poison" | b"zeroinitializer" => self.zero(t),
            b"splat" => {
                self.ws();
                self.eat("(");
                let (_, v) = self.typed_val();
                self.ws();
                self.eat(")");
                let Op::K(v) = v else { panic!() };
                match t {
                    Ty::Vec(_, n) => V::A(Rc::new((0..*n).map(|_| v.clone()).collect())),
                    _ => v,
                }
            }
            b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"zext" | b"ptrtoaddr" => {
                self.ws();
                while self.ch() != b'(' {
                    let w = self.peek_word();
                    self.p += w.len();
                    self.ws();
                }
                self.eat("(");
                let (_, v) = self.typed_val();
                self.ws();
                self.eat("to");
                self.ws();
                let t2 = self.ty();
                self.ws();
                self.eat(")");
                match v {
                    Op::K(V::C(x)) => cst(x as u128, t2.bits()),
                    Op::K(o) => o,
                    _ => panic!(),
                }
            }
            b"add" | b"sub" | b"xor" | b"mul" => {
                self.ws();
                while self.ch() != b'(' {
                    let w = self.peek_word();
                    self.p += w.len();
                    self.ws();
                }
                self.eat("(");
                let (t1, a) = self.typed_val();
                self.comma();
                let (_, b) = self.typed_val();
                self.ws();
                self.eat(")");
                match (a, b) {
                    (Op::K(V::C(x)), Op::K(V::C(y))) => cst(
                        match w {
                            b"add" => x.wrapping_add(y),
                            b"sub" => x.wrapping_sub(y),
                            b"mul" => x.wrapping_mul(y),
                            _ => x ^ y,
                        } as u128,
                        t1.bits(),
                    ),
                    _ => panic!("const expr"),
                }
            }
            b"getelementptr" => {
                self.ws();
                while self.ch() != b'(' {
                    let w = self.peek_word();
                    self.p += w.len();
                    if w == b"inrange" {
                        self.skip_parens();
                    }
                    self.ws();
                }
                self.eat("(");
                let st = self.ty();
                self.comma();
                let (_, b) = self.typed_val();
                let Op::K(V::C(mut a)) = b else { panic!() };
                let mut cur = st;
                let mut first = true;
                loop {
                    self.ws();
                    if self.ch() == b')' {
                        self.p += 1;
                        break;
                    }
                    self.comma();
                    let (it, i) = self.typed_val();
                    let Op::K(V::C(i)) = i else { panic!() };
                    let i = crate::expr::sext(i as u128, it.bits()) as i64;
                    if first {
                        a = a.wrapping_add((i as i128 * cur.size() as i128) as u64);
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(s) => {
                                a = a.wrapping_add(s.off[i as usize]);
                                cur = s.f[i as usize].clone();
                            }
                            Ty::Arr(t, _) | Ty::Vec(t, _) => {
                                a = a.wrapping_add((i as i128 * t.size() as i128) as u64);
                                cur = (*t).clone();
                            }
                            _ => panic!(),
                        }
                    }
                }
                V::C(a)
            }
            b"nan" | b"qnan" | b"inf" if matches!(t, Ty::F32 | Ty::F64) => {
                self.p -= w.len();
                self.float(t)
            }
            _ if w.starts_with(b"0x") || w.starts_with(b"f0x") => {
                self.p -= w.len();
                self.float(t)
            }
            _ if w.starts_with(b"u0x") => {
                let v = u128::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap();
                cst(v, t.bits())
            }
            b"dso_local_equivalent" | b"no_cfi" => {
                self.ws();
                self.konst(t)
            }
            _ => {
                let l = &self.t[self.p.saturating_sub(100)..(self.p + 80).min(self.t.len())];
                panic!("constant? {:?} in {}", String::from_utf8_lossy(w), String::from_utf8_lossy(l))
            }
        }
    }
    fn float(&mut self, t: &Ty) -> V {
        let s = self.p;
        while !matches!(self.ch(), b',' | b' ' | b')' | b'\n' | b']' | b'}' | b'>') {
            self.p += 1;
        }
        let w = std::str::from_utf8(&self.t[s..self.p]).unwrap();
        let (hex, exact) = if let Some(h) = w.strip_prefix("f0x") {
            (Some(h), true)
        } else {
            (w.strip_prefix("0x"), false)
        };
        if let Some(h) = hex {
            let b = u64::from_str_radix(h, 16).expect("hex float");
            if *t == Ty::F32 && !exact {
                return V::C((f64::from_bits(b) as f32).to_bits() as u64);
            }
            return V::C(b);
        }
        let w = match w {
            "+inf" => "inf",
            "nan" | "qnan" | "+nan" | "+qnan" | "-nan" | "-qnan" => "NaN",
            o => o,
        };
        let f: f64 = w.parse().expect("float");
        if *t == Ty::F32 {
            V::C((f as f32).to_bits() as u64)
        } else {
            V::C(f.to_bits())
        }
    }
    fn agg_elems(&mut self, end: &[u8]) -> V {
        let mut out = vec![];
        self.ws();
        while !end.contains(&self.ch()) {
            let (_, v) = self.typed_val();
            match v {
                Op::K(v) => out.push(v),
                _ => panic!("register in constant"),
            }
            self.ws();
            if self.ch() == b',' {
                self.p += 1;
                self.ws();
            }
        }
        self.p += 1;
        V::A(Rc::new(out))
    }
    fn const_bytes(&mut self, t: &Ty, out: &mut [u8]) {
        // avoid building values for large byte arrays
        self.ws();
        let w = self.peek_word();
        if matches!(w, b"zeroinitializer" | b"undef" | b"poison") {
            self.p += w.len();
            return;
        }
        if let Ty::Arr(e, _) = t {
            if self.ch() == b'[' {
                self.p += 1;
                let es = e.size() as usize;
                let mut i = 0;
                self.ws();
                while self.ch() != b']' {
                    let et = self.ty();
                    self.ws();
                    self.const_bytes(&et, &mut out[i * es..(i + 1) * es]);
                    i += 1;
                    self.ws();
                    if self.ch() == b',' {
                        self.p += 1;
                        self.ws();
                    }
                }
                self.p += 1;
                return;
            }
        }
        if let Ty::Struct(s) = t {
            if self.ch() == b'{' || self.ch() == b'<' {
                let packed = self.ch() == b'<';
                self.p += if packed { 2 } else { 1 };
                self.ws();
                let mut i = 0;
                while self.ch() != b'}' {
                    let et = self.ty();
                    self.ws();
                    let o = s.off[i] as usize;
                    let n = et.size() as usize;
                    self.const_bytes(&et, &mut out[o..o + n]);
                    i += 1;
                    self.ws();
                    if self.ch() == b',' {
                        self.p += 1;
                        self.ws();
                    }
                }
                self.p += if packed { 2 } else { 1 };
                return;
            }
        }
        let v = self.konst(t);
        to_bytes(t, &v, out);
    }
    fn edge(&mut self, labels: &HashMap<&'static [u8], u32>) -> Edge {
        self.ws();
        self.eat("label");
        self.ws();
        self.eat("%");
        let n = self.name();
        Edge { to: *labels.get(n).unwrap_or_else(|| panic!("label {}", String::from_utf8_lossy(n))), copies: vec![] }
    }
}

pub fn to_bytes(t: &Ty, v: &V, out: &mut [u8]) {
    match (t, v) {
        (Ty::Struct(s), V::A(a)) => {
            for (i, f) in s.f.iter().enumerate() {
                let o = s.off[i] as usize;
                let n = f.size() as usize;
                to_bytes(f, &a[i], &mut out[o..o + n]);
            }
        }
        (Ty::Arr(e, _), V::A(a)) | (Ty::Vec(e, _), V::A(a)) => {
            let n = e.size() as usize;
            for (i, x) in a.iter().enumerate() {
                to_bytes(e, x, &mut out[i * n..(i + 1) * n]);
            }
        }
        (_, V::C(x)) => {
            let n = t.store_size() as usize;
            for i in 0..n {
                out[i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
            }
        }
        (_, V::W(x)) => {
            let n = t.store_size() as usize;
            for i in 0..n {
                out[i] = (**x >> (8 * i)) as u8;
            }
        }
        _ => panic!("to_bytes"),
    }
}

fn parse_func(prog: &mut Prog, m: usize, fid: u32, t: &'static [u8]) -> Func {
    let name = prog.fns[fid as usize].name.clone();
    let mut ps = Ps { prog, m, t, p: 0, regs: HashMap::new(), nregs: 0, unres: false };
    // header
    let at = t.iter().position(|c| *c == b'@').unwrap();
    ps.p = at + 1;
    ps.name();
    ps.eat("(");
    let mut nparams = 0u32;
    let mut vararg = false;
    let mut unnamed = 0;
    loop {
        ps.ws();
        if ps.ch() == b')' {
            ps.p += 1;
            break;
        }
        if ps.ch() == b',' {
            ps.p += 1;
            continue;
        }
        if ps.try_eat("...") {
            vararg = true;
            continue;
        }
        ps.ty();
        ps.skip_attrs();
        ps.ws();
        if ps.ch() == b'%' {
            ps.p += 1;
            let n = ps.name();
            if n.iter().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            ps.reg(n);
        } else {
            let s: &'static [u8] = Box::leak(format!("{}", unnamed).into_bytes().into_boxed_slice());
            unnamed += 1;
            ps.reg(s);
        }
        nparams += 1;
    }
    while ps.ch() != b'\n' {
        ps.p += 1;
    }
    ps.p += 1;
    let body = ps.p;
    // labels
    let mut labels: HashMap<&'static [u8], u32> = HashMap::new();
    let mut nb = 0u32;
    {
        let mut i = body;
        let mut first = true;
        while i < t.len() {
            let e = i + t[i..].iter().position(|c| *c == b'\n').unwrap_or(t.len() - i);
            let l = &t[i..e];
            i = e + 1;
            if l.is_empty() || l[0] == b';' || l[0] == b'}' {
                continue;
            }
            if l[0] == b' ' {
                if first {
                    let s: &'static [u8] = Box::leak(format!("{}", unnamed).into_bytes().into_boxed_slice());
                    labels.insert(s, 0);
                    nb = 1;
                    first = false;
                }
                continue;
            }
            let (n, c) = sym(l);
            if c > 0 && l.get(c) == Some(&b':') {
                labels.insert(n, nb);
                nb += 1;
                first = false;
            }
        }
    }
    let mut blocks: Vec<Vec<I>> = vec![];
    let mut phis: Vec<Vec<(u32, Vec<(u32, Op)>)>> = vec![];
    let mut cur: Vec<I> = vec![];
    let mut curphi = vec![];
    let mut started = false;
    let mut ninsts = 0;
    ps.p = body;
    while ps.p < t.len() {
        let ls = ps.p;
        let c = ps.ch();
        if c == b'\n' {
            ps.p += 1;
            continue;
        }
        if c == b'}' {
            break;
        }
        if c == b';' {
            while ps.ch() != b'\n' {
                ps.p += 1;
            }
            ps.p += 1;
            continue;
        }
        if c != b' ' {
            // label
            if started {
                blocks.push(std::mem::take(&mut cur));
                phis.push(std::mem::take(&mut curphi));
            }
            started = true;
            while ps.p < t.len() && ps.ch() != b'\n' {
                ps.p += 1;
            }
            ps.p += 1;
            continue;
        }
        started = true;
        ps.ws();
        ninsts += 1;
        let mut dst = u32::MAX;
        if ps.ch() == b'#' {
            // debug record
        } else {
            if ps.ch() == b'%' {
                ps.p += 1;
                let n = ps.name();
                dst = ps.reg(n);
                ps.ws();
                ps.eat("=");
                ps.ws();
            }
            if ps.peek_word() == b"phi" {
                ps.p += 3;
                loop {
                    ps.ws();
                    if ps.is_ty_start() {
                        break;
                    }
                    let w = ps.peek_word();
                    ps.p += w.len();
                }
                let ty = ps.ty();
                let mut inc = vec![];
                loop {
                    ps.ws();
                    if ps.ch() != b'[' {
                        break;
                    }
                    ps.p += 1;
                    let v = ps.val(&ty);
                    ps.comma();
                    ps.eat("%");
                    let n = ps.name();
                    let b = *labels.get(n).unwrap();
                    ps.ws();
                    ps.eat("]");
                    inc.push((b, v));
                    ps.ws();
                    if ps.ch() == b',' {
                        ps.p += 1;
                    }
                }
                curphi.push((dst, inc));
            } else {
                let i = parse_inst(&mut ps, dst, &labels);
                match i {
                    Ok(i) => cur.push(i),
                    Err(e) => {
                        let le = ls + t[ls..].iter().position(|c| *c == b'\n').unwrap();
                        cur.push(I::Unsupported(format!("{}: {}", e, String::from_utf8_lossy(&t[ls..le]))))
                    }
                }
            }
        }
        while ps.p < t.len() && ps.ch() != b'\n' {
            ps.p += 1;
        }
        ps.p += 1;
    }
    blocks.push(cur);
    phis.push(curphi);
    // phi copies on edges
    for b in 0..blocks.len() {
        for i in blocks[b].iter_mut() {
            let fix = |e: &mut Edge| {
                for (d, inc) in &phis[e.to as usize] {
                    let v = inc.iter().find(|(p, _)| *p == b as u32).map(|x| x.1.clone());
                    if let Some(v) = v {
                        e.copies.push((*d, v));
                    }
                }
            };
            match i {
                I::Br(e) => fix(e),
                I::CBr(_, a, b2) => {
                    fix(a);
                    fix(b2)
                }
                I::Switch(_, _, d, cs) => {
                    fix(d);
                    for (_, e) in cs.iter_mut() {
                        fix(e)
                    }
                }
                I::Call(c) => {
                    if let Some(e) = &mut c.normal {
                        fix(e)
                    }
                }
                _ => {}
            }
        }
    }
    let nregs = ps.nregs + vararg as u32;
    Func { fid, name, nregs, nparams, vararg, blocks, ninsts }
}

fn parse_inst(ps: &mut Ps, dst: u32, labels: &HashMap<&'static [u8], u32>) -> Result<I, String> {
    use crate::expr::O;
    let mut w = ps.peek_word();
    ps.p += w.len();
    ps.ws();
    while matches!(w, b"tail" | b"musttail" | b"notail") {
        w = ps.peek_word();
        ps.p += w.len();
        ps.ws();
    }
    let skip_flags = |ps: &mut Ps| loop {
        ps.ws();
        if ps.is_ty_start() {
            break;
        }
        let w = ps.peek_word();
        if w.is_empty() {
            break;
        }
        ps.p += w.len();
        if ps.ch() == b'(' {
            ps.skip_parens();
        }
    };
    Ok(match w {
        b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr"
        | b"ashr" => {
            let op = match w {
                b"add" => O::Add,
                b"sub" => O::Sub,
                b"mul" => O::Mul,
                b"udiv" => O::UDiv,
                b"sdiv" => O::SDiv,
                b"urem" => O::URem,
                b"srem" => O::SRem,
                b"and" => O::And,
                b"or" => O::Or,
                b"xor" => O::Xor,
                b"shl" => O::Shl,
                b"lshr" => O::LShr,
                _ => O::AShr,
            };
            skip_flags(ps);
            let t = ps.ty();
            let a = ps.val(&t);
            ps.comma();
            let b = ps.val(&t);
            match t {
                Ty::Vec(..) => I::VBin(op, t, dst, a, b),
                _ => I::Bin(op, t.bits(), dst, a, b),
            }
        }
        b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
            skip_flags(ps);
            let t = ps.ty();
            let a = ps.val(&t);
            ps.comma();
            let b = ps.val(&t);
            I::FBin(w[1], t, dst, a, b)
        }
        b"fneg" => {
            skip_flags(ps);
            let t = ps.ty();
            let a = ps.val(&t);
            I::FNeg(t, dst, a)
        }
        b"icmp" => {
            let mut pw = ps.peek_word();
            ps.p += pw.len();
            if pw == b"samesign" {
                ps.ws();
                pw = ps.peek_word();
                ps.p += pw.len();
            }
            let p = match pw {
                b"eq" => Pred::Eq,
                b"ne" => Pred::Ne,
                b"ugt" => Pred::Ugt,
                b"uge" => Pred::Uge,
                b"ult" => Pred::Ult,
                b"ule" => Pred::Ule,
                b"sgt" => Pred::Sgt,
                b"sge" => Pred::Sge,
                b"slt" => Pred::Slt,
                b"sle" => Pred::Sle,
                _ => return Err("icmp pred".into()),
            };
            ps.ws();
            let t = ps.ty();
            let a = ps.val(&t);
            ps.comma();
            let b = ps.val(&t);
            match t {
                Ty::Vec(..) => I::VICmp(p, t, dst, a, b),
                _ => I::ICmp(p, t.bits(), dst, a, b),
            }
        }
        b"fcmp" => {
            let mut pw;
            loop {
                pw = ps.peek_word();
                ps.p += pw.len();
                ps.ws();
                if ps.is_ty_start() {
                    break;
                }
            }
            let t = ps.ty();
            let a = ps.val(&t);
            ps.comma();
            let b = ps.val(&t);
            I::FCmp(String::from_utf8_lossy(pw).into(), t, dst, a, b)
        }
        b"trunc" | b"zext" | b"sext" | b"bitcast" | b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" | b"fpext" | b"fptrunc"
        | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"addrspacecast" => {
            skip_flags(ps);
            let t = ps.ty();
            let a = ps.val(&t);
            ps.ws();
            ps.eat("to");
            ps.ws();
            let t2 = ps.ty();
            let k = match w {
                b"trunc" => Cast::Trunc,
                b"zext" => Cast::ZExt,
                b"sext" => Cast::SExt,
                b"fpext" => Cast::FpExt,
                b"fptrunc" => Cast::FpTrunc,
                b"fptoui" => Cast::FpToUi,
                b"fptosi" => Cast::FpToSi,
                b"uitofp" => Cast::UiToFp,
                b"sitofp" => Cast::SiToFp,
                b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" => {
                    if t.bits() < t2.bits() {
                        Cast::ZExt
                    } else if t.bits() > t2.bits() {
                        Cast::Trunc
                    } else {
                        Cast::Bit
                    }
                }
                _ => Cast::Bit,
            };
            I::Cast(k, t, t2, dst, a)
        }
        b"load" => {
            skip_flags(ps);
            let t = ps.ty();
            ps.comma();
            let (_, p) = ps.typed_val();
            I::Load(t, dst, p)
        }
        b"store" => {
            skip_flags(ps);
            let (t, v) = ps.typed_val();
            ps.comma();
            let (_, p) = ps.typed_val();
            I::Store(t, v, p)
        }
        b"getelementptr" => {
            skip_flags(ps);
            let st = ps.ty();
            ps.comma();
            let (bt, base) = ps.typed_val();
            if matches!(bt, Ty::Vec(..)) {
                return Err("vector gep".into());
            }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = st;
            let mut first = true;
            loop {
                ps.ws();
                if ps.ch() != b',' {
                    break;
                }
                ps.p += 1;
                ps.ws();
                if !ps.is_ty_start() {
                    break;
                }
                let (it, i) = ps.typed_val();
                if matches!(it, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let scale;
                if first {
                    scale = cur.size() as i64;
                    first = false;
                } else {
                    match cur.clone() {
                        Ty::Struct(s) => {
                            let Op::K(V::C(k)) = i else { return Err("gep".into()) };
                            off += s.off[k as usize] as i64;
                            cur = s.f[k as usize].clone();
                            continue;
                        }
                        Ty::Arr(t, _) | Ty::Vec(t, _) => {
                            scale = t.size() as i64;
                            cur = (*t).clone();
                        }
                        _ => return Err("gep into scalar".into()),
                    }
                }
                match i {
                    Op::K(V::C(k)) => {
                        let k = crate::expr::sext(k as u128, it.bits()) as i64;
                        off = off.wrapping_add(k.wrapping_mul(scale));
                    }
                    o => idx.push((o, it.bits(), scale)),
                }
            }
            I::Gep(dst, base, off, idx)
        }
        b"alloca" => {
            if ps.peek_word() == b"inalloca" {
                ps.p += 8;
                ps.ws();
            }
            let t = ps.ty();
            let mut al = t.align();
            let mut cnt = None;
            loop {
                ps.ws();
                if ps.ch() != b',' {
                    break;
                }
                ps.p += 1;
                ps.ws();
                if ps.peek_word() == b"align" {
                    ps.p += 5;
                    ps.ws();
                    al = ps.num() as u64;
                } else if ps.is_ty_start() {
                    let (_, v) = ps.typed_val();
                    cnt = Some(v);
                } else {
                    break;
                }
            }
            match cnt {
                None => I::Alloca(dst, t.size(), al),
                Some(Op::K(V::C(n))) => I::Alloca(dst, t.size() * n, al),
                Some(v) => I::AllocaDyn(dst, t.size(), v),
            }
        }
        b"select" => {
            skip_flags(ps);
            let (ct, c) = ps.typed_val();
            ps.comma();
            let (t, a) = ps.typed_val();
            ps.comma();
            let (_, b) = ps.typed_val();
            I::Select(t, dst, c, a, b, matches!(ct, Ty::Vec(..)))
        }
        b"freeze" => {
            let (_, a) = ps.typed_val();
            I::Copy(dst, a)
        }
        b"extractvalue" => {
            let (_, a) = ps.typed_val();
            let mut ix = vec![];
            loop {
                ps.ws();
                if ps.ch() != b',' {
                    break;
                }
                ps.p += 1;
                ps.ws();
                if !ps.ch().is_ascii_digit() {
                    break;
                }
                ix.push(ps.num() as u32);
            }
            I::Extract(dst, a, ix)
        }
        b"insertvalue" => {
            let (t, a) = ps.typed_val();
            ps.comma();
            let (_, b) = ps.typed_val();
            let mut ix = vec![];
            loop {
                ps.ws();
                if ps.ch() != b',' {
                    break;
                }
                ps.p += 1;
                ps.ws();
                if !ps.ch().is_ascii_digit() {
                    break;
                }
                ix.push(ps.num() as u32);
            }
            I::Insert(t, dst, a, b, ix)
        }
        b"extractelement" => {
            let (_, a) = ps.typed_val();
            ps.comma();
            let (_, i) = ps.typed_val();
            I::ExtractElem(dst, a, i)
        }
        b"insertelement" => {
            let (t, a) = ps.typed_val();
            ps.comma();
            let (_, v) = ps.typed_val();
            ps.comma();
            let (_, i) = ps.typed_val();
            I::InsertElem(t, dst, a, v, i)
        }
        b"shufflevector" => {
            let (t, a) = ps.typed_val();
            ps.comma();
            let (_, b) = ps.typed_val();
            ps.comma();
            let mt = ps.ty();
            ps.ws();
            let Ty::Vec(_, n) = t else { return Err("shuffle".into()) };
            let Ty::Vec(_, mn) = mt.clone() else { return Err("shuffle".into()) };
            let mask: Vec<Option<u32>> = if ps.ch() == b'<' {
                ps.p += 1;
                let mut v = vec![];
                loop {
                    ps.ws();
                    if ps.ch() == b'>' {
                        break;
                    }
                    if ps.ch() == b',' {
                        ps.p += 1;
                        continue;
                    }
                    ps.ty();
                    ps.ws();
                    if ps.ch().is_ascii_digit() {
                        v.push(Some(ps.num() as u32));
                    } else {
                        let w = ps.peek_word();
                        ps.p += w.len();
                        v.push(None);
                    }
                }
                v
            } else {
                match ps.konst(&mt) {
                    V::A(a) => a
                        .iter()
                        .map(|x| match x {
                            V::C(k) => Some(*k as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => vec![Some(0); mn as usize],
                }
            };
            I::Shuffle(dst, a, b, n, mask)
        }
        b"atomicrmw" => {
            if ps.peek_word() == b"volatile" {
                ps.p += 8;
                ps.ws();
            }
            let op = ps.peek_word();
            ps.p += op.len();
            ps.ws();
            let (_, p) = ps.typed_val();
            ps.comma();
            let (t, v) = ps.typed_val();
            I::Rmw(String::from_utf8_lossy(op).into(), t, dst, p, v)
        }
        b"cmpxchg" => {
            loop {
                ps.ws();
                let w = ps.peek_word();
                if w == b"weak" || w == b"volatile" {
                    ps.p += w.len();
                } else {
                    break;
                }
            }
            let (_, p) = ps.typed_val();
            ps.comma();
            let (t, a) = ps.typed_val();
            ps.comma();
            let (_, b) = ps.typed_val();
            I::CmpXchg(t, dst, p, a, b)
        }
        b"fence" => I::Nop,
        b"unreachable" => I::Unreachable,
        b"resume" | b"landingpad" => I::Unsupported("unwinding".into()),
        b"ret" => {
            ps.ws();
            if ps.peek_word() == b"void" {
                I::Ret(None)
            } else {
                let (_, v) = ps.typed_val();
                I::Ret(Some(v))
            }
        }
        b"br" => {
            if ps.peek_word() == b"label" {
                I::Br(ps.edge(labels))
            } else {
                let (_, c) = ps.typed_val();
                ps.comma();
                let a = ps.edge(labels);
                ps.comma();
                let b = ps.edge(labels);
                I::CBr(c, a, b)
            }
        }
        b"switch" => {
            let (t, v) = ps.typed_val();
            ps.comma();
            let d = ps.edge(labels);
            ps.ws();
            ps.eat("[");
            let mut cs = vec![];
            loop {
                ps.wsnl();
                if ps.ch() == b']' {
                    break;
                }
                let (_, k) = ps.typed_val();
                ps.comma();
                let e = ps.edge(labels);
                let k = match k {
                    Op::K(V::C(k)) => k as u128,
                    Op::K(V::W(k)) => *k,
                    _ => return Err("switch".into()),
                };
                cs.push((k, e));
            }
            I::Switch(t.bits(), v, d, cs)
        }
        b"call" | b"invoke" => {
            // calling convention, attributes, type
            loop {
                ps.ws();
                if ps.is_ty_start() {
                    break;
                }
                let a = ps.peek_word();
                if a.is_empty() {
                    if ps.ch() == b'"' {
                        ps.p += 1;
                        while ps.ch() != b'"' {
                            ps.p += 1;
                        }
                        ps.p += 1;
                        continue;
                    }
                    return Err("call syntax".into());
                }
                ps.p += a.len();
                if a == b"align" {
                    ps.ws();
                    if ps.ch() != b'(' {
                        ps.num();
                        continue;
                    }
                }
                if ps.ch() == b'(' {
                    ps.skip_parens();
                }
            }
            let ret = ps.ty();
            ps.ws();
            if ps.ch() == b'(' {
                ps.skip_parens();
                ps.ws();
            }
            let callee = match ps.ch() {
                b'@' => {
                    ps.p += 1;
                    let n = ps.name();
                    match ps.prog.resolve_fn(ps.m, n) {
                        Some(f) => Callee::F(f),
                        None => Callee::F(ps.prog.ext_fn(n)),
                    }
                }
                b'%' => {
                    ps.p += 1;
                    let n = ps.name();
                    Callee::P(Op::R(ps.reg(n)))
                }
                _ => {
                    if ps.peek_word() == b"asm" {
                        let s = ps.p;
                        // up to the argument list: asm flags "..", ".."
                        let mut strs = 0;
                        while strs < 2 {
                            if ps.ch() == b'"' {
                                ps.p += 1;
                                while ps.ch() != b'"' {
                                    ps.p += 1;
                                }
                                strs += 1;
                            }
                            ps.p += 1;
                        }
                        Callee::Asm(String::from_utf8_lossy(&ps.t[s..ps.p]).into())
                    } else {
                        let t = Ty::Ptr;
                        let v = ps.konst(&t);
                        Callee::P(Op::K(v))
                    }
                }
            };
            ps.ws();
            ps.eat("(");
            let mut args = vec![];
            let mut tys = vec![];
            loop {
                ps.ws();
                if ps.ch() == b')' {
                    ps.p += 1;
                    break;
                }
                if ps.ch() == b',' {
                    ps.p += 1;
                    continue;
                }
                let t = ps.ty();
                ps.skip_attrs();
                let v = ps.val(&t);
                args.push(v);
                tys.push(t);
            }
            let mut normal = None;
            if w == b"invoke" {
                // "to label %x unwind label %y", usually on the next line
                let rest = &ps.t[ps.p..];
                let k = rest.windows(9).position(|x| x == b"to label ").ok_or("invoke")?;
                ps.p += k + 3;
                normal = Some(ps.edge(labels));
            }
            I::Call(Box::new(CallI { dst, ret, callee, args, tys, normal }))
        }
        _ => return Err(format!("opcode {}", String::from_utf8_lossy(w))),
    })
}
