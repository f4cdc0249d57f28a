//! Textual LLVM IR reader: indexes a module, lays out its globals in memory and
//! translates function bodies (lazily, on first call) into a register code.
use crate::interp::Engine;
use std::collections::HashMap;

pub type Ty = u32;
pub type Str = &'static [u8];

#[derive(Clone, Debug)]
pub enum TK { Void, Int(u32), F32, F64, Ptr, Arr(u64, Ty), Vec(u32, Ty), Struct(Vec<Ty>, bool), Meta, Opaque }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SK { I(u32), P, F32, F64 }
impl SK {
    pub fn w(self) -> u32 { match self { SK::I(w) => w, SK::P => 64, SK::F32 => 32, SK::F64 => 64 } }
}

pub struct TyInfo { pub k: TK, pub size: u64, pub align: u64, pub offs: Vec<u64>, pub slots: Option<std::rc::Rc<Vec<(u64, SK)>>>, pub nslots: u32 }

pub struct Types { pub v: Vec<TyInfo>, map: HashMap<String, Ty> }

fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Types {
    pub fn new() -> Self { Types { v: vec![], map: HashMap::new() } }
    pub fn add(&mut self, k: TK) -> Ty {
        let key = format!("{:?}", k);
        if let Some(&t) = self.map.get(&key) { return t; }
        let (mut offs, mut ns) = (vec![], 1u32);
        let (size, align) = match &k {
            TK::Void | TK::Meta | TK::Opaque => { ns = 0; (0, 1) }
            TK::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = b.next_power_of_two().min(16); (up(b, a), a) }
            TK::F32 => (4, 4),
            TK::F64 | TK::Ptr => (8, 8),
            TK::Arr(n, t) => { let i = &self.v[*t as usize]; ns = (*n as u32).saturating_mul(i.nslots); (up(i.size, i.align) * n, i.align) }
            TK::Vec(n, t) => {
                let i = &self.v[*t as usize];
                ns = *n;
                let bits = match i.k { TK::Int(w) => w as u64, TK::F32 => 32, _ => 64 } * *n as u64;
                let b = (bits + 7) / 8;
                (b, b.next_power_of_two())
            }
            TK::Struct(f, p) => {
                let (mut o, mut al) = (0, 1);
                ns = 0;
                for t in f {
                    let i = &self.v[*t as usize];
                    let a = if *p { 1 } else { i.align };
                    o = up(o, a);
                    offs.push(o);
                    o += i.size;
                    al = al.max(a);
                    ns += i.nslots;
                }
                (up(o, al), al)
            }
        };
        let id = self.v.len() as Ty;
        self.v.push(TyInfo { k, size, align, offs, slots: None, nslots: ns });
        self.map.insert(key, id);
        id
    }
    pub fn slots(&mut self, t: Ty) -> std::rc::Rc<Vec<(u64, SK)>> {
        if let Some(s) = &self.v[t as usize].slots { return s.clone(); }
        let mut out = vec![];
        self.flat(t, 0, &mut out);
        let r = std::rc::Rc::new(out);
        self.v[t as usize].slots = Some(r.clone());
        r
    }
    fn flat(&self, t: Ty, base: u64, out: &mut Vec<(u64, SK)>) {
        let i = &self.v[t as usize];
        match &i.k {
            TK::Int(w) => out.push((base, SK::I(*w))),
            TK::Ptr => out.push((base, SK::P)),
            TK::F32 => out.push((base, SK::F32)),
            TK::F64 => out.push((base, SK::F64)),
            TK::Arr(n, e) => { let s = { let x = &self.v[*e as usize]; up(x.size, x.align) }; for j in 0..*n { self.flat(*e, base + j * s, out); } }
            TK::Vec(n, e) => { let s = self.v[*e as usize].size; for j in 0..*n as u64 { self.flat(*e, base + j * s, out); } }
            TK::Struct(f, _) => for (j, e) in f.iter().enumerate() { self.flat(*e, base + i.offs[j], out); },
            _ => {}
        }
    }
    pub fn sk(&self, t: Ty) -> SK {
        match self.v[t as usize].k { TK::Int(w) => SK::I(w), TK::Ptr => SK::P, TK::F32 => SK::F32, TK::F64 => SK::F64, TK::Vec(_, e) => self.sk(e), _ => panic!("sk of aggregate {:?}", self.v[t as usize].k) }
    }
}

pub type Opnd = u32; // slot, or CONST|index
pub const CB: u32 = 0x8000_0000;

#[derive(Clone, Debug)]
pub struct Edge { pub to: u32, pub moves: u32 }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpTrunc, FpExt, UiToFp, SiToFp, FpToUi, FpToSi }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Native(u32), Intr(String, u32), Ind(Opnd), Asm(String), Missing(String) }

pub struct CallI { pub dst: u32, pub ret: Ty, pub callee: Callee, pub args: Vec<(Opnd, Ty)>, pub cif: Option<Box<crate::ffi::Cif>>, pub vararg: bool }

pub enum Inst {
    Bin(Bin, u32, Opnd, Opnd, u32, u32), // op dst a b width lanes
    ICmp(Pred, u32, Opnd, Opnd, u32, u32),
    FCmp(u8, u32, Opnd, Opnd, u32),
    FNeg(u32, Opnd, u32),
    Select(u32, Opnd, Opnd, Opnd, u32, bool, SK), // dst c a b nslots vector-cond
    Cast(Cast, u32, Opnd, SK, SK, u32),
    BitVec(u32, Opnd, u32, u32, u32, u32), // dst, src, src lanes, src w, dst lanes, dst w
    Load(u32, Opnd, Ty),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, i64)>),
    Alloca(u32, u64, u64, Option<Opnd>),
    Copy(u32, Opnd, u32),
    InsertVal(u32, Opnd, u32, Opnd, u32, u32), // dst agg n val at nv
    InsEl(u32, Opnd, u32, Opnd, Opnd),
    ExtEl(u32, Opnd, u32, Opnd),
    Shuffle(u32, Opnd, Opnd, u32, Vec<i32>),
    Rmw(u8, u32, Opnd, Opnd, Ty),
    CmpXchg(u32, Opnd, Opnd, Opnd, Ty),
    Call(Box<CallI>),
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(Opnd, u32, Edge, Vec<(u128, Edge)>),
    Ret(Opnd, u32),
    Unreach,
    Trap(&'static str),
}

pub struct Body { pub blocks: Vec<Vec<Inst>>, pub moves: Vec<Vec<(u32, Opnd, u32)>>, pub nslots: u32, pub consts: Vec<crate::interp::V> }
pub struct Func {
    pub name: Str,
    pub module: u32,
    pub pos: usize,
    pub idx: u32,
    pub hdr: Option<Hdr>,
    pub body: Option<Box<Body>>,
    pub addr: u64,
    pub hook: u32,
    pub ran: bool,
}
#[derive(Clone)]
pub struct Hdr { pub ret: Ty, pub params: Vec<(Str, Ty)>, pub body_pos: usize, pub nargs: u32 }

#[derive(Clone, Copy, Debug)]
pub enum Sym { Func(u32), Global(u64) }

pub struct Module { pub text: Str, pub syms: HashMap<Str, Sym>, pub types: HashMap<Str, Ty>, pub typetext: HashMap<Str, usize> }

pub struct Lex { pub t: Str, pub p: usize, pub module: u32 }

fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl Lex {
    pub fn ws(&mut self) {
        while self.p < self.t.len() {
            match self.t[self.p] {
                b' ' | b'\n' | b'\t' | b'\r' => self.p += 1,
                b';' => self.eol(),
                _ => break,
            }
        }
    }
    pub fn eol(&mut self) {
        while self.p < self.t.len() && self.t[self.p] != b'\n' { self.p += 1; }
    }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.p < self.t.len() { self.t[self.p] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    pub fn need(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected '{}'", c as char)); } }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(160);
        let b = (self.p + 100).min(self.t.len());
        crate::die(&format!("IR parse: {} near <<{}>>HERE<<{}>>", m, String::from_utf8_lossy(&self.t[a..self.p]), String::from_utf8_lossy(&self.t[self.p..b])));
    }
    pub fn word(&mut self) -> Str {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && isid(self.t[self.p]) { self.p += 1; }
        &self.t[s..self.p]
    }
    pub fn peekword(&mut self) -> Str { self.ws(); let p = self.p; let w = self.word(); self.p = p; w }
    pub fn eatw(&mut self, w: &[u8]) -> bool { let p = self.p; if self.word() == w { true } else { self.p = p; false } }
    /// after a sigil
    pub fn name(&mut self) -> Str {
        if self.t[self.p] == b'"' {
            let s = self.p + 1;
            self.p += 1;
            while self.t[self.p] != b'"' { self.p += 1; }
            self.p += 1;
            &self.t[s..self.p - 1]
        } else { let s = self.p; while isid(self.t[self.p]) { self.p += 1; } &self.t[s..self.p] }
    }
    pub fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.t[self.p] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.p += 1; return; } }
                b'"' => { self.p += 1; while self.t[self.p] != b'"' { self.p += 1; } }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn uint(&mut self) -> u64 { let w = self.word(); std::str::from_utf8(w).unwrap().parse().unwrap_or_else(|_| self.fail("uint")) }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'{' | b'<' | b'[' | b'%') { return true; }
        let w = self.peekword();
        matches!(w, b"ptr" | b"void" | b"float" | b"double" | b"half" | b"metadata" | b"opaque" | b"label" | b"token" | b"fp128" | b"x86_fp80" | b"bfloat") || (w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()))
    }
    /// skip attribute words up to a type
    pub fn skip_attrs_to_type(&mut self) {
        loop {
            if self.is_type_start() { return; }
            let c = self.peek();
            if c == b'#' { self.p += 1; self.word(); continue; }
            if c == b'"' { self.p += 1; self.name_str(); if self.eat(b'=') { self.need(b'"'); self.name_str(); } continue; }
            let w = self.word();
            if w.is_empty() { self.fail("attr/type"); }
            if self.p < self.t.len() && self.t[self.p] == b'(' { self.skip_parens(); } else if w == b"align" { self.word(); }
        }
    }
    fn name_str(&mut self) { while self.t[self.p] != b'"' { self.p += 1; } self.p += 1; }
    /// skip parameter attributes up to a value
    pub fn skip_attrs_to_val(&mut self) {
        loop {
            let c = self.peek();
            if matches!(c, b'%' | b'@' | b'{' | b'<' | b'[' | b'-' | b'+' | b'!' | b')' | b',') || c.is_ascii_digit() { return; }
            if c == b'"' { self.p += 1; self.name_str(); if self.eat(b'=') { self.need(b'"'); self.name_str(); } continue; }
            let w = self.peekword();
            if is_const_word(w) { return; }
            if w.is_empty() { self.fail("attr/val"); }
            self.word();
            if self.t[self.p] == b'(' { self.skip_parens(); } else if w == b"align" { self.word(); }
        }
    }
}
fn is_const_word(w: &[u8]) -> bool {
    matches!(w, b"null" | b"true" | b"false" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"ptrtoaddr" | b"sub" | b"add" | b"xor" | b"trunc" | b"bitcast" | b"splat" | b"none" | b"asm" | b"c" | b"inf" | b"nan" | b"qnan" | b"snan")
        || (w.len() > 1 && w[0] == b'f' && w[1] == b'0')
}

impl Engine {
    pub fn ty(&mut self, l: &mut Lex) -> Ty {
        let c = l.peek();
        let t = match c {
            b'{' => { l.p += 1; let f = self.tylist(l, b'}'); self.types.add(TK::Struct(f, false)) }
            b'[' => { l.p += 1; let n = l.uint(); l.eatw(b"x"); let e = self.ty(l); l.need(b']'); self.types.add(TK::Arr(n, e)) }
            b'<' => {
                l.p += 1;
                if l.peek() == b'{' { l.p += 1; let f = self.tylist(l, b'}'); l.need(b'>'); self.types.add(TK::Struct(f, true)) }
                else { let n = l.uint(); l.eatw(b"x"); let e = self.ty(l); l.need(b'>'); self.types.add(TK::Vec(n as u32, e)) }
            }
            b'%' => {
                l.p += 1;
                let n = l.name();
                let m = l.module as usize;
                if let Some(&t) = self.modules[m].types.get(n) { t } else {
                    let pos = *self.modules[m].typetext.get(n).unwrap_or_else(|| l.fail("named type"));
                    let mut l2 = Lex { t: l.t, p: pos, module: l.module };
                    let t = self.ty(&mut l2);
                    self.modules[m].types.insert(n, t);
                    t
                }
            }
            _ => {
                let w = l.word();
                match w {
                    b"ptr" => { if l.peek() == b'a' && l.peekword() == b"addrspace" { l.word(); l.skip_parens(); } self.types.add(TK::Ptr) }
                    b"void" => self.types.add(TK::Void),
                    b"float" => self.types.add(TK::F32),
                    b"double" => self.types.add(TK::F64),
                    b"metadata" | b"label" | b"token" => self.types.add(TK::Meta),
                    b"opaque" => self.types.add(TK::Opaque),
                    _ if w.len() > 1 && w[0] == b'i' => { let n: u32 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| l.fail("type")); self.types.add(TK::Int(n)) }
                    _ => l.fail("type"),
                }
            }
        };
        t
    }
    fn tylist(&mut self, l: &mut Lex, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if l.eat(end) { return v; }
        loop { v.push(self.ty(l)); if l.eat(b',') { continue; } l.need(end); return v; }
    }

    pub fn lookup(&mut self, module: u32, n: Str) -> Option<Sym> {
        if let Some(&s) = self.modules[module as usize].syms.get(n) { return Some(s); }
        if let Some(&s) = self.gsyms.get(n) { return Some(s); }
        None
    }

    /// address of a symbol (function addresses become native closures)
    pub fn sym_addr(&mut self, module: u32, n: Str) -> u64 {
        match self.lookup(module, n) {
            Some(Sym::Global(a)) => a,
            Some(Sym::Func(f)) => self.func_addr(f),
            None => {
                let a = crate::ffi::dlsym_bytes(n);
                if a == 0 {
                    // unresolved: give it a distinct dummy address
                    if let Some(&d) = self.dummies.get(n) { return d; }
                    let d = 0x7a00_0000_0000u64 + 64 * self.dummies.len() as u64;
                    self.dummies.insert(n, d);
                    return d;
                }
                a
            }
        }
    }

    /// parse a constant of type t, append its slots
    pub fn konst(&mut self, l: &mut Lex, t: Ty, out: &mut Vec<u128>) {
        let k = self.types.v[t as usize].k.clone();
        let ns = self.types.v[t as usize].nslots;
        let c = l.peek();
        if c == b'@' { l.p += 1; let n = l.name(); let a = self.sym_addr(l.module, n); out.push(a as u128); return; }
        if c.is_ascii_digit() || c == b'-' || c == b'+' {
            let s = l.p;
            if c == b'-' || c == b'+' { l.p += 1; }
            while isid(l.t[l.p]) || l.t[l.p] == b'+' { l.p += 1; }
            let txt = std::str::from_utf8(&l.t[s..l.p]).unwrap();
            out.push(match k {
                TK::Int(w) => { if let Some(h) = txt.strip_prefix("u0x").or(txt.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() } else if txt.starts_with('-') { (txt.parse::<i128>().unwrap_or_else(|_| l.fail("int const")) as u128) & crate::expr::mask(w) } else { txt.parse::<u128>().unwrap_or_else(|_| l.fail("int const")) & crate::expr::mask(w) } }
                TK::F64 | TK::F32 => fconst(txt, matches!(k, TK::F32)).unwrap_or_else(|| l.fail("float const")),
                _ => l.fail("number for non-scalar"),
            });
            return;
        }
        match (c, &k) {
            (b'c', TK::Arr(..)) if l.t[l.p + 1] == b'"' => {
                l.p += 2;
                loop {
                    let ch = l.t[l.p];
                    if ch == b'"' { l.p += 1; break; }
                    if ch == b'\\' && l.t[l.p + 1] == b'\\' { out.push(92); l.p += 2; } else if ch == b'\\' { let h = std::str::from_utf8(&l.t[l.p + 1..l.p + 3]).unwrap(); out.push(u8::from_str_radix(h, 16).unwrap() as u128); l.p += 3; } else { out.push(ch as u128); l.p += 1; }
                }
                return;
            }
            (b'<', TK::Struct(f, true)) => { l.p += 1; l.need(b'{'); self.konst_list(l, f.len(), b'}', out); l.need(b'>'); return; }
            (b'{', TK::Struct(f, _)) => { l.p += 1; self.konst_list(l, f.len(), b'}', out); return; }
            (b'[', TK::Arr(n, _)) => { l.p += 1; self.konst_list(l, *n as usize, b']', out); return; }
            (b'<', TK::Vec(n, _)) => { l.p += 1; self.konst_list(l, *n as usize, b'>', out); return; }
            _ => {}
        }
        let w = l.word();
        match w {
            b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" => for _ in 0..ns { out.push(0); },
            b"true" => out.push(1),
            b"false" => out.push(0),
            b"splat" => { l.need(b'('); let et = self.ty(l); let mut o = vec![]; self.konst(l, et, &mut o); l.need(b')'); for _ in 0..ns { out.push(o[0]); } }
            b"inttoptr" | b"ptrtoint" | b"ptrtoaddr" | b"bitcast" | b"trunc" => {
                l.need(b'(');
                let et = self.ty(l);
                let mut o = vec![];
                self.konst(l, et, &mut o);
                if !l.eatw(b"to") { l.fail("to"); }
                let tt = self.ty(l);
                l.need(b')');
                out.push(o[0] & crate::expr::mask(self.types.sk(tt).w()));
            }
            b"sub" | b"add" | b"xor" => {
                while l.peek() != b'(' { l.word(); }
                l.need(b'(');
                let (mut a, mut b) = (vec![], vec![]);
                let et = self.ty(l); self.konst(l, et, &mut a); l.need(b',');
                let et2 = self.ty(l); self.konst(l, et2, &mut b); l.need(b')');
                let m = crate::expr::mask(self.types.sk(et).w());
                out.push(m & match w { b"sub" => a[0].wrapping_sub(b[0]), b"add" => a[0].wrapping_add(b[0]), _ => a[0] ^ b[0] });
            }
            b"getelementptr" => {
                loop { if l.peek() == b'(' { break; } l.word(); if l.peek() == b'(' && { let q = l.p; let s = &l.t[q.saturating_sub(7)..q]; s == b"inrange" } { l.skip_parens(); } }
                l.need(b'(');
                let st = self.ty(l); l.need(b',');
                let pt = self.ty(l);
                let mut o = vec![];
                self.konst(l, pt, &mut o);
                let mut idx = vec![];
                while l.eat(b',') { let it = self.ty(l); let mut x = vec![]; self.konst(l, it, &mut x); idx.push(crate::expr::sext(x[0], self.types.sk(it).w()) as i64); }
                l.need(b')');
                let mut off = 0i64;
                let mut cur = st;
                for (n, i) in idx.iter().enumerate() {
                    if n == 0 { let x = &self.types.v[cur as usize]; off += i * up(x.size, x.align) as i64; continue; }
                    match self.types.v[cur as usize].k.clone() {
                        TK::Struct(f, _) => { off += self.types.v[cur as usize].offs[*i as usize] as i64; cur = f[*i as usize]; }
                        TK::Arr(_, e) | TK::Vec(_, e) => { let x = &self.types.v[e as usize]; off += i * up(x.size, x.align) as i64; cur = e; }
                        _ => l.fail("gep const"),
                    }
                }
                out.push((o[0] as u64).wrapping_add(off as u64) as u128);
            }
            b"inf" => out.push(if matches!(k, TK::F32) { f32::INFINITY.to_bits() as u128 } else { f64::INFINITY.to_bits() as u128 }),
            b"nan" | b"qnan" => out.push(if matches!(k, TK::F32) { 0x7fc00000 } else { 0x7ff8u128 << 48 }),
            _ if w.len() > 2 && w[0] == b'f' && w[1] == b'0' => { let h = std::str::from_utf8(&w[3..]).unwrap(); out.push(u128::from_str_radix(h, 16).unwrap_or_else(|_| l.fail("f0x"))); }
            _ => l.fail("constant"),
        }
    }
    fn konst_list(&mut self, l: &mut Lex, n: usize, end: u8, out: &mut Vec<u128>) {
        for i in 0..n {
            if i > 0 { l.need(b','); }
            let t = self.ty(l);
            self.konst(l, t, out);
        }
        l.need(end);
    }

    /// Load one .ll file: index functions, lay out and initialise globals.
    pub fn load_module(&mut self, text: Str) {
        let m = self.modules.len() as u32;
        self.modules.push(Module { text, syms: HashMap::new(), types: HashMap::new(), typetext: HashMap::new() });
        let mut p = 0;
        let mut inits: Vec<(usize, u64)> = vec![];
        while p < text.len() {
            let e = crate::ffi::memchr(text, p, b'\n');
            match text[p] {
                b'%' => {
                    let mut l = Lex { t: text, p: p + 1, module: m };
                    let n = l.name();
                    l.need(b'=');
                    if l.eatw(b"type") { l.ws(); let q = l.p; self.modules[m as usize].typetext.insert(n, q); }
                }
                b'@' => {
                    let mut l = Lex { t: text, p: p + 1, module: m };
                    let n = l.name();
                    l.need(b'=');
                    let (mut ext, mut local, mut cst) = (false, false, false);
                    let mut alias = false;
                    loop {
                        let w = l.word();
                        match w {
                            b"external" | b"extern_weak" => ext = true,
                            b"internal" | b"private" => local = true,
                            b"global" => break,
                            b"constant" => { cst = true; break; }
                            b"alias" => { alias = true; break; }
                            b"" => l.fail("global"),
                            _ => if l.t[l.p] == b'(' { l.skip_parens(); },
                        }
                    }
                    if alias {
                        let _ = self.ty(&mut l); l.need(b','); let _ = self.ty(&mut l); l.need(b'@');
                        let target = l.name();
                        self.aliases.push((m, n, target, local));
                    } else {
                        let t = self.ty(&mut l);
                        let (sz, al) = { let i = &self.types.v[t as usize]; (i.size, i.align) };
                        if ext {
                            // resolved through gsyms at use time or dlsym
                        } else if !local && self.gsyms.contains_key(n) {
                            // linkonce duplicate: first definition wins
                        } else {
                            // explicit alignment
                            let line = &text[l.p..e];
                            let mut a = al.max(8);
                            if let Some(q) = rfind(line, b", align ") { let s = std::str::from_utf8(&line[q + 8..]).unwrap_or(""); let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(v) = d.parse::<u64>() { a = a.max(v); } }
                            let addr = self.galloc(sz.max(1), a, cst);
                            if local { self.modules[m as usize].syms.insert(n, Sym::Global(addr)); } else { self.gsyms.insert(n, Sym::Global(addr)); }
                            l.ws();
                            inits.push((l.p, addr));
                            self.init_ty.insert(addr, (t, m));
                        }
                    }
                }
                b'd' if text[p..e].starts_with(b"define ") => {
                    let line = &text[p..e];
                    let at = line.iter().position(|&c| c == b'@').unwrap();
                    let mut l = Lex { t: text, p: p + at + 1, module: m };
                    let n = l.name();
                    let pre = &line[..at];
                    let local = find(pre, b" internal ").is_some() || find(pre, b" private ").is_some();
                    if local || !self.gsyms.contains_key(n) {
                        let idx = self.funcs.len() as u32;
                        let hook = crate::hooks::func_hook(n);
                        self.funcs.push(Box::leak(Box::new(Func { name: n, module: m, pos: p, idx, hdr: None, body: None, addr: 0, hook, ran: false })));
                        if local { self.modules[m as usize].syms.insert(n, Sym::Func(idx)); } else { self.gsyms.insert(n, Sym::Func(idx)); }
                    }
                    // skip the body
                    let q = find_from(text, e, b"\n}\n");
                    p = q + 3;
                    continue;
                }
                _ => {}
            }
            p = e + 1;
        }
        self.pending.extend(inits.into_iter().map(|(p, a)| (m, p, a)));
    }
    pub fn finish_load(&mut self) {
        let al = std::mem::take(&mut self.aliases);
        for (m, n, target, local) in al {
            if let Some(s) = self.lookup(m, target) { if local { self.modules[m as usize].syms.insert(n, s); } else { self.gsyms.entry(n).or_insert(s); } }
        }
        let inits = std::mem::take(&mut self.pending);
        let mut out = vec![];
        for (m, pos, addr) in inits {
            let (t, _) = self.init_ty[&addr];
            let mut l = Lex { t: self.modules[m as usize].text, p: pos, module: m };
            out.clear();
            if l.t[l.p..].starts_with(b"zeroinitializer") { continue; }
            // fast path for byte strings
            self.konst(&mut l, t, &mut out);
            let slots = if out.len() > 100000 { None } else { Some(self.types.slots(t)) };
            match slots {
                Some(s) => for (i, (off, k)) in s.iter().enumerate() { let n = (k.w() as usize + 7) / 8; unsafe { std::ptr::copy_nonoverlapping(out[i].to_le_bytes().as_ptr(), (addr + off) as *mut u8, n); } },
                None => { // large arrays of scalars
                    let e = match self.types.v[t as usize].k { TK::Arr(_, e) => e, TK::Struct(ref f, _) => match self.types.v[f[0] as usize].k { TK::Arr(_, e) => e, _ => panic!("large init") }, _ => panic!("large init") };
                    let sz = self.types.v[e as usize].size as usize;
                    for (i, v) in out.iter().enumerate() { unsafe { std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), (addr as usize + i * sz) as *mut u8, sz); } }
                }
            }
        }
        self.init_ty.clear();
        self.gobjs.sort();
    }

    pub fn header(&mut self, f: u32) -> Hdr {
        if let Some(h) = &self.funcs[f as usize].hdr { return h.clone(); }
        let (m, pos) = { let f = &self.funcs[f as usize]; (f.module, f.pos) };
        let mut l = Lex { t: self.modules[m as usize].text, p: pos + 7, module: m };
        l.skip_attrs_to_type();
        let ret = self.ty(&mut l);
        l.need(b'@');
        l.name();
        l.need(b'(');
        let mut params = vec![];
        let mut nargs = 0;
        if !l.eat(b')') {
            loop {
                if l.peek() == b'.' { l.p += 3; l.need(b')'); break; }
                let t = self.ty(&mut l);
                l.skip_attrs_to_val();
                let n = if l.eat(b'%') { l.name() } else { b"" };
                nargs += self.types.v[t as usize].nslots;
                params.push((n, t));
                if l.eat(b',') { continue; }
                l.need(b')');
                break;
            }
        }
        l.eol();
        let h = Hdr { ret, params, body_pos: l.p, nargs };
        self.funcs[f as usize].hdr = Some(h.clone());
        h
    }

    pub fn body(&mut self, f: u32) {
        if self.funcs[f as usize].body.is_some() { return; }
        let h = self.header(f);
        let m = self.funcs[f as usize].module;
        let l = Lex { t: self.modules[m as usize].text, p: h.body_pos, module: m };
        let mut b = BP { e: self, l, locals: HashMap::new(), nslots: 0, consts: vec![], labels: HashMap::new(), nblocks: 0, blocks: vec![], moves: vec![vec![]], phis: HashMap::new(), edges: vec![] };
        for (n, t) in &h.params { b.local(n, *t); }
        b.parse();
        let body = Body { blocks: std::mem::take(&mut b.blocks), moves: std::mem::take(&mut b.moves), nslots: b.nslots, consts: std::mem::take(&mut b.consts) };
        self.funcs[f as usize].body = Some(Box::new(body));
        self.newly.push(f);
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
fn rfind(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).rposition(|w| w == n) }
fn find_from(h: &[u8], from: usize, n: &[u8]) -> usize {
    let r = unsafe { crate::ffi::memmem(h.as_ptr().add(from), h.len() - from, n.as_ptr(), n.len()) };
    if r.is_null() { h.len() } else { r as usize - h.as_ptr() as usize }
}
fn fconst(t: &str, f32_: bool) -> Option<u128> {
    if let Some(h) = t.strip_prefix("0x") {
        let v = u64::from_str_radix(h, 16).ok()?;
        return Some(if f32_ { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 });
    }
    if let Some(h) = t.strip_prefix("f0x") { return u128::from_str_radix(h, 16).ok(); }
    let v: f64 = match t { "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+nan" | "+qnan" => f64::NAN, "-nan" | "-qnan" => -f64::NAN, _ => t.parse().ok()? };
    Some(if f32_ { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
}

struct BP<'a> {
    e: &'a mut Engine,
    l: Lex,
    locals: HashMap<Str, (u32, Ty)>,
    nslots: u32,
    consts: Vec<crate::interp::V>,
    labels: HashMap<Str, u32>,
    nblocks: u32,
    blocks: Vec<Vec<Inst>>,
    moves: Vec<Vec<(u32, Opnd, u32)>>,
    phis: HashMap<u32, Vec<(u32, u32, Vec<(u32, Opnd)>)>>, // block -> [(dst, n, [(pred, op)])]
    edges: Vec<(u32, u32, u32)>,                           // (from, to, moves idx)
}

impl<'a> BP<'a> {
    fn local(&mut self, n: Str, t: Ty) -> u32 {
        if let Some(&(s, _)) = self.locals.get(n) { return s; }
        let s = self.nslots;
        self.nslots += self.e.types.v[t as usize].nslots.max(1);
        self.locals.insert(n, (s, t));
        s
    }
    fn label(&mut self, n: Str) -> u32 {
        if let Some(&i) = self.labels.get(n) { return i; }
        let i = self.nblocks;
        self.nblocks += 1;
        self.labels.insert(n, i);
        i
    }
    fn ns(&self, t: Ty) -> u32 { self.e.types.v[t as usize].nslots }
    fn val(&mut self, t: Ty) -> Opnd {
        if self.l.peek() == b'%' { self.l.p += 1; let n = self.l.name(); return self.local(n, t); }
        let mut o = vec![];
        self.e.konst(&mut self.l, t, &mut o);
        let i = self.consts.len() as u32;
        for v in o { self.consts.push(crate::interp::V { c: v, e: 0 }); }
        if self.consts.len() as u32 == i { self.consts.push(crate::interp::V { c: 0, e: 0 }); }
        CB | i
    }
    fn tval(&mut self) -> (Opnd, Ty) { let t = self.e.ty(&mut self.l); let v = self.val(t); (v, t) }
    fn edge(&mut self, from: u32, to: u32) -> Edge {
        for &(f, t, m) in &self.edges { if f == from && t == to { return Edge { to, moves: m }; } }
        let m = self.moves.len() as u32;
        self.moves.push(vec![]);
        self.edges.push((from, to, m));
        Edge { to, moves: m }
    }
    fn lbl(&mut self) -> u32 { if !self.l.eatw(b"label") { self.l.fail("label"); } self.l.need(b'%'); let n = self.l.name(); self.label(n) }
    fn skip_flags(&mut self) {
        loop {
            let w = self.l.peekword();
            match w {
                b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"inbounds" | b"nusw" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"volatile" | b"atomic" | b"weak" => { self.l.word(); }
                _ => return,
            }
        }
    }
    fn lanes(&self, t: Ty) -> u32 { if let TK::Vec(n, _) = self.e.types.v[t as usize].k { n } else { 1 } }

    fn parse(&mut self) {
        let mut cur = u32::MAX;
        loop {
            let c = self.l.peek();
            if c == b'}' { break; }
            // label?
            let save = self.l.p;
            let lab = if c == b'"' { let n = self.l.name(); if self.l.t[self.l.p] == b':' { Some(n) } else { None } } else { let w = self.l.word(); if !w.is_empty() && self.l.t[self.l.p] == b':' { Some(w) } else { None } };
            if let Some(n) = lab {
                self.l.p += 1;
                cur = self.label(n);
                while self.blocks.len() <= cur as usize { self.blocks.push(vec![]); }
                self.l.eol();
                continue;
            }
            self.l.p = save;
            if cur == u32::MAX {
                // unnamed entry block: numbered after the parameters; referenced by phis as %N
                let n: &'static str = Box::leak(format!("{}", self.locals.keys().filter(|k| k.iter().all(|c| c.is_ascii_digit())).count()).into_boxed_str());
                cur = self.label(n.as_bytes());
                while self.blocks.len() <= cur as usize { self.blocks.push(vec![]); }
            }
            self.inst(cur);
            // look-ahead may already have moved to the start of the next line
            let mut q = self.l.p;
            while q > save && matches!(self.l.t[q - 1], b' ' | b'\t') { q -= 1; }
            if self.l.t[q - 1] != b'\n' || q <= save { self.l.eol(); }
        }
        while (self.blocks.len() as u32) < self.nblocks { self.blocks.push(vec![Inst::Trap("missing block")]); }
        // entry must be block 0
        let edges = self.edges.clone();
        for (from, to, m) in edges {
            if let Some(ps) = self.phis.get(&to) {
                let mut mv = vec![];
                for (dst, n, inc) in ps {
                    let (_, op) = inc.iter().find(|x| x.0 == from).unwrap_or_else(|| self.l.fail("phi edge"));
                    mv.push((*dst, *op, *n));
                }
                self.moves[m as usize] = mv;
            }
        }
    }

    fn push(&mut self, b: u32, i: Inst) { self.blocks[b as usize].push(i); }

    fn inst(&mut self, b: u32) {
        let mut dname: Option<Str> = None;
        if self.l.peek() == b'%' { self.l.p += 1; dname = Some(self.l.name()); self.l.need(b'='); }
        let mut op = self.l.word();
        if matches!(op, b"tail" | b"musttail" | b"notail") { op = self.l.word(); }
        macro_rules! dst { ($t:expr) => {{ let t = $t; match dname { Some(n) => self.local(n, t), None => { let s = self.nslots; self.nslots += self.ns(t).max(1); s } } }}; }
        match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.skip_flags();
                let t = self.e.ty(&mut self.l);
                let x = self.val(t);
                self.l.need(b',');
                let y = self.val(t);
                let k = match op { b"add" => Bin::Add, b"sub" => Bin::Sub, b"mul" => Bin::Mul, b"udiv" => Bin::UDiv, b"sdiv" => Bin::SDiv, b"urem" => Bin::URem, b"srem" => Bin::SRem, b"shl" => Bin::Shl, b"lshr" => Bin::LShr, b"ashr" => Bin::AShr, b"and" => Bin::And, b"or" => Bin::Or, b"xor" => Bin::Xor, b"fadd" => Bin::FAdd, b"fsub" => Bin::FSub, b"fmul" => Bin::FMul, b"fdiv" => Bin::FDiv, _ => Bin::FRem };
                let d = dst!(t);
                let w = self.e.types.sk(t).w();
                let n = self.lanes(t);
                self.push(b, Inst::Bin(k, d, x, y, w, n));
            }
            b"icmp" => {
                self.skip_flags();
                let p = match self.l.word() { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, _ => self.l.fail("pred") };
                let t = self.e.ty(&mut self.l);
                let x = self.val(t);
                self.l.need(b',');
                let y = self.val(t);
                let n = self.lanes(t);
                let i1 = self.e.types.add(TK::Int(1));
                let rt = if n > 1 { self.e.types.add(TK::Vec(n, i1)) } else { i1 };
                let d = dst!(rt);
                let w = self.e.types.sk(t).w();
                self.push(b, Inst::ICmp(p, d, x, y, w, n));
            }
            b"fcmp" => {
                self.skip_flags();
                // bits: 1=eq 2=gt 4=lt 8=uno
                let p = match self.l.word() { b"false" => 0, b"oeq" => 1, b"ogt" => 2, b"oge" => 3, b"olt" => 4, b"ole" => 5, b"one" => 6, b"ord" => 7, b"uno" => 8, b"ueq" => 9, b"ugt" => 10, b"uge" => 11, b"ult" => 12, b"ule" => 13, b"une" => 14, b"true" => 15, _ => self.l.fail("fpred") };
                let t = self.e.ty(&mut self.l);
                let x = self.val(t);
                self.l.need(b',');
                let y = self.val(t);
                let i1 = self.e.types.add(TK::Int(1));
                let d = dst!(i1);
                let w = self.e.types.sk(t).w();
                self.push(b, Inst::FCmp(p, d, x, y, w));
            }
            b"fneg" => { self.skip_flags(); let (x, t) = self.tval(); let d = dst!(t); let w = self.e.types.sk(t).w(); self.push(b, Inst::FNeg(d, x, w)); }
            b"select" => {
                self.skip_flags();
                let (c, ct) = self.tval();
                self.l.need(b',');
                let (x, t) = self.tval();
                self.l.need(b',');
                let (y, _) = self.tval();
                let d = dst!(t);
                let n = self.ns(t);
                let v = self.lanes(ct) > 1;
                let sk = match self.e.types.v[t as usize].k { TK::Struct(..) | TK::Arr(..) => SK::I(0), _ => self.e.types.sk(t) };
                self.push(b, Inst::Select(d, c, x, y, n, v, sk));
            }
            b"trunc" | b"zext" | b"sext" | b"bitcast" | b"ptrtoint" | b"ptrtoaddr" | b"inttoptr" | b"fptrunc" | b"fpext" | b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"addrspacecast" => {
                self.skip_flags();
                let (x, t) = self.tval();
                if !self.l.eatw(b"to") { self.l.fail("to"); }
                let tt = self.e.ty(&mut self.l);
                let d = dst!(tt);
                let (sk, dk) = (self.e.types.sk(t), self.e.types.sk(tt));
                let (n, m) = (self.lanes(t), self.lanes(tt));
                if op == b"bitcast" && (n > 1 || m > 1) { self.push(b, Inst::BitVec(d, x, n, sk.w(), m, dk.w())); return; }
                let k = match op { b"trunc" => Cast::Trunc, b"zext" => Cast::ZExt, b"sext" => Cast::SExt, b"bitcast" => Cast::Bit, b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" | b"addrspacecast" => if dk.w() < sk.w() { Cast::Trunc } else { Cast::ZExt }, b"fptrunc" => Cast::FpTrunc, b"fpext" => Cast::FpExt, b"uitofp" => Cast::UiToFp, b"sitofp" => Cast::SiToFp, b"fptoui" => Cast::FpToUi, _ => Cast::FpToSi };
                self.push(b, Inst::Cast(k, d, x, sk, dk, n));
            }
            b"load" => {
                self.skip_flags();
                let t = self.e.ty(&mut self.l);
                self.l.need(b',');
                let (p, _) = self.tval();
                let d = dst!(t);
                self.push(b, Inst::Load(d, p, t));
            }
            b"store" => {
                self.skip_flags();
                let (v, t) = self.tval();
                self.l.need(b',');
                let (p, _) = self.tval();
                self.push(b, Inst::Store(t, v, p));
            }
            b"getelementptr" => {
                self.skip_flags();
                if self.l.peekword() == b"inrange" { self.l.word(); self.l.skip_parens(); }
                let st = self.e.ty(&mut self.l);
                self.l.need(b',');
                let (p, pt) = self.tval();
                let (mut off, mut dynv) = (0i64, vec![]);
                let mut cur = st;
                let mut first = true;
                while self.l.eat(b',') {
                    if self.l.peek() == b'!' { break; }
                    let (x, it) = self.tval();
                    let w = self.e.types.sk(it).w();
                    let cv = if x & CB != 0 { Some(crate::expr::sext(self.consts[(x & !CB) as usize].c, w) as i64) } else { None };
                    let scale;
                    if first { let i = &self.e.types.v[cur as usize]; scale = up(i.size, i.align) as i64; first = false; } else {
                        match self.e.types.v[cur as usize].k.clone() {
                            TK::Struct(f, _) => { let i = cv.unwrap() as usize; off += self.e.types.v[cur as usize].offs[i] as i64; cur = f[i]; continue; }
                            TK::Arr(_, e) | TK::Vec(_, e) => { let i = &self.e.types.v[e as usize]; scale = up(i.size, i.align) as i64; cur = e; }
                            _ => self.l.fail("gep"),
                        }
                    }
                    match cv { Some(v) => off = off.wrapping_add(v.wrapping_mul(scale)), None => dynv.push((x, w, scale)) }
                }
                let d = dst!(pt);
                self.push(b, Inst::Gep(d, p, off, dynv));
            }
            b"alloca" => {
                let t = self.e.ty(&mut self.l);
                let i = &self.e.types.v[t as usize];
                let (sz, mut al) = (i.size, i.align.max(8));
                let mut cnt = None;
                while self.l.eat(b',') {
                    if self.l.peek() == b'!' { break; }
                    if self.l.eatw(b"align") { al = al.max(self.l.uint()); } else { let (x, _) = self.tval(); cnt = Some(x); }
                }
                let pt = self.e.types.add(TK::Ptr);
                let d = dst!(pt);
                self.push(b, Inst::Alloca(d, sz, al, cnt));
            }
            b"phi" => {
                self.skip_flags();
                let t = self.e.ty(&mut self.l);
                let d = dst!(t);
                let n = self.ns(t);
                let mut inc = vec![];
                loop {
                    self.l.need(b'[');
                    let v = self.val(t);
                    self.l.need(b',');
                    self.l.need(b'%');
                    let nm = self.l.name();
                    let p = self.label(nm);
                    self.l.need(b']');
                    inc.push((p, v));
                    let s = self.l.p;
                    if self.l.eat(b',') { if self.l.peek() == b'[' { continue; } self.l.p = s; }
                    break;
                }
                self.phis.entry(b).or_default().push((d, n, inc));
            }
            b"br" => {
                if self.l.peekword() == b"label" { let t = self.lbl(); let e = self.edge(b, t); self.push(b, Inst::Br(e)); } else {
                    let (c, _) = self.tval();
                    self.l.need(b',');
                    let x = self.lbl();
                    self.l.need(b',');
                    let y = self.lbl();
                    let (ex, ey) = (self.edge(b, x), self.edge(b, y));
                    self.push(b, Inst::CondBr(c, ex, ey));
                }
            }
            b"switch" => {
                let (x, t) = self.tval();
                let w = self.e.types.sk(t).w();
                self.l.need(b',');
                let d = self.lbl();
                let de = self.edge(b, d);
                self.l.need(b'[');
                let mut cs = vec![];
                while !self.l.eat(b']') {
                    let ct = self.e.ty(&mut self.l);
                    let mut o = vec![];
                    self.e.konst(&mut self.l, ct, &mut o);
                    self.l.need(b',');
                    let tl = self.lbl();
                    let te = self.edge(b, tl);
                    cs.push((o[0], te));
                }
                self.push(b, Inst::Switch(x, w, de, cs));
            }
            b"ret" => { let t = self.e.ty(&mut self.l); if self.ns(t) == 0 { self.push(b, Inst::Ret(0, 0)); } else { let v = self.val(t); let n = self.ns(t); self.push(b, Inst::Ret(v, n)); } }
            b"unreachable" => self.push(b, Inst::Unreach),
            b"resume" => self.push(b, Inst::Trap("resume")),
            b"landingpad" => {
                let t = self.e.ty(&mut self.l);
                dst!(t);
                self.push(b, Inst::Trap("landingpad"));
                self.l.eol();
                loop { let s = self.l.p; let w = self.l.word(); match w { b"cleanup" => {} b"catch" | b"filter" => self.l.eol(), _ => { self.l.p = s; break; } } }
            }
            b"extractvalue" => {
                let (x, t) = self.tval();
                let (off, rt) = self.path(t);
                let d = dst!(rt);
                let n = self.ns(rt);
                self.push(b, Inst::Copy(d, x + off, n));
            }
            b"insertvalue" => {
                let (x, t) = self.tval();
                self.l.need(b',');
                let (v, vt) = self.tval();
                let (off, _) = self.path(t);
                let d = dst!(t);
                let (n, nv) = (self.ns(t), self.ns(vt));
                self.push(b, Inst::InsertVal(d, x, n, v, off, nv));
            }
            b"insertelement" => {
                let (x, t) = self.tval(); self.l.need(b',');
                let (v, _) = self.tval(); self.l.need(b',');
                let (i, _) = self.tval();
                let d = dst!(t);
                let n = self.ns(t);
                self.push(b, Inst::InsEl(d, x, n, v, i));
            }
            b"extractelement" => {
                let (x, t) = self.tval(); self.l.need(b',');
                let (i, _) = self.tval();
                let et = if let TK::Vec(_, e) = self.e.types.v[t as usize].k { e } else { self.l.fail("extractelement") };
                let d = dst!(et);
                let n = self.ns(t);
                self.push(b, Inst::ExtEl(d, x, n, i));
            }
            b"shufflevector" => {
                let (x, t) = self.tval(); self.l.need(b',');
                let (y, _) = self.tval(); self.l.need(b',');
                let mt = self.e.ty(&mut self.l);
                let mut o = vec![];
                self.e.konst(&mut self.l, mt, &mut o);
                let et = if let TK::Vec(_, e) = self.e.types.v[t as usize].k { e } else { self.l.fail("shuffle") };
                let rt = self.e.types.add(TK::Vec(o.len() as u32, et));
                let d = dst!(rt);
                let n = self.ns(t);
                self.push(b, Inst::Shuffle(d, x, y, n, o.iter().map(|v| *v as i32).collect()));
            }
            b"freeze" => { let (x, t) = self.tval(); let d = dst!(t); let n = self.ns(t); self.push(b, Inst::Copy(d, x, n)); }
            b"fence" => {}
            b"atomicrmw" => {
                self.skip_flags();
                let k = match self.l.word() { b"add" => 0, b"sub" => 1, b"xchg" => 2, b"and" => 3, b"or" => 4, b"xor" => 5, b"umax" => 6, b"umin" => 7, _ => self.l.fail("rmw") };
                let (p, _) = self.tval(); self.l.need(b',');
                let (v, t) = self.tval();
                let d = dst!(t);
                self.push(b, Inst::Rmw(k, d, p, v, t));
            }
            b"cmpxchg" => {
                self.skip_flags();
                let (p, _) = self.tval(); self.l.need(b',');
                let (c, t) = self.tval(); self.l.need(b',');
                let (v, _) = self.tval();
                let i1 = self.e.types.add(TK::Int(1));
                let rt = self.e.types.add(TK::Struct(vec![t, i1], false));
                let d = dst!(rt);
                self.push(b, Inst::CmpXchg(d, p, c, v, t));
            }
            b"call" | b"invoke" => {
                self.l.skip_attrs_to_type();
                let ret = self.e.ty(&mut self.l);
                let mut vararg = false;
                if self.l.peek() == b'(' { let s = self.l.p; self.l.skip_parens(); vararg = find(&self.l.t[s..self.l.p], b"...").is_some(); }
                self.l.ws();
                let callee;
                match self.l.peek() {
                    b'@' => {
                        self.l.p += 1;
                        let n = self.l.name();
                        let md = self.l.module;
                        callee = match self.e.lookup(md, n) {
                            Some(Sym::Func(f)) => Callee::Func(f),
                            Some(Sym::Global(_)) => self.l.fail("call of data"),
                            None if n.starts_with(b"llvm.") => { let s = String::from_utf8_lossy(n).to_string(); let c = crate::interp::intr_code(&s); Callee::Intr(s, c) }
                            None => match self.e.native(n) { Some(i) => Callee::Native(i), None => Callee::Missing(String::from_utf8_lossy(n).to_string()) },
                        };
                    }
                    b'%' => { self.l.p += 1; let n = self.l.name(); let pt = self.e.types.add(TK::Ptr); let v = self.local(n, pt); callee = Callee::Ind(v); }
                    b'a' => {
                        self.l.word();
                        while self.l.peek() != b'"' { self.l.word(); }
                        let s = self.l.name();
                        self.l.need(b',');
                        self.l.ws();
                        self.l.name();
                        callee = Callee::Asm(String::from_utf8_lossy(s).to_string());
                    }
                    _ => { let pt = self.e.types.add(TK::Ptr); let v = self.val(pt); callee = Callee::Ind(v); }
                }
                self.l.need(b'(');
                let mut args = vec![];
                if !self.l.eat(b')') {
                    loop {
                        let t = self.e.ty(&mut self.l);
                        if matches!(self.e.types.v[t as usize].k, TK::Meta) {
                            // metadata argument: skip to , or )
                            let mut d = 0;
                            loop { match self.l.t[self.l.p] { b'(' => d += 1, b')' if d == 0 => break, b')' => d -= 1, b',' if d == 0 => break, _ => {} } self.l.p += 1; }
                        } else {
                            self.l.skip_attrs_to_val();
                            let v = self.val(t);
                            args.push((v, t));
                        }
                        if self.l.eat(b',') { continue; }
                        self.l.need(b')');
                        break;
                    }
                }
                let d = if self.ns(ret) > 0 { dst!(ret) } else { 0 };
                let skip = if let Callee::Intr(s, _) = &callee { ["llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg", "llvm.invariant", "llvm.prefetch", "llvm.x86.sse2.pause"].iter().any(|p| s.starts_with(p)) } else { false };
                if !skip { self.push(b, Inst::Call(Box::new(CallI { dst: d, ret, callee, args, cif: None, vararg }))); }
                if op == b"invoke" {
                    // ... to label %x unwind label %y
                    loop { let w = self.l.word(); if w == b"to" { break; } if w.is_empty() { self.l.p += 1; } }
                    let t = self.lbl();
                    let e = self.edge(b, t);
                    self.push(b, Inst::Br(e));
                    if !self.l.eatw(b"unwind") { self.l.fail("unwind"); }
                    let u = self.lbl();
                    self.edge(b, u);
                }
            }
            _ => self.l.fail(&format!("instruction {}", String::from_utf8_lossy(op))),
        }
    }
    fn path(&mut self, t: Ty) -> (u32, Ty) {
        let (mut off, mut cur) = (0, t);
        loop {
            let s = self.l.p;
            if !self.l.eat(b',') { break; }
            if !self.l.peek().is_ascii_digit() { self.l.p = s; break; }
            let i = self.l.uint() as usize;
            match self.e.types.v[cur as usize].k.clone() {
                TK::Struct(f, _) => { for x in &f[..i] { off += self.ns(*x); } cur = f[i]; }
                TK::Arr(_, e) => { off += i as u32 * self.ns(e); cur = e; }
                _ => self.l.fail("path"),
            }
        }
        (off, cur)
    }
}
