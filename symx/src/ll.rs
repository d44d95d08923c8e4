//! Parser for textual LLVM IR (the subset rustc emits) into a compact executable form.
use crate::expr::mask;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),           // concrete, width <= 64
    S(u32),           // symbolic expression
    W(Rc<u128>),      // concrete, width > 64
    A(Rc<Vec<V>>),    // vector / aggregate
}
impl V {
    pub fn mk(v: u128, w: u32) -> V {
        let v = v & mask(w);
        if w <= 64 {
            V::C(v as u64)
        } else {
            V::W(Rc::new(v))
        }
    }
}

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Ty),
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Func,
    Label,
    Metadata,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
    PtrInt, // ptrtoint / inttoptr: zext or trunc
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(O),
    Asm(String),
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub rty: Ty,
    pub callee: Callee,
    pub args: Vec<O>,
    pub atys: Vec<Ty>,
    pub normal: Option<u32>, // invoke: block to continue at
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, u32, O, O),
    ICmp(Pred, Ty, u32, O, O),
    FCmp(u8, Ty, u32, O, O),
    FNeg(Ty, u32, O),
    Cast(Cast, Ty, Ty, u32, O),
    Gep(u32, O, i64, Vec<(O, u64, u32)>),
    Load(Ty, u32, O),
    Store(Ty, O, O),
    Alloca(u32, u64, u64, Option<O>),
    Call(Box<CallI>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<O>),
    Unreachable,
    Select(Ty, Ty, u32, O, O, O),
    Extract(u32, O, Vec<u32>),
    Insert(Ty, u32, O, O, Vec<u32>, Ty),
    ExtElem(Ty, u32, O, O),
    InsElem(Ty, u32, O, O, O),
    Shuffle(Ty, u32, O, O, Vec<i32>),
    Rmw(u8, Ty, u32, O, O),
    CmpXchg(Ty, u32, O, O, O),
    Nop,
    Copy(u32, O),
    Unsup(String),
}
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub code: Vec<I>,
}
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub addr: u64,
    pub weak: bool,
    pub ninstr: u32,
}

pub const FN_BASE: u64 = 0x3800_0000;
pub const GLOB_BASE: u64 = 0x0010_0000;

pub struct Module {
    pub types: Vec<T>,
    tyix: HashMap<T, Ty>,
    pub named: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fnix: HashMap<String, u32>,
    pub globals: HashMap<String, u64>,
    pub glob_end: u64,
    pub inits: Vec<(u64, Vec<u8>)>,
    layouts: HashMap<Ty, (u64, u64)>,
}

#[derive(Clone, PartialEq, Debug)]
enum Tok<'a> {
    L(&'a [u8]),  // %local
    G(&'a [u8]),  // @global
    W(&'a [u8]),  // word
    N(&'a [u8]),  // number (possibly negative)
    S(&'a [u8]),  // "string" (raw, escaped)
    CS(&'a [u8]), // c"string"
    P(u8),
    M,  // metadata !xxx
    At, // #nn
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    tok: Tok<'a>,
    nl: bool, // current token is first on its line
}
fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self {
        let mut l = Lex { s, p: 0, tok: Tok::Eof, nl: true };
        l.next();
        l.nl = true;
        l
    }
    fn name(&mut self) -> &'a [u8] {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            self.p += 1;
            &self.s[st..self.p - 1]
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1;
            }
            &self.s[st..self.p]
        }
    }
    fn next(&mut self) -> Tok<'a> {
        let old = std::mem::replace(&mut self.tok, Tok::Eof);
        self.nl = false;
        loop {
            if self.p >= self.s.len() {
                self.nl = true;
                self.tok = Tok::Eof;
                return old;
            }
            let c = self.s[self.p];
            match c {
                b'\n' => {
                    self.nl = true;
                    self.p += 1
                }
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                _ => break,
            }
        }
        let c = self.s[self.p];
        self.tok = match c {
            b'%' => {
                self.p += 1;
                Tok::L(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::G(self.name())
            }
            b'"' => Tok::S(self.name()),
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                Tok::CS(self.name())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && self.s[self.p] == b'"' {
                    self.name();
                } else {
                    while self.p < self.s.len() && (is_word(self.s[self.p]) || self.s[self.p] == b'\\') {
                        self.p += 1;
                    }
                }
                Tok::M
            }
            b'#' => {
                self.p += 1;
                self.name();
                Tok::At
            }
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                Tok::Dots
            }
            b'0'..=b'9' => Tok::N(self.name()),
            b'-' if self.s[self.p + 1].is_ascii_digit() => Tok::N(self.name()),
            _ if is_word(c) => Tok::W(self.name()),
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        };
        old
    }
    fn is(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.tok, Tok::W(x) if x == w.as_bytes())
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn fail(&self, m: &str) -> ! {
        let st = self.s[..self.p.min(self.s.len())].iter().rposition(|&c| c == b'\n').map_or(0, |x| x + 1);
        let en = self.s[self.p.min(self.s.len())..].iter().position(|&c| c == b'\n').map_or(self.s.len(), |x| x + self.p);
        panic!(
            "IR parse: {} at {:?} in line: {}",
            m,
            self.tok,
            String::from_utf8_lossy(&self.s[st..en.min(st + 600)])
        );
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.tok {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        self.next();
                        return;
                    }
                }
                Tok::Eof => self.fail("eof in parens"),
                _ => {}
            }
            self.next();
        }
    }
    fn skip_line(&mut self) {
        while !self.nl && self.tok != Tok::Eof {
            self.next();
        }
    }
}
fn st(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(hx(b[i + 1]) * 16 + hx(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn parse_int(b: &[u8]) -> Option<u128> {
    let s = std::str::from_utf8(b).ok()?;
    if let Some(r) = s.strip_prefix('-') {
        r.parse::<u128>().ok().map(|v| v.wrapping_neg())
    } else if let Some(r) = s.strip_prefix("u0x") {
        u128::from_str_radix(r, 16).ok()
    } else {
        s.parse::<u128>().ok()
    }
}

struct FnCtx<'a> {
    locals: HashMap<&'a [u8], u32>,
    blocks: HashMap<&'a [u8], u32>,
    nregs: u32,
}
impl<'a> FnCtx<'a> {
    fn reg(&mut self, n: &'a [u8]) -> u32 {
        if let Some(&r) = self.locals.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.locals.insert(n, r);
        r
    }
    fn block(&mut self, n: &'a [u8]) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(l)
    }
}

impl Module {
    pub fn ty(&mut self, t: T) -> Ty {
        if let Some(&i) = self.tyix.get(&t) {
            return i;
        }
        let i = self.types.len() as Ty;
        self.types.push(t.clone());
        self.tyix.insert(t, i);
        i
    }
    pub fn layout(&mut self, t: Ty) -> (u64, u64) {
        if let Some(&l) = self.layouts.get(&t) {
            return l;
        }
        let l = match self.types[t as usize].clone() {
            T::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            T::Ptr | T::Double => (8, 8),
            T::Float => (4, 4),
            T::Vec(n, e) => {
                let bits = match self.types[e as usize] {
                    T::Int(w) => w as u64,
                    T::Ptr | T::Double => 64,
                    T::Float => 32,
                    _ => panic!("vector element"),
                };
                let by = (bits * n as u64 + 7) / 8;
                let a = by.next_power_of_two();
                (a, a)
            }
            T::Arr(n, e) => {
                let (s, a) = self.layout(e);
                (s * n, a)
            }
            T::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for e in f {
                    let (s, a) = self.layout(e);
                    if !packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                ((o + al - 1) / al * al, al)
            }
            x => panic!("layout of {:?}", x),
        };
        self.layouts.insert(t, l);
        l
    }
    pub fn layout_ro(&self, t: Ty) -> (u64, u64) {
        self.layouts[&t]
    }
    pub fn field_off(&mut self, t: Ty, ix: usize) -> (u64, Ty) {
        match self.types[t as usize].clone() {
            T::Struct(f, packed) => {
                let mut o = 0;
                for (i, &e) in f.iter().enumerate() {
                    let (s, a) = self.layout(e);
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if i == ix {
                        return (o, e);
                    }
                    o += s;
                }
                panic!("field index")
            }
            T::Arr(_, e) | T::Vec(_, e) => (self.layout(e).0 * ix as u64, e),
            x => panic!("field of {:?}", x),
        }
    }
    /// bit width of scalar
    pub fn bits(&self, t: Ty) -> u32 {
        match self.types[t as usize] {
            T::Int(w) => w,
            T::Ptr | T::Double => 64,
            T::Float => 32,
            ref x => panic!("bits of {:?}", x),
        }
    }
    pub fn lanes(&self, t: Ty) -> Option<(u32, Ty)> {
        match self.types[t as usize] {
            T::Vec(n, e) => Some((n, e)),
            _ => None,
        }
    }
    pub fn zero(&self, t: Ty) -> V {
        match &self.types[t as usize] {
            T::Int(w) => V::mk(0, *w),
            T::Ptr | T::Double | T::Float => V::C(0),
            T::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            T::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            T::Struct(f, _) => V::A(Rc::new(f.iter().map(|e| self.zero(*e)).collect())),
            T::Void | T::Metadata => V::C(0),
            x => panic!("zero of {:?}", x),
        }
    }

    fn is_type_start(l: &Lex) -> bool {
        match &l.tok {
            Tok::L(_) => true,
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::W(w) => {
                matches!(*w, b"void" | b"ptr" | b"float" | b"double" | b"label" | b"metadata" | b"half" | b"opaque" | b"token")
                    || (w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()))
            }
            _ => false,
        }
    }
    fn parse_ty(&mut self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            Tok::W(b"void") => T::Void,
            Tok::W(b"ptr") => {
                if l.isw("addrspace") {
                    l.next();
                    l.skip_parens();
                }
                T::Ptr
            }
            Tok::W(b"float") => T::Float,
            Tok::W(b"double") => T::Double,
            Tok::W(b"label") => T::Label,
            Tok::W(b"metadata") => T::Metadata,
            Tok::W(b"opaque") => T::Opaque,
            Tok::W(w) if w[0] == b'i' => T::Int(st(&w[1..]).parse().unwrap()),
            Tok::P(b'[') => {
                let n = match l.next() {
                    Tok::N(n) => st(n).parse().unwrap(),
                    _ => l.fail("array size"),
                };
                if !l.eatw("x") {
                    l.fail("x");
                }
                let e = self.parse_ty(l);
                l.expect(b']');
                T::Arr(n, e)
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                while !l.eat(b'}') {
                    f.push(self.parse_ty(l));
                    l.eat(b',');
                }
                T::Struct(f, false)
            }
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let mut f = vec![];
                    while !l.eat(b'}') {
                        f.push(self.parse_ty(l));
                        l.eat(b',');
                    }
                    l.expect(b'>');
                    T::Struct(f, true)
                } else {
                    let n = match l.next() {
                        Tok::N(n) => st(n).parse().unwrap(),
                        _ => l.fail("vector size"),
                    };
                    if !l.eatw("x") {
                        l.fail("x");
                    }
                    let e = self.parse_ty(l);
                    l.expect(b'>');
                    T::Vec(n, e)
                }
            }
            Tok::L(n) => {
                let n = st(n);
                match self.named.get(&n) {
                    Some(&t) => return t,
                    None => panic!("unknown type %{}", n),
                }
            }
            x => panic!("type expected, got {:?}", x),
        };
        self.ty(t)
    }

    fn special(&self, t: Ty, neg: bool, inf: bool) -> V {
        let d = matches!(self.types[t as usize], T::Double);
        let (s, i, q) = if d { (1u64 << 63, 0x7ff0u64 << 48, 0x7ff8u64 << 48) } else { (1u64 << 31, 0x7f80_0000, 0x7fc0_0000) };
        V::C(if inf { i } else { q } | if neg { s } else { 0 })
    }
    /// constant of type t
    fn parse_const(&mut self, l: &mut Lex, t: Ty) -> V {
        match l.next() {
            Tok::N(n) => match self.types[t as usize] {
                T::Int(w) => match parse_int(n) {
                    Some(v) => V::mk(v, w),
                    None => l.fail("int"),
                },
                T::Double | T::Float => {
                    let s = st(n);
                    let d = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        // decimal float literal such as 1.000000e+00 ('+' is not a word char)
                        let mut s = s;
                        if l.is(b'+') {
                            l.next();
                            if let Tok::N(m) = l.next() {
                                s = format!("{}+{}", s, st(m));
                            }
                        }
                        s.parse::<f64>().unwrap()
                    };
                    if self.types[t as usize] == T::Double {
                        V::C(d.to_bits())
                    } else {
                        V::C((d as f32).to_bits() as u64)
                    }
                }
                _ => l.fail("number for type"),
            },
            Tok::W(b"true") => V::C(1),
            Tok::W(b"false") => V::C(0),
            Tok::W(b"null") => V::C(0),
            Tok::W(b"none") => V::C(0),
            Tok::W(b"undef") | Tok::W(b"poison") | Tok::W(b"zeroinitializer") => self.zero(t),
            Tok::W(w) if w.starts_with(b"u0x") || w.starts_with(b"s0x") => {
                let v = u128::from_str_radix(&st(&w[3..]), 16).unwrap();
                V::mk(v, self.bits(t))
            }
            Tok::P(c) if (c == b'+' || c == b'-') && matches!(l.tok, Tok::W(b"inf") | Tok::W(b"qnan")) => {
                let inf = l.isw("inf");
                l.next();
                self.special(t, c == b'-', inf)
            }
            Tok::W(w @ (b"-inf" | b"+inf" | b"-qnan" | b"+qnan")) => self.special(t, w[0] == b'-', w[1] == b'i'),
            Tok::W(w) if w.starts_with(b"f0x") => {
                let v = u64::from_str_radix(&st(&w[3..]), 16).unwrap();
                V::C(v)
            }
            Tok::W(b"splat") => {
                l.expect(b'(');
                let et = self.parse_ty(l);
                let v = self.parse_const(l, et);
                l.expect(b')');
                let n = match self.types[t as usize] {
                    T::Vec(n, _) => n,
                    T::Arr(n, _) => n as u32,
                    _ => l.fail("splat"),
                };
                V::A(Rc::new(vec![v; n as usize]))
            }
            Tok::G(n) => self.global_addr(&st(n)),
            Tok::CS(b) => V::A(Rc::new(unescape(b).into_iter().map(|x| V::C(x as u64)).collect())),
            Tok::P(b'[') => {
                let mut v = vec![];
                while !l.eat(b']') {
                    let et = self.parse_ty(l);
                    v.push(self.parse_const(l, et));
                    l.eat(b',');
                }
                V::A(Rc::new(v))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !l.eat(b'}') {
                    let et = self.parse_ty(l);
                    v.push(self.parse_const(l, et));
                    l.eat(b',');
                }
                V::A(Rc::new(v))
            }
            Tok::P(b'<') => {
                let mut v = vec![];
                if l.eat(b'{') {
                    while !l.eat(b'}') {
                        let et = self.parse_ty(l);
                        v.push(self.parse_const(l, et));
                        l.eat(b',');
                    }
                    l.expect(b'>');
                } else {
                    while !l.eat(b'>') {
                        let et = self.parse_ty(l);
                        v.push(self.parse_const(l, et));
                        l.eat(b',');
                    }
                }
                V::A(Rc::new(v))
            }
            Tok::W(b"getelementptr") => {
                while let Tok::W(w) = l.tok {
                    match w {
                        b"inbounds" | b"nuw" | b"nusw" => {
                            l.next();
                        }
                        b"inrange" => {
                            l.next();
                            l.skip_parens();
                        }
                        _ => break,
                    }
                }
                l.expect(b'(');
                let mut cur = self.parse_ty(l);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let mut addr = match self.parse_const(l, pt) {
                    V::C(a) => a,
                    _ => l.fail("gep base"),
                };
                let mut first = true;
                while l.eat(b',') {
                    let it = self.parse_ty(l);
                    let w = self.bits(it);
                    let ix = match self.parse_const(l, it) {
                        V::C(v) => crate::expr::sext(v as u128, w) as i64,
                        _ => l.fail("gep idx"),
                    };
                    if first {
                        let s = self.layout(cur).0;
                        addr = addr.wrapping_add((ix as u64).wrapping_mul(s));
                        first = false;
                    } else {
                        let (o, e) = match self.types[cur as usize] {
                            T::Struct(..) => self.field_off(cur, ix as usize),
                            T::Arr(_, e) | T::Vec(_, e) => ((ix as u64).wrapping_mul(self.layout(e).0), e),
                            _ => l.fail("gep into scalar"),
                        };
                        addr = addr.wrapping_add(o);
                        cur = e;
                    }
                }
                l.expect(b')');
                V::C(addr)
            }
            Tok::W(w @ (b"inttoptr" | b"ptrtoint" | b"trunc" | b"zext" | b"bitcast" | b"addrspacecast" | b"ptrtoaddr")) => {
                let _ = w;
                l.expect(b'(');
                let ft = self.parse_ty(l);
                let v = self.parse_const(l, ft);
                if !l.eatw("to") {
                    l.fail("to");
                }
                let tt = self.parse_ty(l);
                l.expect(b')');
                let bw = self.bits(tt);
                match v {
                    V::C(x) => V::mk(x as u128, bw),
                    V::W(x) => V::mk(*x, bw),
                    v => v,
                }
            }
            Tok::W(w @ (b"add" | b"sub" | b"mul" | b"xor" | b"and" | b"or" | b"shl" | b"lshr")) => {
                let op = w;
                while l.isw("nuw") || l.isw("nsw") {
                    l.next();
                }
                l.expect(b'(');
                let t1 = self.parse_ty(l);
                let a = self.parse_const(l, t1);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let b = self.parse_const(l, t2);
                l.expect(b')');
                let (a, b) = match (a, b) {
                    (V::C(a), V::C(b)) => (a, b),
                    _ => l.fail("const binop"),
                };
                let r = match op {
                    b"add" => a.wrapping_add(b),
                    b"sub" => a.wrapping_sub(b),
                    b"mul" => a.wrapping_mul(b),
                    b"xor" => a ^ b,
                    b"and" => a & b,
                    b"or" => a | b,
                    b"shl" => a << b,
                    _ => a >> b,
                };
                V::mk(r as u128, self.bits(t1))
            }
            Tok::W(b"icmp") => {
                let p = match l.next() {
                    Tok::W(w) => w,
                    _ => l.fail("icmp pred"),
                };
                l.expect(b'(');
                let t1 = self.parse_ty(l);
                let a = self.parse_const(l, t1);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let b = self.parse_const(l, t2);
                l.expect(b')');
                match (p, a, b) {
                    (b"eq", V::C(a), V::C(b)) => V::C((a == b) as u64),
                    (b"ne", V::C(a), V::C(b)) => V::C((a != b) as u64),
                    (b"ult", V::C(a), V::C(b)) => V::C((a < b) as u64),
                    (b"ugt", V::C(a), V::C(b)) => V::C((a > b) as u64),
                    _ => l.fail("const icmp"),
                }
            }
            Tok::W(b"select") => {
                l.expect(b'(');
                let t1 = self.parse_ty(l);
                let c = self.parse_const(l, t1);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let a = self.parse_const(l, t2);
                l.expect(b',');
                let t3 = self.parse_ty(l);
                let b = self.parse_const(l, t3);
                l.expect(b')');
                match c {
                    V::C(0) => b,
                    _ => a,
                }
            }
            x => l.fail(&format!("constant, got {:?}", x)),
        }
    }
    fn global_addr(&mut self, n: &str) -> V {
        if let Some(&a) = self.globals.get(n) {
            return V::C(a);
        }
        match self.fnix.get(n) {
            Some(&f) => {
                let fu = &self.funcs[f as usize];
                if fu.weak && !fu.defined {
                    V::C(0)
                } else {
                    V::C(fu.addr)
                }
            }
            None => panic!("unknown global @{}", n),
        }
    }
    fn const_bytes(&mut self, v: &V, t: Ty, out: &mut [u8]) {
        match (v, self.types[t as usize].clone()) {
            (V::C(x), T::Int(_)) | (V::C(x), T::Ptr) | (V::C(x), T::Double) | (V::C(x), T::Float) => {
                let n = out.len().min(8).min(self.layout(t).0 as usize);
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (V::W(x), _) => {
                let n = out.len().min(16);
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (V::A(vs), T::Vec(_, e)) | (V::A(vs), T::Arr(_, e)) => {
                let s = self.layout(e).0 as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.const_bytes(x, e, &mut out[i * s..(i + 1) * s]);
                }
            }
            (V::A(vs), T::Struct(..)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, e) = self.field_off(t, i);
                    let s = self.layout(e).0 as usize;
                    self.const_bytes(x, e, &mut out[o as usize..o as usize + s]);
                }
            }
            (v, t) => panic!("const bytes {:?} {:?}", v, t),
        }
    }

    pub fn parse(src: &[u8]) -> Module {
        let mut m = Module {
            types: vec![],
            tyix: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fnix: HashMap::new(),
            globals: HashMap::new(),
            glob_end: 0,
            inits: vec![],
            layouts: HashMap::new(),
        };
        // split into top-level lines
        let mut tlines: Vec<&[u8]> = vec![];
        let mut glines: Vec<&[u8]> = vec![];
        let mut fdefs: Vec<(&[u8], bool)> = vec![];
        let mut i = 0;
        while i < src.len() {
            let e = src[i..].iter().position(|&c| c == b'\n').map_or(src.len(), |x| x + i);
            let line = &src[i..e];
            if line.starts_with(b"%") {
                tlines.push(line);
            } else if line.starts_with(b"@") {
                glines.push(line);
            } else if line.starts_with(b"declare") {
                fdefs.push((line, false));
            } else if line.starts_with(b"define") {
                // up to "\n}"
                let mut j = e;
                loop {
                    if src[j] == b'\n' && src.get(j + 1) == Some(&b'}') {
                        break;
                    }
                    j += 1;
                }
                fdefs.push((&src[i..j + 1], true));
                i = j + 2;
                continue;
            }
            i = e + 1;
        }
        // named types: may reference each other; iterate by dependency
        let mut pending: Vec<(String, &[u8])> = tlines
            .iter()
            .map(|l| {
                let mut lx = Lex::new(l);
                let n = match lx.next() {
                    Tok::L(n) => st(n),
                    _ => lx.fail("type line"),
                };
                let eq = l.windows(8).position(|w| w == b" = type ").unwrap();
                (n, &l[eq + 8..])
            })
            .collect();
        while !pending.is_empty() {
            let before = pending.len();
            let mut rest = vec![];
            for (n, body) in pending {
                let mut lx = Lex::new(body);
                let mut ok = true;
                {
                    let mut l2 = Lex::new(body);
                    while l2.tok != Tok::Eof {
                        if let Tok::L(x) = l2.tok {
                            if !m.named.contains_key(&st(x)) {
                                ok = false;
                            }
                        }
                        l2.next();
                    }
                }
                if ok {
                    let t = m.parse_ty(&mut lx);
                    m.named.insert(n, t);
                } else {
                    rest.push((n, body));
                }
            }
            if rest.len() == before {
                panic!("cyclic types");
            }
            pending = rest;
        }
        // functions: names
        for (src, def) in &fdefs {
            let mut l = Lex::new(src);
            let mut weak = false;
            let name = loop {
                match l.next() {
                    Tok::G(n) => break st(n),
                    Tok::W(b"extern_weak") => weak = true,
                    Tok::Eof => panic!("function without name"),
                    _ => {}
                }
            };
            let ix = m.funcs.len() as u32;
            m.fnix.insert(name.clone(), ix);
            m.funcs.push(Func {
                name,
                nparams: 0,
                nregs: 0,
                blocks: vec![],
                defined: *def,
                addr: FN_BASE + 16 * ix as u64,
                weak,
                ninstr: 0,
            });
        }
        // globals: addresses
        let mut addr = GLOB_BASE;
        let mut gi: Vec<(&[u8], Ty, usize, u64)> = vec![];
        for line in &glines {
            let mut l = Lex::new(line);
            let name = match l.next() {
                Tok::G(n) => st(n),
                _ => unreachable!(),
            };
            l.expect(b'=');
            let mut ext = false;
            let mut alias = false;
            loop {
                match &l.tok {
                    Tok::W(b"global") | Tok::W(b"constant") => {
                        l.next();
                        break;
                    }
                    Tok::W(b"external") | Tok::W(b"extern_weak") => {
                        ext = true;
                        l.next();
                    }
                    Tok::W(b"alias") => {
                        alias = true;
                        break;
                    }
                    Tok::P(b'(') => l.skip_parens(),
                    _ => {
                        l.next();
                    }
                }
            }
            if alias {
                // alias <ty>, ptr @target
                let tgt = {
                    let mut t = None;
                    while l.tok != Tok::Eof {
                        if let Tok::G(n) = l.next() {
                            t = Some(st(n));
                        }
                    }
                    t.unwrap()
                };
                if let Some(&f) = m.fnix.get(&tgt) {
                    m.fnix.insert(name, f);
                }
                continue;
            }
            let t = m.parse_ty(&mut l);
            let (s, a) = m.layout(t);
            // explicit align
            let mut al = a;
            if let Some(p) = line.windows(8).rposition(|w| w == b", align ") {
                let d: Vec<u8> = line[p + 8..].iter().copied().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(x) = st(&d).parse::<u64>() {
                    al = al.max(x);
                }
            }
            addr = (addr + al - 1) / al * al;
            m.globals.insert(name, addr);
            if !ext {
                // position of initializer: reparse later from current token
                let pos = line.len() - l.s.len();
                let _ = pos;
                gi.push((line, t, 0, addr));
            }
            addr += s.max(1);
            addr = (addr + 15) / 16 * 16;
        }
        m.glob_end = addr;
        for (line, t, _, a) in gi {
            let mut l = Lex::new(line);
            loop {
                match &l.tok {
                    Tok::W(b"global") | Tok::W(b"constant") => {
                        l.next();
                        break;
                    }
                    Tok::P(b'(') => l.skip_parens(),
                    _ => {
                        l.next();
                    }
                }
            }
            m.parse_ty(&mut l);
            let zero = l.isw("zeroinitializer") || l.isw("undef") || l.isw("poison");
            let s = m.layout(t).0 as usize;
            if zero || s == 0 {
                continue;
            }
            let v = m.parse_const(&mut l, t);
            let mut buf = vec![0u8; s];
            m.const_bytes(&v, t, &mut buf);
            m.inits.push((a, buf));
        }
        for (ix, (src, def)) in fdefs.iter().enumerate() {
            if *def {
                m.parse_func(ix as u32, src);
            }
        }
        for t in 0..m.types.len() as u32 {
            if !matches!(m.types[t as usize], T::Void | T::Func | T::Label | T::Metadata | T::Opaque) {
                m.layout(t);
            }
        }
        m
    }

    fn skip_attrs(&mut self, l: &mut Lex) {
        // parameter / return attributes before an operand or name
        loop {
            match &l.tok {
                Tok::W(w) => {
                    let w: &[u8] = w;
                    if matches!(
                        w,
                        b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"splat" | b"none"
                            | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"trunc" | b"zext" | b"bitcast" | b"add" | b"sub"
                            | b"mul" | b"xor" | b"asm" | b"select" | b"icmp" | b"and" | b"or" | b"shl" | b"lshr"
                    ) || w.starts_with(b"u0x")
                        || w.starts_with(b"s0x")
                    {
                        return;
                    }
                    let al = w == b"align";
                    if w == b"byval" {
                        panic!("byval parameters are not supported");
                    }
                    l.next();
                    if l.is(b'(') {
                        l.skip_parens();
                    } else if al {
                        l.next();
                    }
                }
                Tok::S(_) => {
                    l.next();
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                Tok::At => {
                    l.next();
                }
                _ => return,
            }
        }
    }

    fn operand<'a>(&mut self, l: &mut Lex<'a>, t: Ty, fc: &mut FnCtx<'a>) -> O {
        if let Tok::L(n) = l.tok {
            l.next();
            return O::R(fc.reg(n));
        }
        if self.types[t as usize] == T::Metadata {
            // metadata operand: skip
            if l.tok == Tok::M {
                l.next();
                if l.is(b'(') {
                    l.skip_parens();
                }
            } else {
                l.next();
            }
            return O::K(V::C(0));
        }
        O::K(self.parse_const(l, t))
    }
    fn ty_operand<'a>(&mut self, l: &mut Lex<'a>, fc: &mut FnCtx<'a>) -> (Ty, O) {
        let t = self.parse_ty(l);
        let o = self.operand(l, t, fc);
        (t, o)
    }
    fn label<'a>(&mut self, l: &mut Lex<'a>, fc: &mut FnCtx<'a>) -> u32 {
        if !l.eatw("label") {
            l.fail("label");
        }
        match l.next() {
            Tok::L(n) => fc.block(n),
            _ => l.fail("label name"),
        }
    }

    fn parse_func(&mut self, ix: u32, src: &[u8]) {
        let mut l = Lex::new(src);
        let mut fc = FnCtx { locals: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
        // header
        loop {
            match l.next() {
                Tok::G(_) => break,
                _ => {}
            }
        }
        l.expect(b'(');
        let mut np = 0;
        let mut unnamed = 0u32;
        while !l.eat(b')') {
            if l.tok == Tok::Dots {
                l.next();
                continue;
            }
            self.parse_ty(&mut l);
            self.skip_attrs(&mut l);
            if let Tok::L(n) = l.tok {
                if n.iter().all(|c| c.is_ascii_digit()) {
                    unnamed = unnamed.max(st(n).parse::<u32>().unwrap() + 1);
                }
                let r = fc.reg(n);
                assert!(r == np);
                l.next();
            } else {
                l.fail("parameter name");
            }
            np += 1;
            l.eat(b',');
        }
        // skip to '{' at end of header line
        loop {
            if l.is(b'(') {
                l.skip_parens();
                continue;
            }
            if l.is(b'{') {
                l.next();
                if l.nl {
                    break;
                }
                continue;
            }
            l.next();
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut first = true;
        let mut cur: Option<(u32, Block)> = None;
        let mut n_instr = 0;
        let entry_implicit: Vec<u8> = unnamed.to_string().into_bytes();
        // leak is fine: lives as long as the process
        let entry_name: &[u8] = Box::leak(entry_implicit.into_boxed_slice());
        loop {
            if l.tok == Tok::Eof {
                break;
            }
            // label?
            let is_label = {
                match &l.tok {
                    Tok::W(_) | Tok::N(_) | Tok::S(_) => l.s.get(l.p) == Some(&b':'),
                    _ => false,
                }
            };
            if is_label {
                let n: &[u8] = match l.next() {
                    Tok::W(n) | Tok::N(n) | Tok::S(n) => n,
                    _ => unreachable!(),
                };
                l.expect(b':');
                if let Some((i, b)) = cur.take() {
                    put(&mut blocks, i, b);
                }
                let bi = fc.block(n);
                cur = Some((bi, Block { name: st(n), phis: vec![], code: vec![] }));
                first = false;
                continue;
            }
            if first {
                let bi = fc.block(entry_name);
                cur = Some((bi, Block { name: "entry".into(), phis: vec![], code: vec![] }));
                first = false;
            }
            let (_, b) = cur.as_mut().unwrap();
            n_instr += 1;
            self.parse_instr(&mut l, &mut fc, b);
            l.skip_line();
        }
        if let Some((i, b)) = cur.take() {
            put(&mut blocks, i, b);
        }
        let f = &mut self.funcs[ix as usize];
        f.nparams = np;
        f.nregs = fc.nregs;
        f.ninstr = n_instr;
        f.blocks = blocks.into_iter().map(|b| b.expect("undefined block")).collect();

        fn put(blocks: &mut Vec<Option<Block>>, i: u32, b: Block) {
            while blocks.len() <= i as usize {
                blocks.push(None);
            }
            blocks[i as usize] = Some(b);
        }
    }

    fn parse_instr<'a>(&mut self, l: &mut Lex<'a>, fc: &mut FnCtx<'a>, b: &mut Block) {
        let mut dst: Option<u32> = None;
        if let Tok::L(n) = l.tok {
            l.next();
            l.expect(b'=');
            dst = Some(fc.reg(n));
        }
        let d = dst.unwrap_or(u32::MAX);
        let op: &[u8] = match l.next() {
            Tok::W(w) => w,
            _ => l.fail("opcode"),
        };
        let flags = |l: &mut Lex| {
            while let Tok::W(w) = l.tok {
                match w {
                    b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"inbounds" | b"nusw" | b"fast" | b"nnan"
                    | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" => {
                        l.next();
                    }
                    _ => break,
                }
            }
        };
        let bop = match op {
            b"add" => Some(Bin::Add),
            b"sub" => Some(Bin::Sub),
            b"mul" => Some(Bin::Mul),
            b"udiv" => Some(Bin::UDiv),
            b"urem" => Some(Bin::URem),
            b"sdiv" => Some(Bin::SDiv),
            b"srem" => Some(Bin::SRem),
            b"and" => Some(Bin::And),
            b"or" => Some(Bin::Or),
            b"xor" => Some(Bin::Xor),
            b"shl" => Some(Bin::Shl),
            b"lshr" => Some(Bin::LShr),
            b"ashr" => Some(Bin::AShr),
            b"fadd" => Some(Bin::FAdd),
            b"fsub" => Some(Bin::FSub),
            b"fmul" => Some(Bin::FMul),
            b"fdiv" => Some(Bin::FDiv),
            b"frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(bo) = bop {
            flags(l);
            let (t, x) = self.ty_operand(l, fc);
            l.expect(b',');
            let y = self.operand(l, t, fc);
            b.code.push(I::Bin(bo, t, d, x, y));
            return;
        }
        match op {
            b"icmp" => {
                flags(l);
                let p = match l.next() {
                    Tok::W(w) => match w {
                        b"eq" => Pred::Eq,
                        b"ne" => Pred::Ne,
                        b"ugt" => Pred::Ugt,
                        b"uge" => Pred::Uge,
                        b"ult" => Pred::Ult,
                        b"ule" => Pred::Ule,
                        b"sgt" => Pred::Sgt,
                        b"sge" => Pred::Sge,
                        b"slt" => Pred::Slt,
                        b"sle" => Pred::Sle,
                        _ => l.fail("icmp"),
                    },
                    _ => l.fail("icmp"),
                };
                let (t, x) = self.ty_operand(l, fc);
                l.expect(b',');
                let y = self.operand(l, t, fc);
                b.code.push(I::ICmp(p, t, d, x, y));
            }
            b"fcmp" => {
                flags(l);
                let p = match l.next() {
                    Tok::W(w) => match w {
                        b"false" => 0,
                        b"oeq" => 1,
                        b"ogt" => 2,
                        b"oge" => 3,
                        b"olt" => 4,
                        b"ole" => 5,
                        b"one" => 6,
                        b"ord" => 7,
                        b"uno" => 8,
                        b"ueq" => 9,
                        b"ugt" => 10,
                        b"uge" => 11,
                        b"ult" => 12,
                        b"ule" => 13,
                        b"une" => 14,
                        b"true" => 15,
                        _ => l.fail("fcmp"),
                    },
                    _ => l.fail("fcmp"),
                };
                let (t, x) = self.ty_operand(l, fc);
                l.expect(b',');
                let y = self.operand(l, t, fc);
                b.code.push(I::FCmp(p, t, d, x, y));
            }
            b"fneg" => {
                flags(l);
                let (t, x) = self.ty_operand(l, fc);
                b.code.push(I::FNeg(t, d, x));
            }
            b"zext" | b"sext" | b"trunc" | b"bitcast" | b"ptrtoint" | b"inttoptr" | b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi"
            | b"fpext" | b"fptrunc" | b"ptrtoaddr" => {
                flags(l);
                let (ft, x) = self.ty_operand(l, fc);
                if !l.eatw("to") {
                    l.fail("to");
                }
                let tt = self.parse_ty(l);
                let c = match op {
                    b"zext" => Cast::ZExt,
                    b"sext" => Cast::SExt,
                    b"trunc" => Cast::Trunc,
                    b"bitcast" => Cast::Bit,
                    b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" => Cast::PtrInt,
                    b"uitofp" => Cast::UIToFP,
                    b"sitofp" => Cast::SIToFP,
                    b"fptoui" => Cast::FPToUI,
                    b"fptosi" => Cast::FPToSI,
                    b"fpext" => Cast::FPExt,
                    _ => Cast::FPTrunc,
                };
                b.code.push(I::Cast(c, ft, tt, d, x));
            }
            b"getelementptr" => {
                loop {
                    flags(l);
                    if l.eatw("inrange") {
                        l.skip_parens();
                    } else {
                        break;
                    }
                }
                let mut cur = self.parse_ty(l);
                l.expect(b',');
                let (_, base) = self.ty_operand(l, fc);
                let mut off: i64 = 0;
                let mut vars = vec![];
                let mut first = true;
                while l.is(b',') {
                    l.next();
                    if l.tok == Tok::M {
                        break;
                    }
                    let (it, io) = self.ty_operand(l, fc);
                    if self.lanes(it).is_some() {
                        b.code.push(I::Unsup("vector gep".into()));
                        return;
                    }
                    let w = self.bits(it);
                    let cix = match &io {
                        O::K(V::C(v)) => Some(crate::expr::sext(*v as u128, w) as i64),
                        _ => None,
                    };
                    let scale;
                    if first {
                        scale = self.layout(cur).0;
                        first = false;
                    } else {
                        match self.types[cur as usize] {
                            T::Struct(..) => {
                                let (o, e) = self.field_off(cur, cix.unwrap() as usize);
                                off += o as i64;
                                cur = e;
                                continue;
                            }
                            T::Arr(_, e) | T::Vec(_, e) => {
                                scale = self.layout(e).0;
                                cur = e;
                            }
                            _ => l.fail("gep into scalar"),
                        }
                    }
                    match cix {
                        Some(k) => off = off.wrapping_add(k.wrapping_mul(scale as i64)),
                        None => vars.push((io, scale, w)),
                    }
                }
                b.code.push(I::Gep(d, base, off, vars));
            }
            b"load" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let t = self.parse_ty(l);
                l.expect(b',');
                let (_, p) = self.ty_operand(l, fc);
                b.code.push(I::Load(t, d, p));
            }
            b"store" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let (t, v) = self.ty_operand(l, fc);
                l.expect(b',');
                let (_, p) = self.ty_operand(l, fc);
                b.code.push(I::Store(t, v, p));
            }
            b"alloca" => {
                let t = self.parse_ty(l);
                let (s, a) = self.layout(t);
                let mut al = a;
                let mut cnt = None;
                while l.is(b',') && !l.nl {
                    l.next();
                    if l.eatw("align") {
                        if let Tok::N(n) = l.next() {
                            al = al.max(st(n).parse().unwrap());
                        }
                    } else if l.tok == Tok::M {
                        break;
                    } else {
                        let (_, o) = self.ty_operand(l, fc);
                        cnt = Some(o);
                    }
                }
                b.code.push(I::Alloca(d, s, al, cnt));
            }
            b"call" | b"tail" | b"musttail" | b"notail" | b"invoke" => {
                if matches!(op, b"tail" | b"musttail" | b"notail") {
                    l.next();
                }
                // cconv + attrs + ret type
                loop {
                    if Self::is_type_start(l) {
                        break;
                    }
                    match &l.tok {
                        Tok::W(w) => {
                            let al = *w == b"align";
                            l.next();
                            if l.is(b'(') {
                                l.skip_parens();
                            } else if al {
                                l.next();
                            }
                        }
                        _ => l.fail("call"),
                    }
                }
                let rty = self.parse_ty(l);
                if l.is(b'(') {
                    l.skip_parens();
                }
                let callee = match l.tok.clone() {
                    Tok::G(n) => {
                        l.next();
                        let n = st(n);
                        match self.fnix.get(&n) {
                            Some(&f) => Callee::Fn(f),
                            None => panic!("call of unknown function @{}", n),
                        }
                    }
                    Tok::L(n) => {
                        l.next();
                        Callee::Ind(O::R(fc.reg(n)))
                    }
                    Tok::W(b"asm") => {
                        l.next();
                        let mut s = String::new();
                        loop {
                            match l.next() {
                                Tok::S(x) => {
                                    s = st(x);
                                    break;
                                }
                                _ => {}
                            }
                        }
                        l.expect(b',');
                        l.next();
                        Callee::Asm(s)
                    }
                    _ => {
                        let pt = self.ty(T::Ptr);
                        Callee::Ind(O::K(self.parse_const(l, pt)))
                    }
                };
                l.expect(b'(');
                let mut args = vec![];
                let mut atys = vec![];
                while !l.eat(b')') {
                    let t = self.parse_ty(l);
                    self.skip_attrs(l);
                    let o = self.operand(l, t, fc);
                    args.push(o);
                    atys.push(t);
                    l.eat(b',');
                }
                let mut normal = None;
                if op == b"invoke" {
                    while !l.isw("to") {
                        if l.is(b'(') || l.is(b'[') {
                            l.next();
                        } else {
                            l.next();
                        }
                    }
                    l.next();
                    normal = Some(self.label(l, fc));
                    if !l.eatw("unwind") {
                        l.fail("unwind");
                    }
                    self.label(l, fc);
                }
                b.code.push(I::Call(Box::new(CallI { dst, rty, callee, args, atys, normal })));
            }
            b"br" => {
                if l.isw("label") {
                    let t = self.label(l, fc);
                    b.code.push(I::Br(t));
                } else {
                    let (_, c) = self.ty_operand(l, fc);
                    l.expect(b',');
                    let x = self.label(l, fc);
                    l.expect(b',');
                    let y = self.label(l, fc);
                    b.code.push(I::CondBr(c, x, y));
                }
            }
            b"switch" => {
                let (t, v) = self.ty_operand(l, fc);
                l.expect(b',');
                let df = self.label(l, fc);
                l.expect(b'[');
                let mut cs = vec![];
                while !l.eat(b']') {
                    let ct = self.parse_ty(l);
                    let k = match self.parse_const(l, ct) {
                        V::C(x) => x as u128,
                        V::W(x) => *x,
                        _ => l.fail("switch const"),
                    };
                    l.expect(b',');
                    let tb = self.label(l, fc);
                    cs.push((k, tb));
                }
                b.code.push(I::Switch(t, v, df, Rc::new(cs)));
            }
            b"ret" => {
                if l.isw("void") {
                    b.code.push(I::Ret(None));
                } else {
                    let (_, v) = self.ty_operand(l, fc);
                    b.code.push(I::Ret(Some(v)));
                }
            }
            b"unreachable" => b.code.push(I::Unreachable),
            b"select" => {
                flags(l);
                let (ct, c) = self.ty_operand(l, fc);
                l.expect(b',');
                let (t, x) = self.ty_operand(l, fc);
                l.expect(b',');
                let (_, y) = self.ty_operand(l, fc);
                b.code.push(I::Select(ct, t, d, c, x, y));
            }
            b"phi" => {
                flags(l);
                let t = self.parse_ty(l);
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let o = self.operand(l, t, fc);
                    l.expect(b',');
                    let bb = match l.next() {
                        Tok::L(n) => fc.block(n),
                        _ => l.fail("phi block"),
                    };
                    l.expect(b']');
                    inc.push((bb, o));
                    if l.nl || !l.is(b',') {
                        break;
                    }
                    l.next();
                    if l.tok == Tok::M {
                        break;
                    }
                }
                b.phis.push((d, inc));
            }
            b"extractvalue" => {
                let (_, v) = self.ty_operand(l, fc);
                let mut ix = vec![];
                while !l.nl && l.eat(b',') {
                    match l.next() {
                        Tok::N(n) => ix.push(st(n).parse().unwrap()),
                        _ => break,
                    }
                }
                b.code.push(I::Extract(d, v, ix));
            }
            b"insertvalue" => {
                let (t, v) = self.ty_operand(l, fc);
                l.expect(b',');
                let (et, e) = self.ty_operand(l, fc);
                let mut ix = vec![];
                while !l.nl && l.eat(b',') {
                    match l.next() {
                        Tok::N(n) => ix.push(st(n).parse().unwrap()),
                        _ => break,
                    }
                }
                b.code.push(I::Insert(t, d, v, e, ix, et));
            }
            b"extractelement" => {
                let (t, v) = self.ty_operand(l, fc);
                l.expect(b',');
                let (_, i) = self.ty_operand(l, fc);
                b.code.push(I::ExtElem(t, d, v, i));
            }
            b"insertelement" => {
                let (t, v) = self.ty_operand(l, fc);
                l.expect(b',');
                let (_, e) = self.ty_operand(l, fc);
                l.expect(b',');
                let (_, i) = self.ty_operand(l, fc);
                b.code.push(I::InsElem(t, d, v, e, i));
            }
            b"shufflevector" => {
                let (t, v) = self.ty_operand(l, fc);
                l.expect(b',');
                let (_, w) = self.ty_operand(l, fc);
                l.expect(b',');
                let mt = self.parse_ty(l);
                // mask, possibly with poison
                let mut mk = vec![];
                let n = match self.types[mt as usize] {
                    T::Vec(n, _) => n,
                    _ => l.fail("mask"),
                };
                if l.is(b'<') {
                    l.next();
                    while !l.eat(b'>') {
                        self.parse_ty(l);
                        match l.next() {
                            Tok::N(x) => mk.push(st(x).parse().unwrap()),
                            _ => mk.push(-1),
                        }
                        l.eat(b',');
                    }
                } else {
                    let c = self.parse_const(l, mt);
                    if let V::A(v) = c {
                        for x in v.iter() {
                            if let V::C(k) = x {
                                mk.push(*k as i32);
                            }
                        }
                    }
                }
                assert!(mk.len() == n as usize);
                b.code.push(I::Shuffle(t, d, v, w, mk));
            }
            b"atomicrmw" => {
                l.eatw("volatile");
                let o = match l.next() {
                    Tok::W(w) => match w {
                        b"xchg" => 0,
                        b"add" => 1,
                        b"sub" => 2,
                        b"and" => 3,
                        b"or" => 4,
                        b"xor" => 5,
                        b"umax" => 6,
                        b"umin" => 7,
                        _ => l.fail("rmw"),
                    },
                    _ => l.fail("rmw"),
                };
                let (_, p) = self.ty_operand(l, fc);
                l.expect(b',');
                let (t, v) = self.ty_operand(l, fc);
                b.code.push(I::Rmw(o, t, d, p, v));
            }
            b"cmpxchg" => {
                l.eatw("weak");
                l.eatw("volatile");
                let (_, p) = self.ty_operand(l, fc);
                l.expect(b',');
                let (t, e) = self.ty_operand(l, fc);
                l.expect(b',');
                let (_, n) = self.ty_operand(l, fc);
                b.code.push(I::CmpXchg(t, d, p, e, n));
            }
            b"fence" => b.code.push(I::Nop),
            b"freeze" => {
                let (_, v) = self.ty_operand(l, fc);
                b.code.push(I::Copy(d, v));
            }
            b"landingpad" | b"resume" => {
                b.code.push(I::Unsup(st(op)));
                // following clause lines (catch/cleanup/filter)
                l.skip_line();
                while l.isw("cleanup") || l.isw("catch") || l.isw("filter") {
                    l.next();
                    l.skip_line();
                }
                // compensate for the caller's skip_line on a fresh line
                l.nl = true;
            }
            _ => {
                b.code.push(I::Unsup(st(op)));
            }
        }
    }
}
