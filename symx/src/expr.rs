//! Hash-consed bit-vector expressions over symbolic input bytes.
//! Width 1 expressions double as booleans.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a high, b low
    Extract, // a, low bit in b
    ZExt,
    SExt,
    // IEEE float operations, w = result width; c = operand width
    FAdd,
    FSub,
    FMul,
    FDiv,
    FNeg,
    FOeq,
    FOlt,
    FOle,
    FUno,
    UIToFP,
    SIToFP,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub deps: Vec<u128>,
    consts: Vec<u128>,
    const_ix: HashMap<u128, u32>,
    ix: HashMap<Node, E>,
    leafy: Vec<u16>, // number of constant leaves if this is an ITE tree with constant leaves, else 0
    // evaluation scratch
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur_stamp: u32,
    booltab: HashMap<E, [u64; 4]>,
    valtab: HashMap<E, std::rc::Rc<Vec<u128>>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold_bin(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            (sext(x, w) >> s) as u128
        }
        _ => unreachable!(),
    }) & m
}

pub fn fold_cmp(op: Op, w: u32, x: u128, y: u128) -> bool {
    match op {
        Op::Eq => x == y,
        Op::Ult => x < y,
        Op::Ule => x <= y,
        Op::Slt => sext(x, w) < sext(y, w),
        Op::Sle => sext(x, w) <= sext(y, w),
        _ => unreachable!(),
    }
}

pub fn fold_float(op: Op, w: u32, cw: u32, x: u128, y: u128) -> u128 {
    let f32v = |v: u128| f32::from_bits(v as u32);
    let f64v = |v: u128| f64::from_bits(v as u64);
    macro_rules! ar {
        ($o:tt) => {
            if w == 32 { (f32v(x) $o f32v(y)).to_bits() as u128 } else { (f64v(x) $o f64v(y)).to_bits() as u128 }
        };
    }
    macro_rules! cm {
        ($o:tt) => {
            if cw == 32 { (f32v(x) $o f32v(y)) as u128 } else { (f64v(x) $o f64v(y)) as u128 }
        };
    }
    match op {
        Op::FAdd => ar!(+),
        Op::FSub => ar!(-),
        Op::FMul => ar!(*),
        Op::FDiv => ar!(/),
        Op::FNeg => x ^ (1u128 << (w - 1)),
        Op::FOeq => cm!(==),
        Op::FOlt => cm!(<),
        Op::FOle => cm!(<=),
        Op::FUno => {
            if cw == 32 {
                (f32v(x).is_nan() || f32v(y).is_nan()) as u128
            } else {
                (f64v(x).is_nan() || f64v(y).is_nan()) as u128
            }
        }
        Op::UIToFP => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::SIToFP => {
            let s = sext(x, cw);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        Op::FPExt => (f32v(x) as f64).to_bits() as u128,
        Op::FPTrunc => (f64v(x) as f32).to_bits() as u128,
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            deps: vec![],
            consts: vec![],
            const_ix: HashMap::new(),
            ix: HashMap::new(),
            leafy: vec![],
            stamp: vec![],
            val: vec![],
            cur_stamp: 0,
            booltab: HashMap::new(),
            valtab: HashMap::new(),
        }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.ix.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let d = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.a,
            Op::Ite => self.deps[n.a as usize] | self.deps[n.b as usize] | self.deps[n.c as usize],
            Op::Extract | Op::ZExt | Op::SExt | Op::FNeg | Op::UIToFP | Op::SIToFP | Op::FPExt | Op::FPTrunc => {
                self.deps[n.a as usize]
            }
            _ => self.deps[n.a as usize] | self.deps[n.b as usize],
        };
        let l = match n.op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.leafy[n.b as usize], self.leafy[n.c as usize]);
                if x == 0 || y == 0 {
                    0
                } else {
                    x.saturating_add(y).min(60000)
                }
            }
            _ => 0,
        };
        self.nodes.push(n);
        self.deps.push(d);
        self.leafy.push(l);
        self.stamp.push(0);
        self.val.push(0);
        self.ix.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        let ci = match self.const_ix.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.const_ix.insert(v, i);
                i
            }
        };
        self.intern(Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0 })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, k: u32) -> E {
        assert!(k < 128, "more than 128 symbolic bytes on a path");
        self.intern(Node { op: Op::Var, w: 8, a: k, b: 0, c: 0 })
    }
    fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn not(&mut self, e: E) -> E {
        debug_assert!(self.w(e) == 1);
        let n = self.n(e);
        match n.op {
            // !(a<b) -> b<=a : canonical
            Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.t();
        self.bin(Op::Xor, e, one)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    fn map_leaves1(&mut self, e: E, f: &dyn Fn(&mut Ctx, E) -> E) -> E {
        let n = self.n(e);
        if n.op == Op::Ite {
            let x = self.map_leaves1(n.b, f);
            let y = self.map_leaves1(n.c, f);
            self.ite(n.a, x, y)
        } else {
            f(self, e)
        }
    }
    fn is_tree(&self, e: E) -> bool {
        let l = self.leafy[e as usize];
        l > 1 && l <= 300
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let (mut a, mut b) = (a, b);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c(fold_bin(op, w, x, y), w);
        }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if commut {
            // constants to the right; otherwise order by id
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        if let Some(k) = self.as_const(b) {
            let m = mask(w);
            match op {
                Op::Add | Op::Or | Op::Xor | Op::Sub | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::Mul | Op::And if k == 0 => return b,
                Op::Mul | Op::UDiv if k == 1 => return a,
                Op::URem if k == 1 => return self.c(0, w),
                Op::And if k == m => return a,
                Op::Or if k == m => return b,
                Op::Sub => {
                    let nk = self.c(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, nk);
                }
                _ => {}
            }
            if self.is_tree(a) {
                return self.map_leaves1(a, &move |cx, l| cx.bin(op, l, b));
            }
            let n = self.n(a);
            match op {
                Op::Add => {
                    if n.op == Op::Add {
                        if let Some(k2) = self.as_const(n.b) {
                            let kk = self.c(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, n.a, kk);
                        }
                    }
                }
                Op::Xor => {
                    if n.op == Op::Xor {
                        if let Some(k2) = self.as_const(n.b) {
                            let kk = self.c(k ^ k2, w);
                            return self.bin(Op::Xor, n.a, kk);
                        }
                    }
                    if w == 1 && k == 1 {
                        // negation of a comparison is canonicalised in not()
                        match n.op {
                            Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
                            Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
                            Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
                            Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
                Op::And => {
                    // low mask -> zext(extract)
                    if (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        let lo = self.extract(a, 0, bits);
                        return self.zext(lo, w);
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let kk = self.c(k & mask(iw), iw);
                        let inner = self.bin(Op::And, n.a, kk);
                        return self.zext(inner, w);
                    }
                }
                Op::Or => {
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if k & mask(iw) == k {
                            let kk = self.c(k, iw);
                            let inner = self.bin(Op::Or, n.a, kk);
                            return self.zext(inner, w);
                        }
                    }
                }
                Op::Mul => {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                Op::UDiv => {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
                Op::URem => {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
                Op::Shl => {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(hi, z);
                }
                Op::LShr => {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                Op::AShr => {
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let x = self.extract(a, k, w - k);
                    return self.sext_to(x, w);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.c(0, w),
                _ => {}
            }
        }
        if op == Op::Sub {
            // (x + k) - x etc.
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Add {
                if na.a == b {
                    return na.b;
                }
                if na.b == b {
                    return na.a;
                }
            }
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                return self.bin(Op::Sub, na.b, nb.b);
            }
        }
        if let Some(k) = self.as_const(a) {
            if self.is_tree(b) {
                let _ = k;
                let a2 = a;
                return self.map_leaves1(b, &move |cx, l| cx.bin(op, a2, l));
            }
        }
        if op == Op::Or || op == Op::Add || op == Op::Xor {
            // disjoint concat shapes: concat(hi, 0_k) | zext(lo) with width(lo) <= k
            if let Some(r) = self.disjoint_join(a, b).or_else(|| self.disjoint_join(b, a)) {
                return r;
            }
        }
        if op == Op::And && w == 1 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(1) {
                return self.c(0, 1);
            }
            if nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(1) {
                return self.c(0, 1);
            }
        }
        self.intern(Node { op, w: w as u16, a, b, c: 0 })
    }
    /// a = concat(hi, 0_k), b = zext(lo), width(lo) <= k
    fn disjoint_join(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat && nb.op == Op::ZExt && self.as_const(na.b) == Some(0) {
            let k = self.w(na.b);
            let lw = self.w(nb.a);
            if lw <= k {
                let lo = self.zext(nb.a, k);
                return Some(self.concat(na.a, lo));
            }
        }
        None
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = fold_cmp(op, w, x, y);
            return self.c(r as u128, 1);
        }
        if a == b {
            return self.c(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1);
        }
        let (mut a, mut b) = (a, b);
        if op == Op::Eq && (self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        // zext/zext
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let op2 = match op {
                Op::Slt => Op::Ult,
                Op::Sle => Op::Ule,
                o => o,
            };
            return self.cmp(op2, na.a, nb.a);
        }
        if let Some(k) = self.as_const(b) {
            if self.is_tree(a) {
                return self.map_leaves1(a, &move |cx, l| cx.cmp(op, l, b));
            }
            match op {
                Op::Ult if k == 0 => return self.c(0, 1),
                Op::Ult if k == 1 => {
                    let z = self.c(0, w);
                    return self.cmp(Op::Eq, a, z);
                }
                Op::Ule if k == mask(w) => return self.c(1, 1),
                Op::Ule if k == 0 => return self.cmp(Op::Eq, a, b),
                _ => {}
            }
            if op == Op::Eq && w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    let fits = k <= mask(iw);
                    match op {
                        Op::Eq => {
                            if !fits {
                                return self.c(0, 1);
                            }
                            let kk = self.c(k, iw);
                            return self.cmp(op, na.a, kk);
                        }
                        Op::Ult | Op::Ule => {
                            if !fits {
                                return self.c(1, 1);
                            }
                            let kk = self.c(k, iw);
                            return self.cmp(op, na.a, kk);
                        }
                        Op::Slt | Op::Sle => {
                            if sext(k, w) < 0 {
                                return self.c(0, 1);
                            }
                            if !fits {
                                return self.c(1, 1);
                            }
                            let kk = self.c(k, iw);
                            return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, na.a, kk);
                        }
                        _ => {}
                    }
                }
                Op::Concat if op == Op::Eq => {
                    let lw = self.w(na.b);
                    let hw = self.w(na.a);
                    let kh = self.c(k >> lw, hw);
                    let kl = self.c(k, lw);
                    let x = self.cmp(Op::Eq, na.a, kh);
                    if self.as_const(x) == Some(0) {
                        return x;
                    }
                    let y = self.cmp(Op::Eq, na.b, kl);
                    return self.and(x, y);
                }
                Op::Add if op == Op::Eq => {
                    if let Some(k2) = self.as_const(na.b) {
                        let kk = self.c(k.wrapping_sub(k2), w);
                        return self.cmp(Op::Eq, na.a, kk);
                    }
                }
                Op::Xor if op == Op::Eq => {
                    if let Some(k2) = self.as_const(na.b) {
                        let kk = self.c(k ^ k2, w);
                        return self.cmp(Op::Eq, na.a, kk);
                    }
                    if k == 0 {
                        return self.cmp(Op::Eq, na.a, na.b);
                    }
                }
                Op::Sub if op == Op::Eq && k == 0 => {
                    return self.cmp(Op::Eq, na.a, na.b);
                }
                _ => {}
            }
        }
        if let Some(k) = self.as_const(a) {
            if self.is_tree(b) {
                let a2 = a;
                return self.map_leaves1(b, &move |cx, l| cx.cmp(op, a2, l));
            }
            match op {
                Op::Ult if k == mask(w) => return self.c(0, 1),
                Op::Ule if k == 0 => return self.c(1, 1),
                _ => {}
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                let fits = k <= mask(iw);
                match op {
                    Op::Ult | Op::Ule => {
                        if !fits {
                            return self.c(0, 1);
                        }
                        let kk = self.c(k, iw);
                        return self.cmp(op, kk, nb.a);
                    }
                    Op::Slt | Op::Sle => {
                        if sext(k, w) < 0 {
                            return self.c(1, 1);
                        }
                        if !fits {
                            return self.c(0, 1);
                        }
                        let kk = self.c(k, iw);
                        return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, kk, nb.a);
                    }
                    _ => {}
                }
            }
        }
        self.intern(Node { op, w: 1, a, b, c: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && nc.w == 1 && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        // ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        self.intern(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(lo)) {
            return self.c((x << lw) | y, w);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, w);
        }
        // concat(extract(x, lo..top), x_low) where lo is a plain prefix of something
        if nh.op == Op::Extract && nl.op == Op::Concat {
            // concat(extract(y,k+..), concat(extract(y,k), z))
            let m = self.n(nl.a);
            if m.op == Op::Extract && m.a == nh.a && nh.b == m.b + m.w as u32 {
                let e = self.extract(nh.a, m.b, hw + m.w as u32);
                return self.concat(e, nl.b);
            }
        }
        self.intern(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.c(k >> lo, w);
        }
        if self.is_tree(a) {
            return self.map_leaves1(a, &move |cx, l| cx.extract(l, lo, w));
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext_to(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(w >= aw);
        if aw == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.c(k, w);
        }
        if self.is_tree(a) {
            return self.map_leaves1(a, &move |cx, l| cx.zext(l, w));
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.intern(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn sext_to(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.c(sext(k, aw) as u128, w);
        }
        if self.is_tree(a) {
            return self.map_leaves1(a, &move |cx, l| cx.sext_to(l, w));
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::SExt {
            return self.sext_to(n.a, w);
        }
        self.intern(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0 })
    }
    /// float operation; `w` result width, operand width derived from a
    pub fn fop(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        let cw = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c(fold_float(op, w, cw, x, y), w);
        }
        self.intern(Node { op, w: w as u16, a, b, c: cw })
    }

    /// Evaluate under a model: model[k] is the value of byte variable k.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        if let Some(k) = self.as_const(e) {
            return k;
        }
        self.cur_stamp += 1;
        self.eval_rec(e, model)
    }
    /// Evaluate several expressions under the same model, sharing the memo table.
    pub fn eval_all(&mut self, es: &[E], model: &[u8]) -> bool {
        self.cur_stamp += 1;
        for &e in es {
            if self.eval_rec(e, model) == 0 {
                return false;
            }
        }
        true
    }
    fn eval_rec(&mut self, e: E, m: &[u8]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.cur_stamp {
            return self.val[i];
        }
        let n = self.nodes[i];
        let w = n.w as u32;
        let v = match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return m.get(n.a as usize).copied().unwrap_or(0) as u128,
            Op::Ite => {
                if self.eval_rec(n.a, m) == 1 {
                    self.eval_rec(n.b, m)
                } else {
                    self.eval_rec(n.c, m)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_rec(n.a, m) << lw) | self.eval_rec(n.b, m)
            }
            Op::Extract => (self.eval_rec(n.a, m) >> n.b) & mask(w),
            Op::ZExt => self.eval_rec(n.a, m),
            Op::SExt => {
                let iw = self.w(n.a);
                (sext(self.eval_rec(n.a, m), iw) as u128) & mask(w)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let iw = self.w(n.a);
                let x = self.eval_rec(n.a, m);
                let y = self.eval_rec(n.b, m);
                fold_cmp(n.op, iw, x, y) as u128
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FNeg | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno
            | Op::UIToFP | Op::SIToFP | Op::FPExt | Op::FPTrunc => {
                let x = self.eval_rec(n.a, m);
                let y = self.eval_rec(n.b, m);
                fold_float(n.op, w, n.c, x, y)
            }
            _ => {
                let x = self.eval_rec(n.a, m);
                let y = self.eval_rec(n.b, m);
                fold_bin(n.op, w, x, y)
            }
        };
        self.stamp[i] = self.cur_stamp;
        self.val[i] = v;
        v
    }
    /// truth table of a boolean expression that depends on exactly one byte variable
    pub fn booltab(&mut self, e: E, var: u32) -> [u64; 4] {
        if let Some(t) = self.booltab.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let mut m = vec![0u8; var as usize + 1];
        for v in 0..256usize {
            m[var as usize] = v as u8;
            if self.eval(e, &m) == 1 {
                t[v >> 6] |= 1 << (v & 63);
            }
        }
        self.booltab.insert(e, t);
        t
    }
    /// the value for each value of the only variable
    pub fn valtab(&mut self, e: E, var: u32) -> std::rc::Rc<Vec<u128>> {
        if let Some(t) = self.valtab.get(&e) {
            return t.clone();
        }
        let mut m = vec![0u8; 128];
        let t: Vec<u128> = (0..256usize)
            .map(|v| {
                m[var as usize] = v as u8;
                self.eval(e, &m)
            })
            .collect();
        let t = std::rc::Rc::new(t);
        self.valtab.insert(e, t.clone());
        t
    }
    pub fn single_var(&self, e: E) -> Option<u32> {
        let d = self.deps[e as usize];
        if d != 0 && d & (d - 1) == 0 {
            Some(d.trailing_zeros())
        } else {
            None
        }
    }
    /// v in set (given as a 256-bit table) as an expression over the byte variable
    pub fn in_set(&mut self, x: E, tab: &[u64; 4]) -> E {
        // union of ranges
        let mut r = self.f();
        let mut i = 0usize;
        let has = |v: usize| tab[v >> 6] >> (v & 63) & 1 == 1;
        while i < 256 {
            if has(i) {
                let s = i;
                while i < 256 && has(i) {
                    i += 1;
                }
                let e = i - 1;
                let c = if s == e {
                    let k = self.c(s as u128, 8);
                    self.cmp(Op::Eq, x, k)
                } else {
                    let ks = self.c(s as u128, 8);
                    let ke = self.c(e as u128, 8);
                    let a = self.cmp(Op::Ule, ks, x);
                    let b = self.cmp(Op::Ule, x, ke);
                    self.and(a, b)
                };
                r = self.or(r, c);
            } else {
                i += 1;
            }
        }
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return format!("#{}", e);
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("b{}", n.a),
            Op::Extract => format!("({})[{}+:{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
