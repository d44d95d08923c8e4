//! Simplification of conditions by integer arithmetic: under the known domains of the symbolic
//! bytes, an expression is written as k + sum(c_i * x_i) over integers (congruent to the bit
//! vector modulo 2^w). Comparisons of such sums are decided by their ranges or rewritten to
//! small comparisons for the solver. The result is equivalent to the input for all bytes that
//! are in the domains.
use crate::expr::*;
use std::cmp::Ordering;
use std::collections::HashMap;

/// 256-bit two's complement integer. Callers keep magnitudes below 2^200.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct I {
    h: i128,
    l: u128,
}
impl I {
    pub const Z: I = I { h: 0, l: 0 };
    pub fn u(v: u128) -> I {
        I { h: 0, l: v }
    }
    pub fn pow2(w: u32) -> I {
        if w < 128 { I { h: 0, l: 1 << w } } else { I { h: 1 << (w - 128), l: 0 } }
    }
    pub fn add(self, o: I) -> I {
        let (l, c) = self.l.overflowing_add(o.l);
        I { h: self.h.wrapping_add(o.h).wrapping_add(c as i128), l }
    }
    pub fn neg(self) -> I {
        let (l, c) = (!self.l).overflowing_add(1);
        I { h: (!self.h).wrapping_add(c as i128), l }
    }
    pub fn sub(self, o: I) -> I {
        self.add(o.neg())
    }
    pub fn is_neg(self) -> bool {
        self.h < 0
    }
    pub fn abs(self) -> I {
        if self.is_neg() { self.neg() } else { self }
    }
    pub fn bits(self) -> u32 {
        let a = self.abs();
        if a.h != 0 { 256 - a.h.leading_zeros() } else { 128 - a.l.leading_zeros() }
    }
    /// None if the result could get too big
    pub fn mul(self, o: I) -> Option<I> {
        if self.bits() + o.bits() > 200 {
            return None;
        }
        let (a, b) = (self.abs(), o.abs());
        let mut r = I::Z;
        let mut x = a;
        let mut i = 0;
        while i < b.bits() {
            if b.bit(i) {
                r = r.add(x);
            }
            x = x.add(x);
            i += 1;
        }
        Some(if self.is_neg() != o.is_neg() { r.neg() } else { r })
    }
    fn bit(self, i: u32) -> bool {
        if i < 128 { self.l >> i & 1 == 1 } else { self.h >> (i - 128) & 1 == 1 }
    }
    /// floor division by a positive number
    pub fn div(self, d: I) -> (I, I) {
        let a = self.abs();
        let (mut q, mut r) = (I::Z, I::Z);
        let n = a.bits();
        for i in (0..n).rev() {
            r = r.add(r);
            if a.bit(i) {
                r = r.add(I::u(1));
            }
            q = q.add(q);
            if r.cmp(&d) != Ordering::Less {
                r = r.sub(d);
                q = q.add(I::u(1));
            }
        }
        if self.is_neg() {
            q = q.neg();
            r = r.neg();
            if r != I::Z {
                q = q.sub(I::u(1));
                r = r.add(d);
            }
        }
        (q, r)
    }
    pub fn cmp(&self, o: &I) -> Ordering {
        self.h.cmp(&o.h).then(self.l.cmp(&o.l))
    }
    fn lt(self, o: I) -> bool {
        self.cmp(&o) == Ordering::Less
    }
    fn gcd(a: I, b: I) -> I {
        let (mut a, mut b) = (a.abs(), b.abs());
        while b != I::Z {
            let r = a.div(b).1;
            a = b;
            b = r;
        }
        a
    }
    fn min(self, o: I) -> I {
        if self.lt(o) { self } else { o }
    }
    fn max(self, o: I) -> I {
        if self.lt(o) { o } else { self }
    }
}

#[derive(Clone)]
pub struct Form {
    k: I,
    /// atom, coefficient, range of the atom; sorted by atom
    t: Vec<(E, I, I, I)>,
    lo: I,
    hi: I,
}
impl Form {
    fn new(k: I, t: Vec<(E, I, I, I)>) -> Form {
        let (mut lo, mut hi) = (k, k);
        for (_, c, l, h) in &t {
            let (x, y) = (c.mul(*l).unwrap(), c.mul(*h).unwrap());
            lo = lo.add(x.min(y));
            hi = hi.add(x.max(y));
        }
        Form { k, t, lo, hi }
    }
    fn cst(k: I) -> Form {
        Form { k, t: vec![], lo: k, hi: k }
    }
    fn atom(e: E, lo: I, hi: I) -> Form {
        if lo == hi { Form::cst(lo) } else { Form::new(I::Z, vec![(e, I::u(1), lo, hi)]) }
    }
    fn small(&self) -> bool {
        self.lo.bits() < 190 && self.hi.bits() < 190 && self.t.len() <= 64
    }
    fn add(&self, o: &Form, sub: bool) -> Form {
        let mut t = vec![];
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j == o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else {
                let mut x = o.t[j];
                if sub {
                    x.1 = x.1.neg();
                }
                if i < self.t.len() && self.t[i].0 == x.0 {
                    x.1 = x.1.add(self.t[i].1);
                    i += 1;
                }
                j += 1;
                if x.1 != I::Z {
                    t.push(x);
                }
            }
        }
        Form::new(if sub { self.k.sub(o.k) } else { self.k.add(o.k) }, t)
    }
    fn scale(&self, k: I) -> Option<Form> {
        if k == I::Z {
            return Some(Form::cst(I::Z));
        }
        if self.lo.bits().max(self.hi.bits()) + k.bits() > 190 {
            return None;
        }
        let mut t = self.t.clone();
        for x in &mut t {
            x.1 = x.1.mul(k)?;
            if x.1.bits() + x.2.bits().max(x.3.bits()) > 195 {
                return None;
            }
        }
        Some(Form::new(self.k.mul(k)?, t))
    }
    fn shift(&self, d: I) -> Form {
        Form { k: self.k.add(d), t: self.t.clone(), lo: self.lo.add(d), hi: self.hi.add(d) }
    }
}

pub struct Lin<'a> {
    cx: &'a mut Ctx,
    dom: &'a [[u64; 4]],
    forms: HashMap<E, Form>,
    conds: HashMap<E, E>,
    reps: HashMap<(u32, Vec<u128>), E>,
    /// known bounds of sums (first coefficient positive, greatest common divisor 1)
    bounds: HashMap<Vec<(E, I)>, (Option<I>, Option<I>)>,
}

impl<'a> Lin<'a> {
    pub fn new(cx: &'a mut Ctx, dom: &'a [[u64; 4]]) -> Lin<'a> {
        Lin { cx, dom, forms: HashMap::new(), conds: HashMap::new(), reps: HashMap::new(), bounds: HashMap::new() }
    }
    pub fn single(&self, e: E) -> bool {
        self.cx.single_var(e).is_some()
    }
    /// for diagnostics
    pub fn explain(&mut self, e: E) -> Option<String> {
        let n = self.cx.nodes[e as usize];
        match n.op {
            Op::Xor | Op::And | Op::Or => self.explain(n.a),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle if !self.single(e) => {
                let a = self.form(n.a);
                let b = self.form(n.b);
                let sh = |cx: &Ctx, f: &Form| {
                    f.t.iter().map(|t| format!("{}*{:x?}.{:x}", cx.show(t.0, 4), t.1.h, t.1.l)).collect::<Vec<_>>().join(" + ") + &format!(" + {:x}.{:x}", f.k.h, f.k.l)
                };
                Some(format!("{}\n   ~ {}", sh(self.cx, &a), sh(self.cx, &b)))
            }
            _ => None,
        }
    }
    /// f = g * sum + k, where g may be negative
    fn sum(f: &Form) -> (I, Vec<(E, I)>) {
        let mut g = I::Z;
        for x in &f.t {
            g = I::gcd(g, x.1);
        }
        if f.t[0].1.is_neg() {
            g = g.neg();
        }
        let v = f.t.iter().map(|x| (x.0, if g.is_neg() { x.1.neg().div(g.neg()).0 } else { x.1.div(g).0 })).collect();
        (g, v)
    }
    /// the range of f under the known bounds
    fn tight(&self, f: &Form) -> (I, I) {
        if f.t.is_empty() || self.bounds.is_empty() {
            return (f.lo, f.hi);
        }
        let (g, v) = Self::sum(f);
        let (mut lo, mut hi) = (f.lo, f.hi);
        if let Some((l, h)) = self.bounds.get(&v) {
            let (l, h) = if g.is_neg() { (h, l) } else { (l, h) };
            if let Some(x) = l.and_then(|l| l.mul(g)) {
                lo = lo.max(x.add(f.k));
            }
            if let Some(x) = h.and_then(|h| h.mul(g)) {
                hi = hi.min(x.add(f.k));
            }
        }
        if hi.lt(lo) {
            return (f.lo, f.hi); // contradictory assumptions: leave it to the solver
        }
        (lo, hi)
    }
    /// what follows may rely on e
    fn assume(&mut self, e: E) {
        let n = self.cx.nodes[e as usize];
        match n.op {
            Op::And if n.w == 1 => {
                self.assume(n.a);
                self.assume(n.b);
            }
            Op::Xor if n.w == 1 && self.cx.as_const(n.b) == Some(1) => {
                let m = self.cx.nodes[n.a as usize];
                if m.op == Op::Or {
                    let x = self.cx.not(m.a);
                    let y = self.cx.not(m.b);
                    self.assume(x);
                    self.assume(y);
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                if let Some(d) = self.less(e) {
                    if d.t.is_empty() {
                        return;
                    }
                    let (g, v) = Self::sum(&d);
                    let b = self.bounds.entry(v).or_insert((None, None));
                    // g * sum + k < 0
                    if g.is_neg() {
                        let l = d.k.div(g.neg()).0.add(I::u(1));
                        b.0 = Some(b.0.map_or(l, |o| o.max(l)));
                    } else {
                        let h = d.k.add(I::u(1)).neg().div(g).0;
                        b.1 = Some(b.1.map_or(h, |o| o.min(h)));
                    }
                }
            }
            _ => {}
        }
    }
    /// rewrites a list of conditions, where each may rely on those before it
    pub fn list(&mut self, all: &[E]) -> Vec<E> {
        let mut r = vec![];
        for &e in all {
            if self.single(e) {
                r.push(e);
            } else {
                r.push(self.cond(e));
                self.assume(e);
                self.conds.clear();
            }
        }
        r
    }
    /// d with: e if and only if d < 0, for a comparison
    fn less(&mut self, e: E) -> Option<Form> {
        let n = self.cx.nodes[e as usize];
        let (a, b) = match n.op {
            Op::Ult | Op::Ule => (self.unsigned(n.a), self.unsigned(n.b)),
            _ => (self.signed(n.a)?, self.signed(n.b)?),
        };
        let d = a.add(&b, true);
        Some(if matches!(n.op, Op::Ule | Op::Sle) { d.shift(I::u(1).neg()) } else { d })
    }
    fn range(&self, x: u32) -> (I, I) {
        let d = self.dom[x as usize];
        let lo = (0..256).find(|&v| d[v >> 6] >> (v & 63) & 1 == 1).unwrap_or(0);
        let hi = (0..256).rev().find(|&v| d[v >> 6] >> (v & 63) & 1 == 1).unwrap_or(255);
        (I::u(lo as u128), I::u(hi as u128))
    }
    fn opaque(&self, e: E) -> Form {
        let w = self.cx.w(e);
        Form::atom(e, I::Z, I::pow2(w).sub(I::u(1)))
    }
    /// the form of the unsigned value
    fn unsigned(&mut self, e: E) -> Form {
        let w = self.cx.w(e);
        let f = self.form(e);
        self.window(e, f, I::Z, w)
    }
    fn signed(&mut self, e: E) -> Option<Form> {
        let w = self.cx.w(e);
        let f = self.form(e);
        let base = I::pow2(w - 1).neg();
        let (lo, hi) = self.tight(&f);
        let m = lo.sub(base).div(I::pow2(w)).0;
        let n = hi.sub(base).div(I::pow2(w)).0;
        if m != n {
            return None;
        }
        Some(f.shift(m.mul(I::pow2(w))?.neg()))
    }
    fn window(&mut self, e: E, f: Form, base: I, w: u32) -> Form {
        let (lo, hi) = self.tight(&f);
        let m = lo.sub(base).div(I::pow2(w)).0;
        let n = hi.sub(base).div(I::pow2(w)).0;
        if m != n {
            return self.opaque(e);
        }
        match m.mul(I::pow2(w)) {
            Some(d) => f.shift(d.neg()),
            None => self.opaque(e),
        }
    }
    /// a function of a single byte: linear if it is so on the domain, otherwise an atom that
    /// stands for all expressions with the same values on the domain
    fn table(&mut self, e: E, x: u32) -> Form {
        let t = self.cx.valtab(e, x);
        let d = self.dom[x as usize];
        let w = self.cx.w(e);
        let vals: Vec<(u128, u128)> = (0..256usize).filter(|&v| d[v >> 6] >> (v & 63) & 1 == 1).map(|v| (v as u128, t[v])).collect();
        if vals.is_empty() {
            return self.opaque(e);
        }
        let off = vals[0].1.wrapping_sub(vals[0].0) & mask(w);
        if vals.iter().all(|(v, y)| y.wrapping_sub(*v) & mask(w) == off) {
            let (lo, hi) = self.range(x);
            let v = self.cx.var(x);
            return Self::normal(Form::atom(v, lo, hi).shift(I::u(off)), w);
        }
        let key: Vec<u128> = vals.iter().map(|v| v.1).collect();
        let lo = *key.iter().min().unwrap();
        let hi = *key.iter().max().unwrap();
        let rep = *self.reps.entry((x, key)).or_insert(e);
        Form::atom(rep, I::u(lo), I::u(hi))
    }
    fn form(&mut self, e: E) -> Form {
        if let Some(f) = self.forms.get(&e) {
            return f.clone();
        }
        let n = self.cx.nodes[e as usize];
        let w = n.w as u32;
        if !matches!(n.op, Op::Const | Op::Var | Op::Add | Op::Sub | Op::ZExt | Op::Mul) && w > 1 {
            if let Some(x) = self.cx.single_var(e) {
                let f = self.table(e, x);
                self.forms.insert(e, f.clone());
                return f;
            }
        }
        let f = match n.op {
            Op::Const => Some(Form::cst(I::u(self.cx.as_const(e).unwrap()))),
            Op::Var => {
                let (lo, hi) = self.range(n.a);
                Some(Form::atom(e, lo, hi))
            }
            Op::Add | Op::Sub => {
                let a = self.form(n.a);
                let b = self.form(n.b);
                Some(a.add(&b, n.op == Op::Sub))
            }
            Op::Mul => {
                let a = self.form(n.a);
                let b = self.form(n.b);
                if b.t.is_empty() {
                    a.scale(b.k)
                } else if a.t.is_empty() {
                    b.scale(a.k)
                } else {
                    None
                }
            }
            Op::Concat => {
                let lw = self.cx.w(n.b);
                // x[lw..] on top of the low bits of the same x, which were simplified on their own
                let na = self.cx.nodes[n.a as usize];
                if na.op == Op::Extract && na.b == lw {
                    let x = self.form(na.a);
                    let y = self.form(n.b);
                    let d = x.add(&y, true);
                    let m = I::pow2(lw);
                    if d.k.div(m).1 == I::Z && d.t.iter().all(|t| t.1.div(m).1 == I::Z) && x.small() {
                        self.forms.insert(e, x.clone());
                        return x;
                    }
                }
                let hi = self.form(n.a);
                let lo = self.unsigned(n.b);
                hi.scale(I::pow2(lw)).map(|h| h.add(&lo, false))
            }
            Op::ZExt => Some(self.unsigned(n.a)),
            Op::SExt => self.signed(n.a),
            Op::Extract if n.b == 0 => Some(self.form(n.a)),
            Op::Extract => {
                let a = self.unsigned(n.a);
                let d = I::pow2(n.b);
                let (lo, hi) = (a.lo.div(d).0, a.hi.div(d).0);
                if lo == hi {
                    Some(Form::cst(lo))
                } else if hi.lt(I::pow2(w)) {
                    Some(Form::atom(e, lo, hi))
                } else {
                    None
                }
            }
            Op::URem => {
                let a = self.unsigned(n.a);
                let b = self.unsigned(n.b);
                if a.hi.lt(b.lo) {
                    Some(a)
                } else if b.t.is_empty() && b.k != I::Z {
                    Some(Form::atom(e, I::Z, b.k.sub(I::u(1))))
                } else {
                    None
                }
            }
            Op::UDiv => {
                let a = self.unsigned(n.a);
                let b = self.unsigned(n.b);
                if b.t.is_empty() && b.k != I::Z {
                    Some(Form::atom(e, a.lo.div(b.k).0, a.hi.div(b.k).0))
                } else {
                    None
                }
            }
            Op::And if w > 1 => {
                let a = self.unsigned(n.a);
                let b = self.unsigned(n.b);
                Some(Form::atom(e, I::Z, a.hi.min(b.hi)))
            }
            Op::Ite => {
                let c = self.cond(n.a);
                match self.cx.as_const(c) {
                    Some(1) => Some(self.form(n.b)),
                    Some(_) => Some(self.form(n.c)),
                    None => {
                        let a = self.unsigned(n.b);
                        let b = self.unsigned(n.c);
                        Some(Form::atom(e, a.lo.min(b.lo), a.hi.max(b.hi)))
                    }
                }
            }
            _ => None,
        };
        let f = match f {
            Some(f) if f.small() => Self::normal(f, w),
            _ => self.opaque(e),
        };
        self.forms.insert(e, f.clone());
        f
    }
    /// the representative modulo 2^w with coefficients and lower bound in the signed range
    fn normal(f: Form, w: u32) -> Form {
        let (h, m) = (I::pow2(w - 1), I::pow2(w));
        let wrap = |v: I| {
            if v.lt(h) && !v.lt(h.neg()) { v } else { v.add(h).div(m).1.sub(h) }
        };
        let mut f = f;
        if f.t.iter().any(|t| wrap(t.1) != t.1) {
            let t = f.t.iter().map(|t| (t.0, wrap(t.1), t.2, t.3)).filter(|t| t.1 != I::Z).collect();
            f = Form::new(f.k, t);
        }
        let d = wrap(f.lo).sub(f.lo);
        if d == I::Z { f } else { f.shift(d) }
    }
    /// sum of the terms with coefficients c (all positive) plus k as a bit vector of width w
    fn build(&mut self, t: &[(E, I)], k: I, w: u32) -> E {
        let mut r = self.cx.c(k.l, w);
        for (e, c) in t {
            let ew = self.cx.w(*e);
            let x = if ew < w {
                self.cx.zext(*e, w)
            } else if ew > w {
                self.cx.extract(*e, 0, w) // its value fits
            } else {
                *e
            };
            let k = self.cx.c(c.l, w);
            let x = self.cx.bin(Op::Mul, x, k);
            r = self.cx.bin(Op::Add, r, x);
        }
        r
    }
    /// d < 0, d == 0 over the integers
    fn integer(&mut self, d: &Form, eq: bool) -> Option<E> {
        let (lo, hi) = self.tight(d);
        if eq {
            if lo.is_neg() == false && lo != I::Z || hi.is_neg() {
                return Some(self.cx.f());
            }
            if d.t.is_empty() {
                return Some(if d.k == I::Z { self.cx.t() } else { self.cx.f() });
            }
        } else {
            if hi.is_neg() {
                return Some(self.cx.t());
            }
            if !lo.is_neg() {
                return Some(self.cx.f());
            }
        }
        let mut g = I::Z;
        for x in &d.t {
            g = I::gcd(g, x.1);
        }
        // sum(c x) + k < 0  <=>  sum(c/g x) < ceil(-k/g) ;  == 0 <=> sum(c/g x) == -k/g
        let nk = d.k.neg();
        let (q, r) = nk.div(g);
        let rhs = if eq {
            if r != I::Z {
                return Some(self.cx.f());
            }
            q
        } else if r != I::Z {
            q.add(I::u(1))
        } else {
            q
        };
        let (mut p, mut n) = (vec![], vec![]);
        let (mut ph, mut nh) = (I::Z, I::Z);
        for (e, c, _, h) in &d.t {
            let c = c.div(g).0;
            if c.is_neg() {
                n.push((*e, c.neg()));
                nh = nh.add(c.neg().mul(*h)?);
            } else {
                p.push((*e, c));
                ph = ph.add(c.mul(*h)?);
            }
        }
        let (mut pk, mut nk) = (I::Z, I::Z);
        if rhs.is_neg() {
            pk = rhs.neg();
            ph = ph.add(pk);
        } else {
            nk = rhs;
            nh = nh.add(nk);
        }
        let w = ph.bits().max(nh.bits()).max(8);
        if w > 128 {
            return None;
        }
        let a = self.build(&p, pk, w);
        let b = self.build(&n, nk, w);
        Some(self.cx.cmp(if eq { Op::Eq } else { Op::Ult }, a, b))
    }
    /// an equivalent condition
    pub fn cond(&mut self, c: E) -> E {
        if let Some(r) = self.conds.get(&c) {
            return *r;
        }
        let n = self.cx.nodes[c as usize];
        let r = match n.op {
            Op::And | Op::Or | Op::Xor => {
                let a = self.cond(n.a);
                let b = self.cond(n.b);
                self.cx.bin(n.op, a, b)
            }
            Op::Eq if self.cx.w(n.a) == 1 => {
                let a = self.cond(n.a);
                let b = self.cond(n.b);
                self.cx.cmp(Op::Eq, a, b)
            }
            Op::Ite => {
                let x = self.cond(n.a);
                let a = self.cond(n.b);
                let b = self.cond(n.c);
                self.cx.ite(x, a, b)
            }
            Op::Eq => {
                let w = self.cx.w(n.a);
                let a = self.form(n.a);
                let b = self.form(n.b);
                let d = a.add(&b, true);
                // the multiples of 2^w that d can be
                let (lo, hi) = self.tight(&d);
                let m = lo.add(I::pow2(w)).sub(I::u(1)).div(I::pow2(w)).0;
                let q = hi.div(I::pow2(w)).0;
                if q.lt(m) {
                    self.cx.f()
                } else if m == q {
                    m.mul(I::pow2(w)).and_then(|k| self.integer(&d.shift(k.neg()), true)).unwrap_or(c)
                } else {
                    c
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => match self.less(c) {
                Some(d) => self.integer(&d, false).unwrap_or(c),
                None => c,
            },
            _ => c,
        };
        self.conds.insert(c, r);
        r
    }
}
