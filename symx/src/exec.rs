//! The symbolic executor: interprets LLVM IR, forking on conditions over symbolic bytes.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::Instant;

/// up to this number of assignments are evaluated before z3 is asked
const SMALL: u64 = 600;

pub const STACK_BASE: u64 = 0x2000_0000;
pub const STACK_SIZE: u64 = 0x0800_0000;
pub const HEAP_BASE: u64 = 0x0400_0000;
pub const HEAP_END: u64 = 0x2000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub sp: u64,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}
pub struct Stk {
    fr: Frame,
    up: Option<Rc<Stk>>,
    depth: u32,
}
impl Drop for Stk {
    fn drop(&mut self) {
        // avoid deep recursion on long chains
        let mut n = self.up.take();
        while let Some(r) = n {
            match Rc::try_unwrap(r) {
                Ok(mut s) => n = s.up.take(),
                Err(_) => break,
            }
        }
    }
}
#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stk: Option<Rc<Stk>>,
    pub mem: Mem,
    pub pcs: Vec<E>,
    pub multi: u128, // variables that occur in constraints over several variables
    pub dom: Vec<[u64; 4]>,
    pub model: Vec<u8>,
    pub nvars: u32,
    pub heap: u64,
    pub steps: u64,
    pub forks: u32,
    pub reached: Vec<std::rc::Rc<str>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub bytes: Vec<u8>,
    pub stack: Vec<String>,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed_away: u64,
    pub instrs: u64,
    pub forks: u64,
    pub fast: u64,
    pub rewritten: u64,
    pub cached: u64,
    pub syntactic: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub checks_const: u64,
    pub loads_sym: u64,
    pub max_forks: u32,
    pub max_vars: u32,
}
pub struct Limits {
    pub max_path_steps: u64,
    pub deadline: Instant,
    pub z3_timeout_ms: u32,
    pub max_violations: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Body,
    Unknown,
    Nop,
    Zero,
    KeyCreate,
    Panic,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memmove,
    Memset,
    Write,
    SymBytes,
    SymAssume,
    SymCheck,
    SymReach,
    SymParam,
    SymConc,
    SymPrint,
    SymIsSym,
    TlAddr,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    OvUAdd,
    OvUSub,
    OvUMul,
    OvSAdd,
    OvSSub,
    OvSMul,
    SatUAdd,
    SatUSub,
    SatSAdd,
    SatSSub,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Expect,
    RedOr,
    RedAnd,
    RedAdd,
    RedUMax,
    RedUMin,
    Pshufb,
    LoadRel,
    Minus1,
    One,
    Syscall,
    Errno,
    FAbs,
    PanicLoc,
    FptoSiSat,
    FptoUiSat,
    FUnary(u8),
}

pub enum End {
    Next,
    Done,
}

pub struct Exec {
    pub m: Module,
    pub cx: Ctx,
    pub z3: Z3,
    ext: Vec<X>,
    pub st: Stats,
    pub lim: Limits,
    pub params: Vec<u64>,
    pub base: Mem,
    pub work: VecDeque<State>,
    pub viol: Vec<Violation>,
    pub incomplete: Vec<String>,
    pub reach: BTreeMap<String, u64>,
    pub checks_seen: BTreeMap<String, u64>,
    pub fn_seen: Vec<u64>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    tabs: HashMap<E, Rc<Vec<u64>>>,
    pub prof_forks: HashMap<(u32, u32), u64>,
    pub prof_z3: HashMap<(u32, u32), u64>,
    pub trace: bool,
    pub xcheck: bool,
    pub xchecks: u64,
    decided: u64,
    cross_s: f64,
    born: Instant,
    errno_addr: u64,
    /// finished paths to replay: the labels they reached, and an assignment
    pub samples: Vec<(String, Vec<u8>)>,
    sample_kinds: std::collections::HashSet<String>,
}

type R<T> = Result<T, Stop>;
pub enum Stop {
    /// path ends (finished, assumption failed, violation recorded)
    Path,
    /// state has moved (jump/return) - continue the main loop without advancing
    Moved,
}

impl Exec {
    pub fn new(m: Module, lim: Limits) -> Exec {
        let mut base = Mem::new();
        base.map(GLOB_BASE, m.glob_end - GLOB_BASE + 64);
        let errno_addr = (m.glob_end + 15) & !15;
        for (a, b) in &m.inits {
            base.write(*a, b);
        }
        let ext = m.funcs.iter().map(|f| classify(f)).collect();
        let n = m.funcs.len();
        let z3 = Z3::new(lim.z3_timeout_ms);
        Exec {
            m,
            cx: Ctx::new(),
            z3,
            ext,
            st: Stats::default(),
            lim,
            params: vec![],
            base,
            work: VecDeque::new(),
            viol: vec![],
            incomplete: vec![],
            reach: BTreeMap::new(),
            checks_seen: BTreeMap::new(),
            fn_seen: vec![0; n],
            cache: HashMap::new(),
            tabs: HashMap::new(),
            prof_forks: HashMap::new(),
            prof_z3: HashMap::new(),
            trace: false,
            xcheck: false,
            xchecks: 0,
            decided: 0,
            cross_s: 0.0,
            born: Instant::now(),
            errno_addr,
            samples: vec![],
            sample_kinds: Default::default(),
        }
    }
    pub fn start(&mut self, entry: &str) -> bool {
        let f = match self.m.fnix.get(entry) {
            Some(&f) if self.m.funcs[f as usize].defined => f,
            _ => return false,
        };
        let mem = self.base.clone();
        let cur = self.new_frame(f, vec![], STACK_BASE);
        self.work.push_back(State {
            cur,
            stk: None,
            mem,
            pcs: vec![],
            multi: 0,
            dom: vec![],
            model: vec![],
            nvars: 0,
            heap: HEAP_BASE,
            steps: 0,
            forks: 0,
            reached: vec![],
        });
        true
    }
    fn new_frame(&mut self, f: u32, args: Vec<V>, sp: u64) -> Frame {
        let fu = &self.m.funcs[f as usize];
        self.fn_seen[f as usize] += 1;
        let mut regs = args;
        regs.resize(fu.nregs as usize, V::C(0));
        Frame { f, blk: 0, pc: 0, regs, sp, dst: None, normal: None }
    }

    // ---------- values ----------
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.cx.c(*x as u128, w),
            V::W(x) => self.cx.c(**x, w),
            V::S(e) => {
                debug_assert!(self.cx.w(*e) == w, "width {} vs {}", self.cx.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.cx.as_const(e) {
            Some(k) => V::mk(k, self.cx.w(e)),
            None => V::S(e),
        }
    }
    fn as_c(v: &V) -> Option<u128> {
        match v {
            V::C(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            _ => None,
        }
    }
    fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (Self::as_c(a), Self::as_c(b)) {
            return V::mk(fold_bin(op, w, x, y), w);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.cx.bin(op, x, y);
        self.v(r)
    }
    fn cmp(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (Self::as_c(a), Self::as_c(b)) {
            return V::C(fold_cmp(op, w, x, y) as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.cx.cmp(op, x, y);
        self.v(r)
    }
    fn notv(&mut self, a: &V) -> V {
        match a {
            V::C(x) => V::C(x ^ 1),
            V::S(e) => {
                let r = self.cx.not(*e);
                self.v(r)
            }
            _ => panic!("not"),
        }
    }
    fn itev(&mut self, c: E, w: u32, a: &V, b: &V) -> V {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.cx.ite(c, x, y);
        self.v(r)
    }
    /// structural select, types guided by t
    fn ite_ty(&mut self, c: E, t: Ty, a: &V, b: &V) -> V {
        match self.m.types[t as usize].clone() {
            T::Vec(n, et) => self.ite_agg(c, (0..n).map(|_| et).collect(), a, b),
            T::Arr(n, et) => self.ite_agg(c, (0..n).map(|_| et).collect(), a, b),
            T::Struct(f, _) => self.ite_agg(c, f, a, b),
            _ => {
                let w = self.m.bits(t);
                self.itev(c, w, a, b)
            }
        }
    }
    fn ite_agg(&mut self, c: E, tys: Vec<Ty>, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let r = tys.iter().enumerate().map(|(i, &t)| self.ite_ty(c, t, &x[i], &y[i])).collect();
                V::A(Rc::new(r))
            }
            _ => panic!("ite_agg"),
        }
    }

    // ---------- path condition ----------
    fn add_pc(&mut self, s: &mut State, c: E) {
        if self.cx.as_const(c) == Some(1) {
            return;
        }
        let n = self.cx.nodes[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_pc(s, n.a);
            self.add_pc(s, n.b);
            return;
        }
        if s.pcs.contains(&c) {
            return;
        }
        match self.cx.single_var(c) {
            Some(x) => {
                let t = self.cx.booltab(c, x);
                let d = &mut s.dom[x as usize];
                for i in 0..4 {
                    d[i] &= t[i];
                }
            }
            None => s.multi |= self.cx.deps[c as usize],
        }
        s.pcs.push(c);
    }
    fn known(&mut self, s: &State, c: E) -> Option<bool> {
        let nc = self.cx.not(c);
        for &p in s.pcs.iter().rev() {
            if p == c {
                return Some(true);
            }
            if p == nc {
                return Some(false);
            }
        }
        None
    }
    /// Is pc && c satisfiable? Returns a full model.
    fn sat(&mut self, s: &State, c: E) -> Result<Option<Vec<u8>>, String> {
        if let Some(k) = self.cx.as_const(c) {
            return Ok(if k == 1 { Some(s.model.clone()) } else { None });
        }
        if let Some(x) = self.cx.single_var(c) {
            let t = self.cx.booltab(c, x);
            let d = s.dom[x as usize];
            let al = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if al == [0; 4] {
                self.st.fast += 1;
                if self.sampled(1000) {
                    self.cross(s, c, false);
                }
                return Ok(None);
            }
            if s.multi >> x & 1 == 0 {
                self.st.fast += 1;
                let v = (0..256).find(|&v| al[v >> 6] >> (v & 63) & 1 == 1).unwrap();
                let mut m = s.model.clone();
                m[x as usize] = v as u8;
                if self.sampled(1000) {
                    self.cross(s, c, true);
                }
                return Ok(Some(m));
            }
        }
        let c0 = c;
        let c = {
            let mut l = crate::lin::Lin::new(&mut self.cx, &s.dom);
            l.list(&s.pcs);
            l.cond(c)
        };
        if c != c0 {
            self.st.rewritten += 1;
            if self.sampled(200) {
                let d = self.cx.bin(Op::Xor, c0, c);
                self.cross(s, d, false);
            }
            match self.cx.as_const(c) {
                Some(0) => return Ok(None),
                Some(_) => return Ok(Some(s.model.clone())),
                None => {}
            }
        }
        // relevant constraints (transitive closure over shared variables)
        let mut dep = self.cx.deps[c as usize];
        let mut rel: Vec<E> = vec![];
        let mut used = vec![false; s.pcs.len()];
        loop {
            let mut ch = false;
            for (i, &p) in s.pcs.iter().enumerate() {
                if !used[i] && self.cx.deps[p as usize] & dep != 0 {
                    used[i] = true;
                    rel.push(p);
                    let nd = dep | self.cx.deps[p as usize];
                    if nd != dep {
                        dep = nd;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        // candidate models: vary one variable of c at a time
        let mut all = rel.clone();
        all.push(c);
        let mut m = s.model.clone();
        let mut dd = self.cx.deps[c as usize];
        while dd != 0 {
            let x = dd.trailing_zeros() as usize;
            dd &= dd - 1;
            let d = s.dom[x];
            let cnt: u32 = d.iter().map(|x| x.count_ones()).sum();
            if cnt > 64 && all.len() > 8 {
                // only probe extremes
                let lo = (0..256).find(|&v| d[v >> 6] >> (v & 63) & 1 == 1);
                let hi = (0..256).rev().find(|&v| d[v >> 6] >> (v & 63) & 1 == 1);
                for v in [lo, hi].into_iter().flatten() {
                    let old = m[x];
                    m[x] = v as u8;
                    if self.cx.eval_all(&all, &m) {
                        self.st.fast += 1;
                        return Ok(Some(m));
                    }
                    m[x] = old;
                }
                continue;
            }
            let old = m[x];
            for v in 0..256usize {
                if d[v >> 6] >> (v & 63) & 1 == 1 {
                    m[x] = v as u8;
                    if self.cx.eval(c, &m) == 1 && self.cx.eval_all(&all, &m) {
                        self.st.fast += 1;
                        return Ok(Some(m));
                    }
                }
            }
            m[x] = old;
        }
        if let Some(r) = self.small(s, dep, c, &all) {
            if self.sampled(100) {
                self.cross(s, c, r.is_some());
            }
            self.st.fast += 1;
            return Ok(r);
        }
        let all = self.rewrite(s, all);
        self.solve(s, all)
    }
    /// Few bytes of small domains: every assignment is evaluated. `all` has to contain every constraint over `dep`.
    fn small(&mut self, s: &State, dep: u128, c: E, all: &[E]) -> Option<Option<Vec<u8>>> {
        let mut vars = vec![];
        let mut dd = dep;
        let mut product = 1u64;
        while dd != 0 {
            let x = dd.trailing_zeros() as usize;
            dd &= dd - 1;
            let d = s.dom[x];
            product *= d.iter().map(|x| x.count_ones() as u64).sum::<u64>();
            if product > SMALL {
                return None;
            }
            vars.push((x, (0..=255u8).filter(|&v| d[v as usize >> 6] >> (v & 63) & 1 == 1).collect::<Vec<u8>>()));
        }
        let mut m = s.model.clone();
        for mut i in 0..product {
            for (x, d) in &vars {
                m[*x] = d[(i % d.len() as u64) as usize];
                i /= d.len() as u64;
            }
            if self.cx.eval(c, &m) == 1 && self.cx.eval_all(all, &m) {
                return Some(Some(m));
            }
        }
        Some(None)
    }
    fn rewrite(&mut self, s: &State, all: Vec<E>) -> Vec<E> {
        let mut l = crate::lin::Lin::new(&mut self.cx, &s.dom);
        l.list(&all)
    }
    /// Which of the verdicts that did not come from z3 are put to z3 as well: all with --xcheck, else every n-th,
    /// as long as that takes little time
    fn sampled(&mut self, n: u64) -> bool {
        self.decided += 1;
        // no more than a twentieth of the time
        self.xcheck || self.decided % n == 0 && self.cross_s * 20.0 < self.born.elapsed().as_secs_f64()
    }
    fn cross(&mut self, s: &State, c: E, expect: bool) {
        let mut all = s.pcs.clone();
        all.push(c);
        self.xchecks += 1;
        let t0 = Instant::now();
        let r = self.z3.check(&self.cx, &all);
        self.cross_s += t0.elapsed().as_secs_f64();
        match r {
            Res::Sat(_) if expect => {}
            Res::Unsat if !expect => {}
            Res::Unknown => {}
            _ => {
                eprintln!("SYMX-ERROR: byte-domain verdict disagrees with z3 on {}", self.cx.show(c, 6));
                std::process::exit(70);
            }
        }
    }
    fn solve(&mut self, s: &State, mut all: Vec<E>) -> Result<Option<Vec<u8>>, String> {
        all.sort();
        all.dedup();
        if let Some(r) = self.cache.get(&all) {
            self.st.cached += 1;
            return Ok(r.as_ref().map(|a| {
                let mut m = s.model.clone();
                for &(k, v) in a {
                    if (k as usize) < m.len() {
                        m[k as usize] = v;
                    }
                }
                m
            }));
        }
        *self.prof_z3.entry((s.cur.f, s.cur.blk)).or_insert(0) += 1;
        let t0 = std::time::Instant::now();
        let res = self.z3.check(&self.cx, &all);
        if t0.elapsed().as_secs_f64() > 1.0 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("SLOW {:?} at {}", t0.elapsed(), self.where_(s));
            for (i, d) in s.dom.iter().enumerate() {
                let t: Vec<u8> = (0..=255u8).filter(|&v| d[v as usize >> 6] >> (v & 63) & 1 == 1).collect();
                eprintln!("  b{i} in {}", show_bytes(&t));
            }
            for e in &all {
                if self.cx.single_var(*e).is_some() {
                    continue;
                }
                eprintln!("  {}", self.cx.show(*e, 12));
                if let Some(d) = crate::lin::Lin::new(&mut self.cx, &s.dom).explain(*e) {
                    eprintln!("    {d}");
                }
            }
        }
        match res {
            Res::Sat(a) => {
                let mut m = s.model.clone();
                for &(k, v) in &a {
                    m[k as usize] = v;
                }
                if !self.cx.eval_all(&all, &m) {
                    eprintln!("SYMX-ERROR: z3 model does not satisfy the constraints it was asked for");
                    std::process::exit(70);
                }
                self.cache.insert(all, Some(a));
                Ok(Some(m))
            }
            Res::Unsat => {
                self.cache.insert(all, None);
                Ok(None)
            }
            Res::Unknown => {
                Err("solver timeout".into())
            }
        }
    }
    fn clone_state(&mut self, s: &State) -> State {
        self.st.forks += 1;
        *self.prof_forks.entry((s.cur.f, s.cur.blk)).or_insert(0) += 1;
        let mut n = s.clone();
        n.forks += 1;
        n
    }
    /// Decide a boolean; both sides feasible => push the other side (re-executing the instruction).
    fn fork_bool(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.cx.as_const(c) {
            return Ok(k == 1);
        }
        if let Some(k) = self.known(s, c) {
            self.st.syntactic += 1;
            return Ok(k);
        }
        let cur = self.cx.eval(c, &s.model) == 1;
        let nc = self.cx.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.sat(s, other) {
            Err(e) => return self.give_up(s, &e),
            Ok(None) => {
                // implied by conditions over several bytes: make it part of the byte's domain
                if let Some(x) = self.cx.single_var(mine) {
                    let t = self.cx.booltab(mine, x);
                    let d = s.dom[x as usize];
                    if (0..4).any(|i| d[i] & !t[i] != 0) {
                        self.add_pc(s, mine);
                    }
                }
            }
            Ok(Some(m)) => {
                let mut n = self.clone_state(s);
                self.add_pc(&mut n, other);
                n.model = m;
                self.work.push_back(n);
                self.add_pc(s, mine);
                s.forks += 1;
            }
        }
        Ok(cur)
    }
    /// Concretise: one state per feasible value.
    fn conc(&mut self, s: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::S(e) => {
                let e = *e;
                let k = self.cx.eval(e, &s.model);
                let ke = self.cx.c(k, w);
                let eq = self.cx.cmp(Op::Eq, e, ke);
                self.fork_bool(s, eq)?;
                // fork_bool follows the model, for which eq is true
                Ok(k as u64)
            }
            V::A(_) => panic!("conc aggregate"),
        }
    }
    fn give_up<T>(&mut self, s: &State, why: &str) -> R<T> {
        let at = self.where_(s);
        self.incomplete.push(format!("{} in {} (input {})", why, at, show_bytes(&s.model)));
        Err(Stop::Path)
    }
    fn where_(&self, s: &State) -> String {
        demangle(&self.m.funcs[s.cur.f as usize].name)
    }
    fn stack(&self, s: &State) -> Vec<String> {
        let mut v = vec![demangle(&self.m.funcs[s.cur.f as usize].name)];
        let mut p = s.stk.as_ref();
        while let Some(x) = p {
            v.push(demangle(&self.m.funcs[x.fr.f as usize].name));
            if v.len() > 40 {
                break;
            }
            p = x.up.as_ref();
        }
        v
    }
    fn violation(&mut self, s: &State, kind: &str, msg: String, model: &[u8]) {
        if self.viol.iter().filter(|v| v.kind == kind && v.msg == msg).count() >= 3 || self.viol.len() >= self.lim.max_violations {
            return;
        }
        let stack = self.stack(s);
        self.viol.push(Violation { kind: kind.into(), msg, bytes: model[..s.nvars as usize].to_vec(), stack });
    }

    // ---------- memory ----------
    fn load_bytes_v(&mut self, s: &State, addr: u64, n: usize, w: u32) -> Option<V> {
        // slow path: assemble n bytes into a value of w bits
        let mut any = false;
        let mut buf = [(0u8, NOSYM); 16];
        for i in 0..n {
            buf[i] = s.mem.byte(addr.wrapping_add(i as u64))?;
            any |= buf[i].1 != NOSYM;
        }
        if !any {
            let mut v = 0u128;
            for i in 0..n {
                v |= (buf[i].0 as u128) << (8 * i);
            }
            return Some(V::mk(v, w));
        }
        let mut e: Option<E> = None;
        for i in 0..n {
            let b = if buf[i].1 != NOSYM { buf[i].1 } else { self.cx.c(buf[i].0 as u128, 8) };
            e = Some(match e {
                None => b,
                Some(lo) => self.cx.concat(b, lo),
            });
        }
        let e = e.unwrap();
        let r = if w < 8 * n as u32 { self.cx.extract(e, 0, w) } else { e };
        Some(self.v(r))
    }
    fn load(&mut self, s: &State, addr: u64, t: Ty) -> Option<V> {
        let (n, w) = match &self.m.types[t as usize] {
            T::Int(w) => (((w + 7) / 8) as usize, *w),
            T::Ptr | T::Double => (8, 64),
            T::Float => (4, 32),
            T::Vec(n, et) => {
                let (n, et) = (*n, *et);
                let ew = self.m.bits(et);
                if ew % 8 != 0 {
                    return None;
                }
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n {
                    v.push(self.load(s, addr + (i * ew / 8) as u64, et)?);
                }
                return Some(V::A(Rc::new(v)));
            }
            T::Arr(n, et) => {
                let (n, et) = (*n, *et);
                let sz = self.m.layout(et).0;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(s, addr + i * sz, et)?);
                }
                return Some(V::A(Rc::new(v)));
            }
            T::Struct(f, _) => {
                let f = f.clone();
                let mut v = vec![];
                for (i, &et) in f.iter().enumerate() {
                    let (o, _) = self.m.field_off(t, i);
                    v.push(self.load(s, addr + o, et)?);
                }
                return Some(V::A(Rc::new(v)));
            }
            _ => return None,
        };
        if n <= 8 {
            if let Some(v) = s.mem.load_fast(addr, n) {
                return Some(V::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
        }
        self.load_bytes_v(s, addr, n, w)
    }
    fn store(&mut self, s: &mut State, addr: u64, t: Ty, v: &V) -> bool {
        let (n, w) = match &self.m.types[t as usize] {
            T::Int(w) => (((w + 7) / 8) as usize, *w),
            T::Ptr | T::Double => (8, 64),
            T::Float => (4, 32),
            T::Vec(n, et) => {
                let (n, et) = (*n, *et);
                let ew = self.m.bits(et);
                if ew % 8 != 0 {
                    return false;
                }
                if let V::A(vs) = v {
                    let vs = vs.clone();
                    for i in 0..n {
                        if !self.store(s, addr + (i * ew / 8) as u64, et, &vs[i as usize]) {
                            return false;
                        }
                    }
                    return true;
                }
                return false;
            }
            T::Arr(n, et) => {
                let (n, et) = (*n, *et);
                let sz = self.m.layout(et).0;
                if let V::A(vs) = v {
                    let vs = vs.clone();
                    for i in 0..n {
                        if !self.store(s, addr + i * sz, et, &vs[i as usize]) {
                            return false;
                        }
                    }
                    return true;
                }
                return false;
            }
            T::Struct(f, _) => {
                let f = f.clone();
                if let V::A(vs) = v {
                    let vs = vs.clone();
                    for (i, &et) in f.iter().enumerate() {
                        let (o, _) = self.m.field_off(t, i);
                        if !self.store(s, addr + o, et, &vs[i]) {
                            return false;
                        }
                    }
                    return true;
                }
                return false;
            }
            _ => return false,
        };
        match v {
            V::C(x) => {
                if n <= 8 {
                    if s.mem.store_fast(addr, n, *x) {
                        return true;
                    }
                    let b = x.to_le_bytes();
                    return s.mem.write(addr, &b[..n]);
                }
                let b = (*x as u128).to_le_bytes();
                s.mem.write(addr, &b[..n])
            }
            V::W(x) => {
                let b = x.to_le_bytes();
                s.mem.write(addr, &b[..n])
            }
            V::S(e) => {
                let e = if w < 8 * n as u32 { self.cx.zext(*e, 8 * n as u32) } else { *e };
                for i in 0..n {
                    let b = self.cx.extract(e, 8 * i as u32, 8);
                    let ok = match self.cx.as_const(b) {
                        Some(k) => s.mem.set_byte(addr + i as u64, k as u8, NOSYM),
                        None => s.mem.set_byte(addr + i as u64, 0, b),
                    };
                    if !ok {
                        return false;
                    }
                }
                true
            }
            V::A(_) => false,
        }
    }
    fn tab(&mut self, e: E, x: u32) -> Rc<Vec<u64>> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let mut m = vec![0u8; x as usize + 1];
        let mut t = vec![0u64; 256];
        for v in 0..256usize {
            m[x as usize] = v as u8;
            t[v] = self.cx.eval(e, &m) as u64;
        }
        let t = Rc::new(t);
        self.tabs.insert(e, t.clone());
        t
    }
    /// load through a symbolic pointer
    fn load_sym(&mut self, s: &mut State, pe: E, t: Ty) -> R<V> {
        self.st.loads_sym += 1;
        let x = match self.cx.single_var(pe) {
            Some(x) => x,
            None => {
                let a = self.conc(s, &V::S(pe), 64)?;
                return match self.load(s, a, t) {
                    Some(v) => Ok(v),
                    None => self.wild(s, a, "load"),
                };
            }
        };
        let d = s.dom[x as usize];
        let tab = self.tab(pe, x);
        // group byte values by loaded value
        let mut groups: Vec<(V, [u64; 4])> = vec![];
        let mut by_addr: HashMap<u64, usize> = HashMap::new();
        let mut bad: [u64; 4] = [0; 4];
        for v in 0..256usize {
            if d[v >> 6] >> (v & 63) & 1 == 0 {
                continue;
            }
            let a = tab[v];
            let g = match by_addr.get(&a) {
                Some(&g) => g,
                None => {
                    let g = match self.load(s, a, t) {
                        None => usize::MAX,
                        Some(lv) => match groups.iter().position(|(gv, _)| same(gv, &lv)) {
                            Some(i) => i,
                            None => {
                                groups.push((lv, [0; 4]));
                                groups.len() - 1
                            }
                        },
                    };
                    by_addr.insert(a, g);
                    g
                }
            };
            if g == usize::MAX {
                bad[v >> 6] |= 1 << (v & 63);
            } else {
                groups[g].1[v >> 6] |= 1 << (v & 63);
            }
        }
        let xv = self.cx.var(x);
        if bad != [0; 4] {
            let c = self.cx.in_set(xv, &bad);
            if self.fork_bool(s, c)? {
                let a = self.cx.eval(pe, &s.model) as u64;
                return self.wild(s, a, "load");
            }
        }
        if groups.len() == 1 {
            return Ok(groups.pop().unwrap().0);
        }
        let scalar = matches!(self.m.types[t as usize], T::Int(w) if w <= 16);
        if scalar {
            let w = self.m.bits(t);
            // largest group last (the "else")
            groups.sort_by_key(|(_, t)| std::cmp::Reverse(t.iter().map(|x| x.count_ones()).sum::<u32>()));
            let mut r = groups[0].0.clone();
            for (gv, gt) in &groups[1..] {
                let c = self.cx.in_set(xv, gt);
                r = self.itev(c, w, gv, &r);
            }
            return Ok(r);
        }
        let mv = s.model[x as usize] as usize;
        let gi = groups.iter().position(|(_, t)| t[mv >> 6] >> (mv & 63) & 1 == 1).expect("model outside domain");
        for (i, (_, gt)) in groups.iter().enumerate() {
            if i == gi {
                continue;
            }
            let c = self.cx.in_set(xv, gt);
            match self.sat(s, c) {
                Err(e) => return self.give_up(s, &e),
                Ok(None) => {}
                Ok(Some(m)) => {
                    let mut n = self.clone_state(s);
                    self.add_pc(&mut n, c);
                    n.model = m;
                    self.work.push_back(n);
                }
            }
        }
        let (gv, gt) = groups.swap_remove(gi);
        let c = self.cx.in_set(xv, &gt);
        self.add_pc(s, c);
        Ok(gv)
    }
    /// store through a symbolic pointer: every possible target becomes a conditional value
    fn store_sym(&mut self, s: &mut State, pe: E, t: Ty, v: &V) -> R<bool> {
        let x = match self.cx.single_var(pe) {
            Some(x) if matches!(self.m.types[t as usize], T::Int(_)) => x,
            _ => return Ok(false),
        };
        let d = s.dom[x as usize];
        let tab = self.tab(pe, x);
        let mut by: BTreeMap<u64, [u64; 4]> = BTreeMap::new();
        for b in 0..256usize {
            if d[b >> 6] >> (b & 63) & 1 == 1 {
                by.entry(tab[b]).or_insert([0; 4])[b >> 6] |= 1 << (b & 63);
            }
        }
        if by.len() > 128 {
            return Ok(false);
        }
        let w = self.m.bits(t);
        let xv = self.cx.var(x);
        let mut writes = vec![];
        for (a, set) in by {
            let old = match self.load(s, a, t) {
                Some(o) => o,
                None => return Ok(false),
            };
            let c = self.cx.in_set(xv, &set);
            let nv = self.itev(c, w, v, &old);
            writes.push((a, nv));
        }
        for (a, nv) in writes {
            self.store(s, a, t, &nv);
        }
        Ok(true)
    }
    fn wild<T>(&mut self, s: &State, a: u64, what: &str) -> R<T> {
        let m = s.model.clone();
        if self.trace {
            let f = &self.m.funcs[s.cur.f as usize];
            eprintln!("unmapped in {} block {} pc {}", f.name, f.blocks[s.cur.blk as usize].name, s.cur.pc);
        }
        self.violation(s, "memory", format!("{} at unmapped address {:#x}", what, a), &m);
        Err(Stop::Path)
    }
    pub fn alloc(&mut self, s: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (s.heap + 16 + al - 1) / al * al;
        s.heap = (a + size + 15) & !15;
        if s.heap >= HEAP_END {
            return 0;
        }
        s.mem.map(a - 16, size + 16);
        s.mem.store_fast(a - 16, 8, size);
        a
    }

    // ---------- control ----------
    #[inline]
    fn op(&self, s: &State, o: &O) -> V {
        match o {
            O::R(r) => s.cur.regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        if self.trace {
            eprintln!("{:w$}. {}", "", self.m.funcs[s.cur.f as usize].blocks[to as usize].name, w = s.stk.as_ref().map_or(0, |k| k.depth) as usize);
        }
        let from = s.cur.blk;
        let f = &self.m.funcs[s.cur.f as usize];
        let b = &f.blocks[to as usize];
        if b.phis.len() == 1 {
            let (d, inc) = &b.phis[0];
            let o = &inc.iter().find(|(p, _)| *p == from).expect("phi edge").1;
            let v = match o {
                O::R(r) => s.cur.regs[*r as usize].clone(),
                O::K(v) => v.clone(),
            };
            s.cur.regs[*d as usize] = v;
        } else if !b.phis.is_empty() {
            let vals: Vec<V> = b
                .phis
                .iter()
                .map(|(_, inc)| match &inc.iter().find(|(p, _)| *p == from).expect("phi edge").1 {
                    O::R(r) => s.cur.regs[*r as usize].clone(),
                    O::K(v) => v.clone(),
                })
                .collect();
            for ((d, _), v) in b.phis.iter().zip(vals) {
                s.cur.regs[*d as usize] = v;
            }
        }
        s.cur.blk = to;
        s.cur.pc = 0;
    }
    fn ret(&mut self, s: &mut State, v: Option<V>) -> R<()> {
        let dst = s.cur.dst;
        let normal = s.cur.normal;
        match s.stk.take() {
            None => Err(Stop::Path),
            Some(rc) => {
                match Rc::try_unwrap(rc) {
                    Ok(mut k) => {
                        s.stk = k.up.take();
                        s.cur = std::mem::replace(
                            &mut k.fr,
                            Frame { f: 0, blk: 0, pc: 0, regs: vec![], sp: 0, dst: None, normal: None },
                        );
                    }
                    Err(rc) => {
                        s.stk = rc.up.clone();
                        s.cur = rc.fr.clone();
                    }
                }
                if let (Some(d), Some(v)) = (dst, v) {
                    s.cur.regs[d as usize] = v;
                }
                match normal {
                    Some(n) => self.jump(s, n),
                    None => s.cur.pc += 1,
                }
                Ok(())
            }
        }
    }

    /// Run the pending states to completion (DFS), or until `stop_at` states are pending (BFS).
    pub fn run(&mut self, bfs_until: Option<usize>) {
        loop {
            if let Some(k) = bfs_until {
                if self.work.len() >= k {
                    return;
                }
            }
            let s = if bfs_until.is_some() { self.work.pop_front() } else { self.work.pop_back() };
            let Some(mut s) = s else { return };
            if Instant::now() > self.lim.deadline {
                self.incomplete.push(format!("time limit reached with {} states pending", self.work.len() + 1));
                self.work.clear();
                return;
            }
            if self.viol.len() >= self.lim.max_violations {
                self.work.clear();
                return;
            }
            self.run_state(&mut s, bfs_until.is_some());
            if bfs_until.is_some() && s.forks & 0x8000_0000 != 0 {
                s.forks &= 0x7fff_ffff;
                self.work.push_back(s);
            }
        }
    }
    fn run_state(&mut self, s: &mut State, bfs: bool) {
        let mut cnt: u64 = 0;
        let start_work = self.work.len();
        loop {
            cnt += 1;
            if cnt & 0xffff == 0 {
                s.steps += 0x10000;
                self.st.instrs += 0x10000;
                if s.steps > self.lim.max_path_steps {
                    let _: R<()> = self.give_up(s, "instruction limit of one path reached");
                    break;
                }
                if Instant::now() > self.lim.deadline {
                    let _: R<()> = self.give_up(s, "time limit reached");
                    break;
                }
            }
            match self.step(s) {
                Ok(()) => {}
                Err(Stop::Moved) => {}
                Err(Stop::Path) => break,
            }
            if bfs && self.work.len() > start_work + 1 {
                // rotate: put back and let the scheduler pick the oldest
                s.forks |= 0x8000_0000;
                self.st.instrs += cnt & 0xffff;
                return;
            }
        }
        self.st.instrs += cnt & 0xffff;
        self.st.max_forks = self.st.max_forks.max(s.forks);
        self.st.max_vars = self.st.max_vars.max(s.nvars);
    }
    fn done(&mut self, s: &State) {
        self.st.paths += 1;
        let n = self.st.paths;
        let kind = s.reached.join(",");
        let new = self.sample_kinds.len() < 40 && self.sample_kinds.insert(kind.clone());
        if new || self.samples.len() < 6 || (n & (n - 1)) == 0 && self.samples.len() < 24 {
            self.samples.push((kind, s.model.clone()));
        }
    }

    #[inline]
    fn step(&mut self, s: &mut State) -> R<()> {
        // SAFETY: the module is immutable during execution; detach the borrow from self.
        let ins: &I = unsafe {
            let f = &*(&self.m.funcs[s.cur.f as usize] as *const Func);
            let b = f.blocks.get_unchecked(s.cur.blk as usize);
            &*(&b.code[s.cur.pc as usize] as *const I)
        };
        match ins {
            I::Bin(op, t, d, a, b) => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let r = match (&x, &y, op) {
                    (V::C(x), V::C(y), Bin::Add) => match self.m.types[*t as usize] {
                        T::Int(64) => V::C(x.wrapping_add(*y)),
                        _ => self.binop(s, *op, *t, &V::C(*x), &V::C(*y))?,
                    },
                    _ => self.binop(s, *op, *t, &x, &y)?,
                };
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::ICmp(p, t, d, a, b) => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let r = self.icmp(*p, *t, &x, &y);
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::Load(t, d, p) => {
                let pv = self.op(s, p);
                let r = match &pv {
                    V::C(a) => match self.load(s, *a, *t) {
                        Some(v) => v,
                        None => return self.wild(s, *a, "load"),
                    },
                    V::S(e) => self.load_sym(s, *e, *t)?,
                    _ => panic!("load pointer"),
                };
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::Store(t, v, p) => {
                let pv = self.op(s, p);
                let v = self.op(s, v);
                if let V::S(pe) = pv {
                    if self.store_sym(s, pe, *t, &v)? {
                        s.cur.pc += 1;
                        return Ok(());
                    }
                }
                let a = self.conc(s, &pv, 64)?;
                if !self.store(s, a, *t, &v) {
                    return self.wild(s, a, "store");
                }
                s.cur.pc += 1;
            }
            I::Gep(d, b, off, vars) => {
                let bv = self.op(s, b);
                let mut acc = match bv {
                    V::C(x) => V::C(x.wrapping_add(*off as u64)),
                    V::S(_) => self.bin(Op::Add, 64, &bv, &V::C(*off as u64)),
                    _ => panic!("gep base"),
                };
                for (o, sc, w) in vars {
                    let iv = self.op(s, o);
                    match (&iv, &acc) {
                        (V::C(i), V::C(a)) => {
                            let i = if *w == 64 { *i } else { sext(*i as u128, *w) as u64 };
                            acc = V::C(a.wrapping_add(i.wrapping_mul(*sc)));
                        }
                        _ => {
                            let e = self.e(&iv, *w);
                            let e = self.cx.sext_to(e, 64);
                            let ev = self.v(e);
                            let m = self.bin(Op::Mul, 64, &ev, &V::C(*sc));
                            acc = self.bin(Op::Add, 64, &acc, &m);
                        }
                    }
                }
                s.cur.regs[*d as usize] = acc;
                s.cur.pc += 1;
            }
            I::Br(t) => self.jump(s, *t),
            I::CondBr(c, t, f) => {
                let cv = self.op(s, c);
                match cv {
                    V::C(x) => self.jump(s, if x & 1 == 1 { *t } else { *f }),
                    V::S(e) => {
                        if let Some(k) = self.known(s, e) {
                            self.st.syntactic += 1;
                            self.jump(s, if k { *t } else { *f });
                            return Ok(());
                        }
                        let cur = self.cx.eval(e, &s.model) == 1;
                        let ne = self.cx.not(e);
                        let (mine, other) = if cur { (e, ne) } else { (ne, e) };
                        match self.sat(s, other) {
                            Err(e) => return self.give_up(s, &e),
                            Ok(None) => {}
                            Ok(Some(m)) => {
                                let mut n = self.clone_state(s);
                                self.add_pc(&mut n, other);
                                n.model = m;
                                self.jump(&mut n, if cur { *f } else { *t });
                                self.work.push_back(n);
                                self.add_pc(s, mine);
                                s.forks += 1;
                            }
                        }
                        self.jump(s, if cur { *t } else { *f });
                    }
                    _ => panic!("br cond"),
                }
            }
            I::Switch(t, v, df, cases) => {
                let vv = self.op(s, v);
                match &vv {
                    V::S(e) => {
                        let w = self.m.bits(*t);
                        let e = *e;
                        return self.switch_sym(s, e, w, *df, cases);
                    }
                    v => {
                        let k = Self::as_c(v).unwrap();
                        let to = cases.iter().find(|(c, _)| *c == k).map_or(*df, |x| x.1);
                        self.jump(s, to);
                    }
                }
            }
            I::Cast(c, ft, tt, d, a) => {
                let x = self.op(s, a);
                let r = match self.cast(s, *c, *ft, *tt, &x) {
                    Ok(r) => r,
                    Err(e) => return Err(e),
                };
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::Select(ct, t, d, c, a, b) => {
                let cv = self.op(s, c);
                let r = match &cv {
                    V::C(x) => {
                        if x & 1 == 1 {
                            self.op(s, a)
                        } else {
                            self.op(s, b)
                        }
                    }
                    V::A(cs) => {
                        let (av, bv) = (self.op(s, a), self.op(s, b));
                        let (n, et) = self.m.lanes(*t).expect("vector select");
                        let _ = ct;
                        match (av, bv) {
                            (V::A(x), V::A(y)) => {
                                let mut o = vec![];
                                for i in 0..n as usize {
                                    o.push(match &cs[i] {
                                        V::C(k) => {
                                            if k & 1 == 1 {
                                                x[i].clone()
                                            } else {
                                                y[i].clone()
                                            }
                                        }
                                        V::S(e) => self.ite_ty(*e, et, &x[i], &y[i]),
                                        _ => panic!("sel"),
                                    });
                                }
                                V::A(Rc::new(o))
                            }
                            _ => panic!("vector select"),
                        }
                    }
                    V::S(e) => {
                        let (av, bv) = (self.op(s, a), self.op(s, b));
                        if same(&av, &bv) {
                            av
                        } else if matches!(self.m.types[*t as usize], T::Ptr) {
                            if self.fork_bool(s, *e)? {
                                av
                            } else {
                                bv
                            }
                        } else {
                            self.ite_ty(*e, *t, &av, &bv)
                        }
                    }
                    _ => panic!("select cond"),
                };
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::Alloca(d, size, align, cnt) => {
                let n = match cnt {
                    None => 1,
                    Some(o) => {
                        let v = self.op(s, o);
                        self.conc(s, &v, 64)?
                    }
                };
                let a = (s.cur.sp + align - 1) / align * align;
                let sz = size * n;
                s.mem.map(a, sz.max(1));
                s.cur.sp = a + sz;
                if s.cur.sp > STACK_BASE + STACK_SIZE {
                    return self.give_up(s, "stack overflow");
                }
                s.cur.regs[*d as usize] = V::C(a);
                s.cur.pc += 1;
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| self.op(s, o));
                if s.stk.is_none() {
                    self.done(s);
                    return Err(Stop::Path);
                }
                self.ret(s, v)?;
            }
            I::Call(c) => return self.call(s, c),
            I::Extract(d, v, ix) => {
                let mut v = self.op(s, v);
                for &i in ix {
                    v = match &v {
                        V::A(x) => x[i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                s.cur.regs[*d as usize] = v;
                s.cur.pc += 1;
            }
            I::Insert(t, d, v, e, ix, _) => {
                let v = self.op(s, v);
                let v = match v {
                    V::A(_) => v,
                    _ => self.m.zero(*t),
                };
                let e = self.op(s, e);
                let r = insert(&v, ix, e);
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::ExtElem(_, d, v, i) => {
                let iv = self.op(s, i);
                let k = self.conc(s, &iv, 64)?;
                let r = match self.op(s, v) {
                    V::A(x) => x[k as usize].clone(),
                    _ => panic!("extractelement"),
                };
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::InsElem(_, d, v, e, i) => {
                let iv = self.op(s, i);
                let k = self.conc(s, &iv, 64)?;
                let e = self.op(s, e);
                let r = match self.op(s, v) {
                    V::A(x) => {
                        let mut y = (*x).clone();
                        y[k as usize] = e;
                        V::A(Rc::new(y))
                    }
                    _ => panic!("insertelement"),
                };
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::Shuffle(t, d, a, b, mk) => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let (_, et) = self.m.lanes(*t).unwrap();
                let z = self.m.zero(et);
                let (x, y) = match (x, y) {
                    (V::A(x), V::A(y)) => (x, y),
                    _ => panic!("shuffle"),
                };
                let n = x.len() as i32;
                let r: Vec<V> = mk
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            z.clone()
                        } else if k < n {
                            x[k as usize].clone()
                        } else {
                            y[(k - n) as usize].clone()
                        }
                    })
                    .collect();
                s.cur.regs[*d as usize] = V::A(Rc::new(r));
                s.cur.pc += 1;
            }
            I::Copy(d, v) => {
                let v = self.op(s, v);
                s.cur.regs[*d as usize] = v;
                s.cur.pc += 1;
            }
            I::Nop => s.cur.pc += 1,
            I::Rmw(o, t, d, p, v) => {
                let pv = self.op(s, p);
                let a = self.conc(s, &pv, 64)?;
                let v = self.op(s, v);
                let old = match self.load(s, a, *t) {
                    Some(x) => x,
                    None => return self.wild(s, a, "atomicrmw"),
                };
                let w = self.m.bits(*t);
                let new = match o {
                    0 => v,
                    1 => self.bin(Op::Add, w, &old, &v),
                    2 => self.bin(Op::Sub, w, &old, &v),
                    3 => self.bin(Op::And, w, &old, &v),
                    4 => self.bin(Op::Or, w, &old, &v),
                    5 => self.bin(Op::Xor, w, &old, &v),
                    _ => {
                        let c = self.cmp(Op::Ult, w, &old, &v);
                        let (hi, lo) = (v.clone(), old.clone());
                        let ce = self.e(&c, 1);
                        if *o == 6 {
                            self.itev(ce, w, &hi, &lo)
                        } else {
                            self.itev(ce, w, &lo, &hi)
                        }
                    }
                };
                self.store(s, a, *t, &new);
                s.cur.regs[*d as usize] = old;
                s.cur.pc += 1;
            }
            I::CmpXchg(t, d, p, e, n) => {
                let pv = self.op(s, p);
                let a = self.conc(s, &pv, 64)?;
                let old = match self.load(s, a, *t) {
                    Some(x) => x,
                    None => return self.wild(s, a, "cmpxchg"),
                };
                let w = self.m.bits(*t);
                let ev = self.op(s, e);
                let c = self.cmp(Op::Eq, w, &old, &ev);
                let k = self.conc(s, &c, 1)?;
                if k == 1 {
                    let nv = self.op(s, n);
                    self.store(s, a, *t, &nv);
                }
                s.cur.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(k)]));
                s.cur.pc += 1;
            }
            I::FCmp(p, t, d, a, b) => {
                let (x, y) = (self.op(s, a), self.op(s, b));
                let w = self.m.bits(*t);
                let r = self.fcmp(*p, w, &x, &y);
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::FNeg(t, d, a) => {
                let x = self.op(s, a);
                let w = self.m.bits(*t);
                let r = self.bin(Op::Xor, w, &x, &V::C(1u64 << (w - 1)));
                s.cur.regs[*d as usize] = r;
                s.cur.pc += 1;
            }
            I::Unreachable => {
                let m = s.model.clone();
                self.violation(s, "unreachable", format!("unreachable code executed in {}", self.where_(s)), &m);
                return Err(Stop::Path);
            }
            I::Unsup(x) => {
                let x = x.clone();
                return self.give_up(s, &format!("unsupported instruction {}", x));
            }
        }
        Ok(())
    }

    fn switch_sym(&mut self, s: &mut State, e: E, w: u32, df: u32, cases: &[(u128, u32)]) -> R<()> {
        let k = self.cx.eval(e, &s.model);
        let mine = cases.iter().find(|(c, _)| *c == k).map_or(df, |x| x.1);
        // conditions per target
        let mut tg: Vec<(u32, E)> = vec![];
        let mut any = self.cx.f();
        for (c, t) in cases {
            let kc = self.cx.c(*c, w);
            let eq = self.cx.cmp(Op::Eq, e, kc);
            any = self.cx.or(any, eq);
            match tg.iter_mut().find(|x| x.0 == *t) {
                Some(x) => x.1 = self.cx.or(x.1, eq),
                None => tg.push((*t, eq)),
            }
        }
        let nd = self.cx.not(any);
        match tg.iter_mut().find(|x| x.0 == df) {
            Some(x) => x.1 = self.cx.or(x.1, nd),
            None => tg.push((df, nd)),
        }
        let mut mc = None;
        for (t, c) in tg {
            if t == mine {
                mc = Some(c);
                continue;
            }
            match self.sat(s, c) {
                Err(e) => return self.give_up(s, &e),
                Ok(None) => {}
                Ok(Some(m)) => {
                    let mut n = self.clone_state(s);
                    self.add_pc(&mut n, c);
                    n.model = m;
                    self.jump(&mut n, t);
                    self.work.push_back(n);
                    s.forks += 1;
                }
            }
        }
        self.add_pc(s, mc.unwrap());
        self.jump(s, mine);
        Ok(())
    }

    fn binop(&mut self, s: &mut State, op: Bin, t: Ty, x: &V, y: &V) -> R<V> {
        if let Some((n, et)) = self.m.lanes(t) {
            return match (x, y) {
                (V::A(a), V::A(b)) => {
                    let mut o = Vec::with_capacity(n as usize);
                    for i in 0..n as usize {
                        o.push(self.binop(s, op, et, &a[i], &b[i])?);
                    }
                    Ok(V::A(Rc::new(o)))
                }
                _ => panic!("vector binop"),
            };
        }
        let w = self.m.bits(t);
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::URem => Op::URem,
            Bin::SDiv => Op::SDiv,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv => {
                let fo = match op {
                    Bin::FAdd => Op::FAdd,
                    Bin::FSub => Op::FSub,
                    Bin::FMul => Op::FMul,
                    _ => Op::FDiv,
                };
                if let (Some(a), Some(b)) = (Self::as_c(x), Self::as_c(y)) {
                    return Ok(V::mk(fold_float(fo, w, w, a, b), w));
                }
                let a = self.e(x, w);
                let b = self.e(y, w);
                let r = self.cx.fop(fo, w, a, b);
                return Ok(self.v(r));
            }
            Bin::FRem => return self.give_up(s, "frem"),
        };
        Ok(self.bin(o, w, x, y))
    }
    fn icmp(&mut self, p: Pred, t: Ty, x: &V, y: &V) -> V {
        if let Some((n, et)) = self.m.lanes(t) {
            return match (x, y) {
                (V::A(a), V::A(b)) => {
                    let o = (0..n as usize).map(|i| self.icmp(p, et, &a[i], &b[i])).collect();
                    V::A(Rc::new(o))
                }
                _ => panic!("vector icmp"),
            };
        }
        let w = self.m.bits(t);
        match p {
            Pred::Eq => self.cmp(Op::Eq, w, x, y),
            Pred::Ne => {
                let r = self.cmp(Op::Eq, w, x, y);
                self.notv(&r)
            }
            Pred::Ult => self.cmp(Op::Ult, w, x, y),
            Pred::Ule => self.cmp(Op::Ule, w, x, y),
            Pred::Ugt => self.cmp(Op::Ult, w, y, x),
            Pred::Uge => self.cmp(Op::Ule, w, y, x),
            Pred::Slt => self.cmp(Op::Slt, w, x, y),
            Pred::Sle => self.cmp(Op::Sle, w, x, y),
            Pred::Sgt => self.cmp(Op::Slt, w, y, x),
            Pred::Sge => self.cmp(Op::Sle, w, y, x),
        }
    }
    fn fcmp(&mut self, p: u8, w: u32, x: &V, y: &V) -> V {
        let xe = self.e(x, w);
        let ye = self.e(y, w);
        let uno = self.cx.fop(Op::FUno, 1, xe, ye);
        let ord = self.cx.not(uno);
        let r = match p & 7 {
            0 => self.cx.f(),
            1 => self.cx.fop(Op::FOeq, 1, xe, ye),
            2 => self.cx.fop(Op::FOlt, 1, ye, xe),
            3 => self.cx.fop(Op::FOle, 1, ye, xe),
            4 => self.cx.fop(Op::FOlt, 1, xe, ye),
            5 => self.cx.fop(Op::FOle, 1, xe, ye),
            6 => {
                let q = self.cx.fop(Op::FOeq, 1, xe, ye);
                let nq = self.cx.not(q);
                self.cx.and(nq, ord)
            }
            _ => ord,
        };
        // encodings: 1..7 ordered, 8 uno, 9..15 = unordered versions of 1..7 (15 = true)
        let r = match p {
            0..=7 => r,
            8 => uno,
            15 => self.cx.t(),
            _ => self.cx.or(r, uno),
        };
        self.v(r)
    }
    fn pack(&mut self, t: Ty, v: &V) -> V {
        // vector -> integer
        match self.m.lanes(t) {
            None => v.clone(),
            Some((n, et)) => {
                let ew = self.m.bits(et);
                let tot = n * ew;
                match v {
                    V::A(x) => {
                        if x.iter().all(|y| matches!(y, V::C(_))) && tot <= 128 {
                            let mut r = 0u128;
                            for (i, y) in x.iter().enumerate() {
                                r |= Self::as_c(y).unwrap() << (i as u32 * ew);
                            }
                            return V::mk(r, tot);
                        }
                        let mut e: Option<E> = None;
                        for y in x.iter() {
                            let ye = self.e(y, ew);
                            e = Some(match e {
                                None => ye,
                                Some(lo) => self.cx.concat(ye, lo),
                            });
                        }
                        self.v(e.unwrap())
                    }
                    _ => panic!("pack"),
                }
            }
        }
    }
    fn cast(&mut self, s: &mut State, c: Cast, ft: Ty, tt: Ty, x: &V) -> R<V> {
        if c == Cast::Bit {
            return Ok(self.bitcast(ft, tt, x));
        }
        if let (Some((n, fe)), Some((_, te))) = (self.m.lanes(ft), self.m.lanes(tt)) {
            return match x {
                V::A(a) => {
                    let mut o = vec![];
                    for i in 0..n as usize {
                        o.push(self.cast(s, c, fe, te, &a[i])?);
                    }
                    Ok(V::A(Rc::new(o)))
                }
                _ => panic!("vector cast"),
            };
        }
        let fw = self.m.bits(ft);
        let tw = self.m.bits(tt);
        Ok(match (c, x) {
            (Cast::ZExt, V::C(k)) => V::mk(*k as u128, tw),
            (Cast::ZExt, V::S(e)) => {
                let r = self.cx.zext(*e, tw);
                self.v(r)
            }
            (Cast::Trunc, V::S(e)) => {
                let r = self.cx.extract(*e, 0, tw);
                self.v(r)
            }
            (Cast::Trunc, v) => V::mk(Self::as_c(v).unwrap(), tw),
            (Cast::SExt, V::S(e)) => {
                let r = self.cx.sext_to(*e, tw);
                self.v(r)
            }
            (Cast::SExt, v) => V::mk(sext(Self::as_c(v).unwrap(), fw) as u128, tw),
            (Cast::PtrInt, V::S(e)) => {
                let r = if tw < fw { self.cx.extract(*e, 0, tw) } else { self.cx.zext(*e, tw) };
                self.v(r)
            }
            (Cast::PtrInt, v) => V::mk(Self::as_c(v).unwrap(), tw),
            (Cast::UIToFP | Cast::SIToFP | Cast::FPExt | Cast::FPTrunc, v) => {
                let fo = match c {
                    Cast::UIToFP => Op::UIToFP,
                    Cast::SIToFP => Op::SIToFP,
                    Cast::FPExt => Op::FPExt,
                    _ => Op::FPTrunc,
                };
                match Self::as_c(v) {
                    Some(k) => V::mk(fold_float(fo, tw, fw, k, k), tw),
                    None => {
                        let e = self.e(v, fw);
                        let r = self.cx.fop(fo, tw, e, e);
                        self.v(r)
                    }
                }
            }
            (Cast::FPToUI | Cast::FPToSI, v) => {
                let k = self.conc(s, v, fw)?;
                let f = if fw == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                if c == Cast::FPToUI {
                    V::mk(f as u128, tw)
                } else {
                    V::mk(f as i128 as u128, tw)
                }
            }
            (c, v) => panic!("cast {:?} {:?}", c, v),
        })
    }
    fn bitcast(&mut self, ft: Ty, tt: Ty, x: &V) -> V {
        match (self.m.lanes(ft), self.m.lanes(tt)) {
            (None, None) => x.clone(),
            (Some((n1, e1)), Some((n2, e2))) => {
                let (w1, w2) = (self.m.bits(e1), self.m.bits(e2));
                if w1 == w2 {
                    return x.clone();
                }
                let v = match x {
                    V::A(v) => v.clone(),
                    _ => panic!("bitcast"),
                };
                if w1 > w2 {
                    let k = w1 / w2;
                    let mut o = vec![];
                    for i in 0..n1 as usize {
                        for j in 0..k {
                            o.push(match Self::as_c(&v[i]) {
                                Some(c) => V::mk(c >> (j * w2), w2),
                                None => {
                                    let e = self.e(&v[i], w1);
                                    let r = self.cx.extract(e, j * w2, w2);
                                    self.v(r)
                                }
                            });
                        }
                    }
                    V::A(Rc::new(o))
                } else {
                    let k = w2 / w1;
                    let mut o = vec![];
                    for i in 0..n2 as usize {
                        let mut e: Option<E> = None;
                        for j in 0..k as usize {
                            let ye = self.e(&v[i * k as usize + j], w1);
                            e = Some(match e {
                                None => ye,
                                Some(lo) => self.cx.concat(ye, lo),
                            });
                        }
                        o.push(self.v(e.unwrap()));
                    }
                    V::A(Rc::new(o))
                }
            }
            (Some(_), None) => self.pack(ft, x),
            (None, Some((n, et))) => {
                let ew = self.m.bits(et);
                let fw = n * ew;
                let mut o = vec![];
                for i in 0..n {
                    o.push(match Self::as_c(x) {
                        Some(c) => V::mk(c >> (i * ew), ew),
                        None => {
                            let e = self.e(x, fw);
                            let r = self.cx.extract(e, i * ew, ew);
                            self.v(r)
                        }
                    });
                }
                V::A(Rc::new(o))
            }
        }
    }

    fn set(&mut self, s: &mut State, c: &CallI, v: V) {
        if let Some(d) = c.dst {
            s.cur.regs[d as usize] = v;
        }
    }
    fn adv(&mut self, s: &mut State, c: &CallI) {
        match c.normal {
            Some(n) => self.jump(s, n),
            None => s.cur.pc += 1,
        }
    }
    fn cstr(&self, s: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(400) {
            match s.mem.byte(p + i) {
                Some((b, e)) if e == NOSYM => v.push(b),
                Some(_) => v.push(b'?'),
                None => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn call(&mut self, s: &mut State, c: &CallI) -> R<()> {
        let f = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Ind(o) => {
                let v = self.op(s, o);
                let a = self.conc(s, &v, 64)?;
                if a < FN_BASE || a >= FN_BASE + 16 * self.m.funcs.len() as u64 || a % 16 != 0 {
                    return self.wild(s, a, "call");
                }
                ((a - FN_BASE) / 16) as u32
            }
            Callee::Asm(t) => {
                if t.contains("cpuid") {
                    let z = self.m.zero(c.rty);
                    self.set(s, c, z);
                    self.adv(s, c);
                    return Ok(());
                }
                if t.is_empty() || t.trim().is_empty() {
                    // optimisation barrier: result (if any) unsupported unless it passes its argument
                    if c.dst.is_some() && !c.args.is_empty() {
                        let v = self.op(s, &c.args[0]);
                        self.set(s, c, v);
                    }
                    self.adv(s, c);
                    return Ok(());
                }
                let t = t.clone();
                return self.give_up(s, &format!("inline assembly {}", t));
            }
        };
        let x = self.ext[f as usize];
        if x == X::Body {
            let args: Vec<V> = c.args.iter().map(|o| self.op(s, o)).collect();
            let np = self.m.funcs[f as usize].nparams as usize;
            let mut args = args;
            args.truncate(np);
            let depth = s.stk.as_ref().map_or(0, |k| k.depth) + 1;
            if depth > 4000 {
                return self.give_up(s, "call depth");
            }
            let mut nf = self.new_frame(f, args, s.cur.sp);
            nf.dst = c.dst;
            nf.normal = c.normal;
            let old = std::mem::replace(&mut s.cur, nf);
            s.stk = Some(Rc::new(Stk { fr: old, up: s.stk.take(), depth }));
            if self.trace {
                eprintln!("{:w$}> {}", "", demangle(&self.m.funcs[f as usize].name), w = depth as usize);
            }
            return Ok(());
        }
        self.external(s, c, f, x)
    }

    fn map1(&mut self, t: Ty, v: &V, f: &mut dyn FnMut(&mut Exec, u32, &V) -> V) -> V {
        match self.m.lanes(t) {
            Some((_, et)) => match v {
                V::A(x) => {
                    let w = self.m.bits(et);
                    let x = x.clone();
                    V::A(Rc::new(x.iter().map(|y| f(self, w, y)).collect()))
                }
                _ => panic!("map1"),
            },
            None => {
                let w = self.m.bits(t);
                f(self, w, v)
            }
        }
    }
    fn map2(&mut self, t: Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Exec, u32, &V, &V) -> V) -> V {
        match self.m.lanes(t) {
            Some((_, et)) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let w = self.m.bits(et);
                    let (x, y) = (x.clone(), y.clone());
                    V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(self, w, p, q)).collect()))
                }
                _ => panic!("map2"),
            },
            None => {
                let w = self.m.bits(t);
                f(self, w, a, b)
            }
        }
    }
    fn minmax(&mut self, w: u32, a: &V, b: &V, signed: bool, max: bool) -> V {
        let c = self.cmp(if signed { Op::Slt } else { Op::Ult }, w, a, b);
        let (l, h) = (a.clone(), b.clone());
        let ce = self.e(&c, 1);
        if max {
            self.itev(ce, w, &h, &l)
        } else {
            self.itev(ce, w, &l, &h)
        }
    }
    fn overflow(&mut self, x: X, w: u32, a: &V, b: &V) -> (V, V) {
        let (op, signed) = match x {
            X::OvUAdd => (Op::Add, false),
            X::OvUSub => (Op::Sub, false),
            X::OvUMul => (Op::Mul, false),
            X::OvSAdd => (Op::Add, true),
            X::OvSSub => (Op::Sub, true),
            _ => (Op::Mul, true),
        };
        let r = self.bin(op, w, a, b);
        if let (Some(p), Some(q)) = (Self::as_c(a), Self::as_c(b)) {
            let o = if w <= 64 {
                if signed {
                    let (p, q) = (sext(p, w), sext(q, w));
                    let e = match op {
                        Op::Add => p + q,
                        Op::Sub => p - q,
                        _ => p.wrapping_mul(q),
                    };
                    e != sext(e as u128 & mask(w), w) || (op == Op::Mul && p.checked_mul(q).is_none())
                } else {
                    match op {
                        Op::Add => p + q > mask(w),
                        Op::Sub => p < q,
                        _ => p.checked_mul(q).map_or(true, |z| z > mask(w)),
                    }
                }
            } else if signed {
                let (p, q) = (p as i128, q as i128);
                match op {
                    Op::Add => p.checked_add(q).is_none(),
                    Op::Sub => p.checked_sub(q).is_none(),
                    _ => p.checked_mul(q).is_none(),
                }
            } else {
                match op {
                    Op::Add => p.checked_add(q).is_none(),
                    Op::Sub => p.checked_sub(q).is_none(),
                    _ => p.checked_mul(q).is_none(),
                }
            };
            return (r, V::C(o as u64));
        }
        let kb = if w <= 128 { Self::as_c(b) } else { None };
        let o = match (op, signed) {
            (Op::Add, false) if kb.is_some() => {
                let lim = V::mk(mask(w) - kb.unwrap(), w);
                self.cmp(Op::Ult, w, &lim, a)
            }
            (Op::Add, true) | (Op::Sub, true) if kb.is_some() && sext(kb.unwrap(), w) != sext(1 << (w - 1), w) => {
                let k = sext(kb.unwrap(), w);
                let k = if op == Op::Add { k } else { -k };
                let max = (mask(w) >> 1) as i128;
                if k >= 0 {
                    let lim = V::mk((max - k) as u128 & mask(w), w);
                    self.cmp(Op::Slt, w, &lim, a)
                } else {
                    let lim = V::mk((-max - 1 - k) as u128 & mask(w), w);
                    self.cmp(Op::Slt, w, a, &lim)
                }
            }
            (Op::Add, false) => self.cmp(Op::Ult, w, &r, a),
            (Op::Sub, false) => self.cmp(Op::Ult, w, a, b),
            (Op::Mul, false) => {
                let (k, v) = match (Self::as_c(a), Self::as_c(b)) {
                    (Some(k), _) => (Some(k), b.clone()),
                    (_, Some(k)) => (Some(k), a.clone()),
                    _ => (None, a.clone()),
                };
                match k {
                    Some(0) => V::C(0),
                    Some(k) => {
                        let lim = V::mk(mask(w) / k, w);
                        self.cmp(Op::Ult, w, &lim, &v)
                    }
                    None if w <= 64 => {
                        let x = self.e(a, w);
                        let y = self.e(b, w);
                        let x = self.cx.zext(x, 2 * w);
                        let y = self.cx.zext(y, 2 * w);
                        let p = self.cx.bin(Op::Mul, x, y);
                        let h = self.cx.extract(p, w, w);
                        let z = self.cx.c(0, w);
                        let q = self.cx.cmp(Op::Eq, h, z);
                        let q = self.cx.not(q);
                        self.v(q)
                    }
                    None => panic!("symbolic 128-bit multiplication overflow"),
                }
            }
            (Op::Add, true) | (Op::Sub, true) => {
                // sign based
                let z = V::mk(0, w);
                let sa = self.cmp(Op::Slt, w, a, &z);
                let sb = self.cmp(Op::Slt, w, b, &z);
                let sr = self.cmp(Op::Slt, w, &r, &z);
                let (sa, sb, sr) = (self.e(&sa, 1), self.e(&sb, 1), self.e(&sr, 1));
                let dab = self.cx.bin(Op::Xor, sa, sb);
                let dar = self.cx.bin(Op::Xor, sa, sr);
                let q = if op == Op::Add {
                    let n = self.cx.not(dab);
                    self.cx.and(n, dar)
                } else {
                    self.cx.and(dab, dar)
                };
                self.v(q)
            }
            _ => {
                // signed mul
                let (k, v) = match (Self::as_c(a), Self::as_c(b)) {
                    (Some(k), _) => (Some(k), b.clone()),
                    (_, Some(k)) => (Some(k), a.clone()),
                    _ => (None, a.clone()),
                };
                match k {
                    Some(k) if sext(k, w) > 0 => {
                        let k = sext(k, w);
                        let max = (mask(w) >> 1) as i128;
                        let min = -max - 1;
                        let hi = V::mk((max / k) as u128, w);
                        let lo = V::mk((min / k) as u128, w);
                        let x = self.cmp(Op::Slt, w, &hi, &v);
                        let y = self.cmp(Op::Slt, w, &v, &lo);
                        self.bin(Op::Or, 1, &x, &y)
                    }
                    Some(0) => V::C(0),
                    _ if w <= 64 => {
                        let x = self.e(a, w);
                        let y = self.e(b, w);
                        let x = self.cx.sext_to(x, 2 * w);
                        let y = self.cx.sext_to(y, 2 * w);
                        let p = self.cx.bin(Op::Mul, x, y);
                        let l = self.cx.extract(p, 0, w);
                        let l = self.cx.sext_to(l, 2 * w);
                        let q = self.cx.cmp(Op::Eq, l, p);
                        let q = self.cx.not(q);
                        self.v(q)
                    }
                    _ => panic!("symbolic 128-bit signed multiplication overflow"),
                }
            }
        };
        (r, o)
    }
    fn bitscan(&mut self, w: u32, v: &V, leading: bool) -> V {
        if let Some(k) = Self::as_c(v) {
            let r = if leading { k.leading_zeros() - (128 - w) } else { k.trailing_zeros().min(w) };
            return V::mk(r as u128, w);
        }
        let e = self.e(v, w);
        let mut r = self.cx.c(w as u128, w);
        // build from least significant priority to most significant priority
        for i in 0..w {
            let bit = if leading { i } else { w - 1 - i };
            let b = self.cx.extract(e, bit, 1);
            let val = if leading { w - 1 - bit } else { bit };
            let k = self.cx.c(val as u128, w);
            r = self.cx.ite(b, k, r);
        }
        self.v(r)
    }

    fn external(&mut self, s: &mut State, c: &CallI, f: u32, x: X) -> R<()> {
        macro_rules! arg {
            ($i:expr) => {
                self.op(s, &c.args[$i])
            };
        }
        macro_rules! cst {
            ($i:expr, $w:expr) => {{
                let v = self.op(s, &c.args[$i]);
                self.conc(s, &v, $w)?
            }};
        }
        let r: V = match x {
            X::Body => unreachable!(),
            X::Nop => V::C(0),
            X::Zero => V::C(0),
            X::Minus1 => {
                let w = self.m.bits(c.rty);
                V::mk(!0, w)
            }
            X::One => V::C(1),
            X::Errno => V::C(self.errno_addr),
            X::Syscall => {
                let n = cst!(0, 64);
                if n == 318 {
                    // getrandom: deterministic bytes (hash seeds)
                    let p = cst!(1, 64);
                    let l = cst!(2, 64);
                    let b = vec![0x5au8; l as usize];
                    s.mem.write(p, &b);
                    V::C(l)
                } else {
                    V::C(!0)
                }
            }
            X::Unknown => {
                let n = self.m.funcs[f as usize].name.clone();
                return self.give_up(s, &format!("call of external function {}", n));
            }
            X::Abort => {
                let m = s.model.clone();
                let st = self.where_(s);
                self.violation(s, "abort", format!("abort in {}", st), &m);
                return Err(Stop::Path);
            }
            X::Panic | X::PanicLoc => {
                // try to find a Location argument: { ptr, len, line, col }
                let mut loc = String::new();
                for o in c.args.iter().rev() {
                    if let V::C(p) = self.op(s, o) {
                        if let (Some(fp), Some(fl), Some(ln), Some(cl)) =
                            (s.mem.load_fast(p, 8), s.mem.load_fast(p + 8, 8), s.mem.load_fast(p + 16, 4), s.mem.load_fast(p + 20, 4))
                        {
                            if fl < 400 && ln > 0 && ln < 100000 && cl > 0 && cl < 1000 && s.mem.mapped(fp, fl) {
                                let fl_ = self.cstr(s, fp, fl);
                                if fl_.ends_with(".rs") {
                                    loc = format!("{}:{}:{}", fl_, ln, cl);
                                    break;
                                }
                            }
                        }
                    }
                }
                let m = s.model.clone();
                self.violation(s, "panic", format!("panic at {}", loc), &m);
                return Err(Stop::Path);
            }
            X::Malloc => {
                let n = cst!(0, 64);
                V::C(self.alloc(s, n, 16))
            }
            X::Calloc => {
                let n = cst!(0, 64).wrapping_mul(cst!(1, 64));
                V::C(self.alloc(s, n, 16))
            }
            X::Realloc => {
                let p = cst!(0, 64);
                let n = cst!(1, 64);
                if p == 0 {
                    V::C(self.alloc(s, n, 16))
                } else {
                    let old = s.mem.load_fast(p - 16, 8).expect("the size of an allocation");
                    if n <= old {
                        V::C(p)
                    } else {
                        let q = self.alloc(s, n, 16);
                        if q != 0 {
                            s.mem.copy(q, p, old);
                        }
                        V::C(q)
                    }
                }
            }
            X::Memalign => {
                let out = cst!(0, 64);
                let al = cst!(1, 64);
                let n = cst!(2, 64);
                let a = self.alloc(s, n, al);
                s.mem.store_fast(out, 8, a);
                V::C(0)
            }
            X::KeyCreate => {
                let out = cst!(0, 64);
                s.mem.store_fast(out, 4, 1);
                V::C(0)
            }
            X::Free => V::C(0),
            X::Memcmp | X::Bcmp => {
                let p = cst!(0, 64);
                let q = cst!(1, 64);
                let n = cst!(2, 64);
                if !s.mem.mapped(p, n) || !s.mem.mapped(q, n) {
                    return self.wild(s, p, "memcmp");
                }
                let mut diffs: Vec<(V, V)> = vec![];
                let mut decided: Option<i32> = None;
                for i in 0..n {
                    let a = s.mem.byte(p + i).unwrap();
                    let b = s.mem.byte(q + i).unwrap();
                    if a.1 == NOSYM && b.1 == NOSYM {
                        if a.0 != b.0 {
                            decided = Some(if a.0 < b.0 { -1 } else { 1 });
                            break;
                        }
                        continue;
                    }
                    let av = if a.1 == NOSYM { V::C(a.0 as u64) } else { V::S(a.1) };
                    let bv = if b.1 == NOSYM { V::C(b.0 as u64) } else { V::S(b.1) };
                    if same(&av, &bv) {
                        continue;
                    }
                    diffs.push((av, bv));
                }
                if diffs.is_empty() {
                    V::mk(decided.unwrap_or(0) as u128, 32)
                } else if x == X::Bcmp && decided.is_some() {
                    V::C(1)
                } else {
                    let mut r = self.cx.c(decided.unwrap_or(0) as u128, 32);
                    for (a, b) in diffs.iter().rev() {
                        let ae = self.e(a, 8);
                        let be = self.e(b, 8);
                        let eq = self.cx.cmp(Op::Eq, ae, be);
                        let d = if x == X::Bcmp {
                            self.cx.c(1, 32)
                        } else {
                            let lt = self.cx.cmp(Op::Ult, ae, be);
                            let m1 = self.cx.c(!0, 32);
                            let p1 = self.cx.c(1, 32);
                            self.cx.ite(lt, m1, p1)
                        };
                        r = self.cx.ite(eq, r, d);
                    }
                    self.v(r)
                }
            }
            X::Strlen => {
                let p = cst!(0, 64);
                let mut n = 0;
                loop {
                    match s.mem.byte(p + n) {
                        Some((0, e)) if e == NOSYM => break,
                        Some((_, e)) if e == NOSYM => n += 1,
                        Some(_) => return self.give_up(s, "strlen of symbolic bytes"),
                        None => return self.wild(s, p, "strlen"),
                    }
                }
                V::C(n)
            }
            X::Memcpy | X::Memmove => {
                let d = cst!(0, 64);
                let p = cst!(1, 64);
                let n = cst!(2, 64);
                if n > 0x1000_0000 || !s.mem.copy(d, p, n) {
                    return self.wild(s, d, "memcpy");
                }
                V::C(d)
            }
            X::Memset => {
                let d = cst!(0, 64);
                let n = cst!(2, 64);
                let v = arg!(1);
                if n > 0x1000_0000 || !s.mem.mapped(d, n) {
                    return self.wild(s, d, "memset");
                }
                match v {
                    V::C(b) => {
                        let buf = vec![b as u8; n as usize];
                        s.mem.write(d, &buf);
                    }
                    V::S(e) => {
                        let e = self.cx.extract(e, 0, 8);
                        for i in 0..n {
                            s.mem.set_byte(d + i, 0, e);
                        }
                    }
                    _ => panic!("memset"),
                }
                V::C(d)
            }
            X::Write => {
                let n = arg!(2);
                n
            }
            X::SymBytes => {
                let p = cst!(0, 64);
                let n = cst!(1, 64);
                if !s.mem.mapped(p, n) {
                    return self.wild(s, p, "sym_bytes");
                }
                for i in 0..n {
                    let k = s.nvars;
                    if k >= 128 {
                        return self.give_up(s, "more than 128 symbolic bytes");
                    }
                    s.nvars += 1;
                    let e = self.cx.var(k);
                    s.dom.push([!0; 4]);
                    s.model.push(0);
                    s.mem.set_byte(p + i, 0, e);
                }
                V::C(0)
            }
            X::SymConc => {
                // concretise an integer: one path per feasible value
                let w = self.m.bits(c.atys[0]);
                let v = arg!(0);
                let k = self.conc(s, &v, w)?;
                V::mk(k as u128, w)
            }
            X::SymIsSym => V::C(matches!(arg!(0), V::S(_)) as u64),
            X::SymAssume => {
                let v = arg!(0);
                match v {
                    V::C(k) => {
                        if k & 1 == 0 {
                            self.st.assumed_away += 1;
                            return Err(Stop::Path);
                        }
                    }
                    V::S(e) => {
                        let e = self.boolify(e);
                        if self.cx.eval(e, &s.model) != 1 {
                            match self.sat(s, e) {
                                Err(e) => return self.give_up(s, &e),
                                Ok(None) => {
                                    self.st.assumed_away += 1;
                                    return Err(Stop::Path);
                                }
                                Ok(Some(m)) => s.model = m,
                            }
                        }
                        self.add_pc(s, e);
                    }
                    _ => panic!("assume"),
                }
                V::C(0)
            }
            X::SymCheck => {
                let v = arg!(0);
                let p = cst!(1, 64);
                let n = cst!(2, 64);
                let lab = self.cstr(s, p, n);
                *self.checks_seen.entry(lab.clone()).or_insert(0) += 1;
                self.st.checks += 1;
                match v {
                    V::C(k) => {
                        self.st.checks_const += 1;
                        if k & 1 == 0 {
                            // the path condition itself is the counterexample: ask the solver for a witness
                            let t = self.cx.t();
                            let mut all = s.pcs.clone();
                            all.push(t);
                            let all = self.rewrite(s, all);
                            match self.solve(s, all) {
                                Err(e) => return self.give_up(s, &e),
                                Ok(Some(m)) => self.violation(s, "check", lab, &m),
                                Ok(None) => {
                                    eprintln!("SYMX-ERROR: path condition unsatisfiable at a failing check");
                                    std::process::exit(70);
                                }
                            }
                            return Err(Stop::Path);
                        }
                    }
                    V::S(e) => {
                        let e = self.boolify(e);
                        let ne = self.cx.not(e);
                        self.st.checks_solver += 1;
                        // relevant slice is computed by sat(); force the SMT solver for assertions
                        let mut all: Vec<E> = s.pcs.clone();
                        let rw = {
                            let mut l = crate::lin::Lin::new(&mut self.cx, &s.dom);
                            l.list(&s.pcs);
                            l.cond(ne)
                        };
                        if self.xcheck && rw != ne {
                            let d = self.cx.bin(Op::Xor, ne, rw);
                            self.cross(s, d, false);
                        }
                        all.push(ne);
                        let all = self.rewrite(s, all);
                        match self.solve(s, all) {
                            Err(er) => return self.give_up(s, &er),
                            Ok(Some(m)) => {
                                self.violation(s, "check", lab, &m);
                                // continue on the satisfying side if there is one
                                match self.sat(s, e) {
                                    Ok(Some(m2)) => {
                                        s.model = m2;
                                        self.add_pc(s, e);
                                    }
                                    _ => return Err(Stop::Path),
                                }
                            }
                            Ok(None) => {}
                        }
                    }
                    _ => panic!("check"),
                }
                V::C(0)
            }
            X::SymReach => {
                let p = cst!(0, 64);
                let n = cst!(1, 64);
                let lab = self.cstr(s, p, n);
                s.reached.push(lab.as_str().into());
                *self.reach.entry(lab).or_insert(0) += 1;
                V::C(0)
            }
            X::SymPrint => {
                let p = cst!(0, 64);
                let n = cst!(1, 64);
                let mut o = String::new();
                for i in 0..n {
                    match s.mem.byte(p + i) {
                        Some((b, e)) if e == NOSYM => o.push(b as char),
                        Some((_, e)) => o.push_str(&format!("<{}>", self.cx.show(e, 4))),
                        None => break,
                    }
                }
                eprintln!("PRINT {} [{}]", o, show_bytes(&s.model));
                V::C(0)
            }
            X::SymParam => {
                let i = cst!(0, 64);
                V::C(self.params.get(i as usize).copied().unwrap_or(0))
            }
            X::TlAddr | X::Expect => arg!(0),
            X::UMin | X::UMax | X::SMin | X::SMax => {
                let (a, b) = (arg!(0), arg!(1));
                self.map2(c.rty, &a, &b, &mut |ex, w, p, q| {
                    ex.minmax(w, p, q, matches!(x, X::SMin | X::SMax), matches!(x, X::UMax | X::SMax))
                })
            }
            X::Abs => {
                let a = arg!(0);
                self.map1(c.rty, &a, &mut |ex, w, p| {
                    let z = V::mk(0, w);
                    let n = ex.bin(Op::Sub, w, &z, p);
                    let ng = ex.cmp(Op::Slt, w, p, &z);
                    let ce = ex.e(&ng, 1);
                    ex.itev(ce, w, &n, p)
                })
            }
            X::OvUAdd | X::OvUSub | X::OvUMul | X::OvSAdd | X::OvSSub | X::OvSMul => {
                let (a, b) = (arg!(0), arg!(1));
                if self.m.lanes(c.atys[0]).is_some() {
                    return self.give_up(s, "vector overflow intrinsic");
                }
                let w = self.m.bits(c.atys[0]);
                if w > 64 && (matches!(a, V::S(_)) && matches!(b, V::S(_))) && matches!(x, X::OvUMul | X::OvSMul) {
                    return self.give_up(s, "symbolic 128-bit multiplication");
                }
                let (r, o) = self.overflow(x, w, &a, &b);
                V::A(Rc::new(vec![r, o]))
            }
            X::SatUAdd | X::SatUSub | X::SatSAdd | X::SatSSub => {
                let (a, b) = (arg!(0), arg!(1));
                self.map2(c.rty, &a, &b, &mut |ex, w, p, q| {
                    let ov = match x {
                        X::SatUAdd => X::OvUAdd,
                        X::SatUSub => X::OvUSub,
                        X::SatSAdd => X::OvSAdd,
                        _ => X::OvSSub,
                    };
                    let (r, o) = ex.overflow(ov, w, p, q);
                    let lim = match x {
                        X::SatUAdd => V::mk(!0, w),
                        X::SatUSub => V::mk(0, w),
                        _ => {
                            // sign of the first operand decides
                            let z = V::mk(0, w);
                            let n = ex.cmp(Op::Slt, w, p, &z);
                            let ce = ex.e(&n, 1);
                            let mn = V::mk(1u128 << (w - 1), w);
                            let mx = V::mk(mask(w) >> 1, w);
                            ex.itev(ce, w, &mn, &mx)
                        }
                    };
                    let ce = ex.e(&o, 1);
                    ex.itev(ce, w, &lim, &r)
                })
            }
            X::Cttz | X::Ctlz => {
                let a = arg!(0);
                self.map1(c.rty, &a, &mut |ex, w, p| ex.bitscan(w, p, x == X::Ctlz))
            }
            X::Ctpop => {
                let a = arg!(0);
                self.map1(c.rty, &a, &mut |ex, w, p| {
                    if let Some(k) = Self::as_c(p) {
                        return V::mk(k.count_ones() as u128, w);
                    }
                    let e = ex.e(p, w);
                    let mut r = ex.cx.c(0, w);
                    for i in 0..w {
                        let b = ex.cx.extract(e, i, 1);
                        let z = ex.cx.zext(b, w);
                        r = ex.cx.bin(Op::Add, r, z);
                    }
                    ex.v(r)
                })
            }
            X::Bswap | X::Bitrev => {
                let a = arg!(0);
                self.map1(c.rty, &a, &mut |ex, w, p| {
                    let u = if x == X::Bswap { 8 } else { 1 };
                    if let Some(k) = Self::as_c(p) {
                        let mut r = 0u128;
                        let mut i = 0;
                        while i < w {
                            r |= ((k >> i) & mask(u)) << (w - u - i);
                            i += u;
                        }
                        return V::mk(r, w);
                    }
                    let e = ex.e(p, w);
                    let mut acc: Option<E> = None;
                    let mut i = 0;
                    while i < w {
                        let b = ex.cx.extract(e, i, u);
                        acc = Some(match acc {
                            None => b,
                            Some(hi) => ex.cx.concat(hi, b),
                        });
                        i += u;
                    }
                    ex.v(acc.unwrap())
                })
            }
            X::Fshl | X::Fshr => {
                let (a, b, k) = (arg!(0), arg!(1), arg!(2));
                if self.m.lanes(c.rty).is_some() {
                    return self.give_up(s, "vector funnel shift");
                }
                let w = self.m.bits(c.rty);
                let k = (self.conc(s, &k, w)? % w as u64) as u32;
                let sh = if x == X::Fshl { k } else { (w - k) % w };
                if sh == 0 {
                    if x == X::Fshl {
                        a
                    } else {
                        b
                    }
                } else {
                    let l = self.bin(Op::Shl, w, &a, &V::mk(sh as u128, w));
                    let r = self.bin(Op::LShr, w, &b, &V::mk((w - sh) as u128, w));
                    self.bin(Op::Or, w, &l, &r)
                }
            }
            X::Ucmp | X::Scmp => {
                let (a, b) = (arg!(0), arg!(1));
                if self.m.lanes(c.rty).is_some() {
                    return self.give_up(s, "vector cmp intrinsic");
                }
                let w = self.m.bits(c.atys[0]);
                let rw = self.m.bits(c.rty);
                let lt = self.cmp(if x == X::Ucmp { Op::Ult } else { Op::Slt }, w, &a, &b);
                let eq = self.cmp(Op::Eq, w, &a, &b);
                let (lt, eq) = (self.e(&lt, 1), self.e(&eq, 1));
                let r = self.itev(eq, rw, &V::mk(0, rw), &V::mk(1, rw));
                self.itev(lt, rw, &V::mk(!0, rw), &r)
            }
            X::RedOr | X::RedAnd | X::RedAdd | X::RedUMax | X::RedUMin => {
                let a = arg!(0);
                let w = self.m.bits(c.rty);
                match a {
                    V::A(vs) => {
                        let mut r = vs[0].clone();
                        for v in &vs[1..] {
                            r = match x {
                                X::RedOr => self.bin(Op::Or, w, &r, v),
                                X::RedAnd => self.bin(Op::And, w, &r, v),
                                X::RedAdd => self.bin(Op::Add, w, &r, v),
                                X::RedUMax => self.minmax(w, &r, v, false, true),
                                _ => self.minmax(w, &r, v, false, false),
                            };
                        }
                        r
                    }
                    _ => panic!("reduce"),
                }
            }
            X::Pshufb => {
                let (a, b) = (arg!(0), arg!(1));
                match (a, b) {
                    (V::A(x), V::A(ix)) => {
                        let n = x.len();
                        let mut o = vec![];
                        for i in 0..n {
                            let lane = i / 16 * 16;
                            o.push(match &ix[i] {
                                V::C(k) => {
                                    if k & 0x80 != 0 {
                                        V::C(0)
                                    } else {
                                        x[lane + (*k as usize & 15)].clone()
                                    }
                                }
                                V::S(e) => {
                                    let top = self.cx.extract(*e, 7, 1);
                                    let lo = self.cx.extract(*e, 0, 4);
                                    let mut r = V::C(0);
                                    for j in 0..16 {
                                        let kj = self.cx.c(j as u128, 4);
                                        let cnd = self.cx.cmp(Op::Eq, lo, kj);
                                        r = self.itev(cnd, 8, &x[lane + j], &r);
                                    }
                                    self.itev(top, 8, &V::C(0), &r)
                                }
                                _ => panic!("pshufb"),
                            });
                        }
                        V::A(Rc::new(o))
                    }
                    _ => panic!("pshufb"),
                }
            }
            X::LoadRel => {
                let p = cst!(0, 64);
                let o = cst!(1, 64);
                match s.mem.load_fast(p.wrapping_add(o), 4) {
                    Some(k) => V::C(p.wrapping_add(k as u32 as i32 as i64 as u64)),
                    None => return self.wild(s, p, "load.relative"),
                }
            }
            X::FAbs => {
                let a = arg!(0);
                let w = self.m.bits(c.rty);
                self.bin(Op::And, w, &a, &V::mk(mask(w) >> 1, w))
            }
            X::FUnary(f) => {
                let w = self.m.bits(c.rty);
                let k = cst!(0, w);
                if w == 32 {
                    let a = f32::from_bits(k as u32);
                    let r = match f {
                        0 => a.log2(),
                        1 => a.ceil(),
                        2 => a.floor(),
                        3 => a.ln(),
                        4 => a.log10(),
                        5 => a.sqrt(),
                        6 => a.round(),
                        _ => a.trunc(),
                    };
                    V::mk(r.to_bits() as u128, w)
                } else {
                    let a = f64::from_bits(k);
                    let r = match f {
                        0 => a.log2(),
                        1 => a.ceil(),
                        2 => a.floor(),
                        3 => a.ln(),
                        4 => a.log10(),
                        5 => a.sqrt(),
                        6 => a.round(),
                        _ => a.trunc(),
                    };
                    V::mk(r.to_bits() as u128, w)
                }
            }
            X::FptoSiSat | X::FptoUiSat => {
                let fw = self.m.bits(c.atys[0]);
                let tw = self.m.bits(c.rty);
                let k = cst!(0, fw);
                let fv = if fw == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                if x == X::FptoUiSat {
                    V::mk((fv as u128).min(mask(tw)), tw)
                } else {
                    let mx = (mask(tw) >> 1) as i128;
                    V::mk((fv as i128).clamp(-mx - 1, mx) as u128, tw)
                }
            }
        };
        self.set(s, c, r);
        self.adv(s, c);
        Ok(())
    }
    fn boolify(&mut self, e: E) -> E {
        let w = self.cx.w(e);
        if w == 1 {
            e
        } else {
            let b = self.cx.extract(e, 0, 1);
            b
        }
    }
}

pub fn show_bytes(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for &c in b {
        for x in std::ascii::escape_default(c) {
            o.push(x as char);
        }
    }
    o.push('"');
    o
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x == y,
        (V::W(x), V::W(y)) => x == y,
        (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)),
        _ => false,
    }
}
fn insert(v: &V, ix: &[u32], e: V) -> V {
    if ix.is_empty() {
        return e;
    }
    match v {
        V::A(x) => {
            let mut y = (**x).clone();
            y[ix[0] as usize] = insert(&x[ix[0] as usize], &ix[1..], e);
            V::A(Rc::new(y))
        }
        _ => panic!("insertvalue"),
    }
}

/// Readable form of a legacy- or v0-mangled name (approximate, for reports only).
pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut l = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                l = l * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + l > b.len() {
                break;
            }
            parts.push(r[i..i + l].to_string());
            i += l;
        }
        if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
            parts.pop();
        }
        let mut s = parts.join("::");
        for (a, b) in [
            ("$LT$", "<"),
            ("$GT$", ">"),
            ("$u20$", " "),
            ("$RF$", "&"),
            ("$C$", ","),
            ("$u7b$", "{"),
            ("$u7d$", "}"),
            ("$LP$", "("),
            ("$RP$", ")"),
            ("$BP$", "*"),
            ("$u5b$", "["),
            ("$u5d$", "]"),
            ("$u3b$", ";"),
            ("$u27$", "'"),
            ("..", "::"),
        ] {
            s = s.replace(a, b);
        }
        return s;
    }
    n.to_string()
}

fn classify(f: &Func) -> X {
    let n = f.name.as_str();
    if f.defined {
        if n.contains("9panicking9panic_fmt17h")
            || n.contains("rust_begin_unwind")
            || n.contains("9panicking20rust_panic_with_hook")
            || n.contains("9panicking18panic_nounwind_fmt")
            || n.contains("9panicking11begin_panic")
        {
            return X::Panic;
        }
        if n.contains("5alloc5alloc18handle_alloc_error") {
            return X::Abort;
        }
        // compiler-rt style definitions of mem* are modelled directly
        return match n {
            "memcpy" => X::Memcpy,
            "memmove" => X::Memmove,
            "memset" => X::Memset,
            "memcmp" => X::Memcmp,
            "bcmp" => X::Bcmp,
            "strlen" => X::Strlen,
            _ => X::Body,
        };
    }
    if let Some(i) = n.strip_prefix("llvm.") {
        let st = |p: &str| i.starts_with(p);
        return if st("memcpy.") {
            X::Memcpy
        } else if st("memmove.") {
            X::Memmove
        } else if st("memset.") {
            X::Memset
        } else if st("assume") || st("lifetime.") || st("experimental.noalias") || st("dbg.") || st("x86.sse2.pause") || st("prefetch") || st("donothing") || st("invariant.") {
            X::Nop
        } else if st("is.constant") || st("x86.xgetbv") || st("x86.rdtsc") {
            X::Zero
        } else if st("threadlocal.address") {
            X::TlAddr
        } else if st("expect.") || st("launder.") || st("strip.") || st("ssa.copy") {
            X::Expect
        } else if st("umin.") {
            X::UMin
        } else if st("umax.") {
            X::UMax
        } else if st("smin.") {
            X::SMin
        } else if st("smax.") {
            X::SMax
        } else if st("abs.") {
            X::Abs
        } else if st("uadd.with") {
            X::OvUAdd
        } else if st("usub.with") {
            X::OvUSub
        } else if st("umul.with") {
            X::OvUMul
        } else if st("sadd.with") {
            X::OvSAdd
        } else if st("ssub.with") {
            X::OvSSub
        } else if st("smul.with") {
            X::OvSMul
        } else if st("uadd.sat") {
            X::SatUAdd
        } else if st("usub.sat") {
            X::SatUSub
        } else if st("sadd.sat") {
            X::SatSAdd
        } else if st("ssub.sat") {
            X::SatSSub
        } else if st("cttz.") {
            X::Cttz
        } else if st("ctlz.") {
            X::Ctlz
        } else if st("ctpop.") {
            X::Ctpop
        } else if st("bswap.") {
            X::Bswap
        } else if st("bitreverse.") {
            X::Bitrev
        } else if st("fshl.") {
            X::Fshl
        } else if st("fshr.") {
            X::Fshr
        } else if st("ucmp.") {
            X::Ucmp
        } else if st("scmp.") {
            X::Scmp
        } else if st("vector.reduce.or") {
            X::RedOr
        } else if st("vector.reduce.and") {
            X::RedAnd
        } else if st("vector.reduce.add") {
            X::RedAdd
        } else if st("vector.reduce.umax") {
            X::RedUMax
        } else if st("vector.reduce.umin") {
            X::RedUMin
        } else if st("x86.ssse3.pshuf.b") || st("x86.avx2.pshuf.b") {
            X::Pshufb
        } else if st("load.relative") {
            X::LoadRel
        } else if st("fabs.") {
            X::FAbs
        } else if let Some(f) = ["log2.", "ceil.", "floor.", "log.", "log10.", "sqrt.", "round.", "trunc."].iter().position(|x| st(x)) {
            X::FUnary(f as u8)
        } else if st("fptosi.sat") {
            X::FptoSiSat
        } else if st("fptoui.sat") {
            X::FptoUiSat
        } else if st("trap") || st("ubsantrap") {
            X::Abort
        } else {
            X::Unknown
        };
    }
    match n {
        "malloc" => X::Malloc,
        "calloc" => X::Calloc,
        "realloc" => X::Realloc,
        "free" => X::Free,
        "posix_memalign" => X::Memalign,
        "memcmp" => X::Memcmp,
        "bcmp" => X::Bcmp,
        "strlen" => X::Strlen,
        "memcpy" => X::Memcpy,
        "memmove" => X::Memmove,
        "memset" => X::Memset,
        "abort" | "_exit" | "exit" => X::Abort,
        "write" | "writev" => X::Write,
        "getenv" => X::Zero,
        "syscall" => X::Syscall,
        "__errno_location" => X::Errno,
        "pthread_key_create" => X::KeyCreate,
        "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_key_delete" => X::Zero,
        "sym_bytes" => X::SymBytes,
        "sym_assume" => X::SymAssume,
        "sym_check" => X::SymCheck,
        "sym_reach" => X::SymReach,
        "sym_param" => X::SymParam,
        "sym_conc" => X::SymConc,
        "sym_is_symbolic" => X::SymIsSym,
        "sym_print" => X::SymPrint,
        "open64" | "read" | "close" | "stat64" | "fstat64" | "sched_getaffinity" | "readlink" | "munmap" => X::Minus1,
        "sysconf" => X::One,
        _ => X::Unknown,
    }
}

pub fn uniq<T: std::hash::Hash + Eq + Clone>(v: Vec<T>) -> Vec<T> {
    let mut h = HashSet::new();
    v.into_iter().filter(|x| h.insert(x.clone())).collect()
}
