//! Flat, paged, copy-on-write memory. Every byte is concrete or an 8-bit expression.
use crate::expr::E;
use std::rc::Rc;

pub const PAGE: usize = 4096;
pub const NOSYM: E = 0xffff_ffff;
const CHUNK: usize = 256;
pub const TOP: u64 = 0x4000_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PAGE],
    pub s: Option<Box<[E; PAGE]>>,
}
#[derive(Clone)]
struct Chunk {
    p: [Option<Rc<Page>>; CHUNK],
}
#[derive(Clone)]
pub struct Mem {
    top: Vec<Option<Rc<Chunk>>>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { top: vec![None; (TOP as usize / PAGE) / CHUNK] }
    }
    pub fn map(&mut self, addr: u64, len: u64) {
        if len == 0 {
            return;
        }
        let a = addr as usize / PAGE;
        let b = (addr + len - 1) as usize / PAGE;
        for pg in a..=b {
            let c = self.top[pg / CHUNK].get_or_insert_with(|| Rc::new(Chunk { p: std::array::from_fn(|_| None) }));
            if c.p[pg % CHUNK].is_none() {
                Rc::make_mut(c).p[pg % CHUNK] = Some(Rc::new(Page { d: [0; PAGE], s: None }));
            }
        }
    }
    #[inline]
    pub fn page(&self, addr: u64) -> Option<&Page> {
        if addr >= TOP {
            return None;
        }
        let pg = addr as usize / PAGE;
        match &self.top[pg / CHUNK] {
            Some(c) => c.p[pg % CHUNK].as_deref(),
            None => None,
        }
    }
    #[inline]
    pub fn page_mut(&mut self, addr: u64) -> Option<&mut Page> {
        if addr >= TOP {
            return None;
        }
        let pg = addr as usize / PAGE;
        match &mut self.top[pg / CHUNK] {
            Some(c) => {
                if c.p[pg % CHUNK].is_none() {
                    return None;
                }
                Some(Rc::make_mut(Rc::make_mut(c).p[pg % CHUNK].as_mut().unwrap()))
            }
            None => None,
        }
    }
    pub fn mapped(&self, addr: u64, len: u64) -> bool {
        if len == 0 {
            return true;
        }
        let mut a = addr & !(PAGE as u64 - 1);
        let end = match addr.checked_add(len) {
            Some(e) => e,
            None => return false,
        };
        while a < end {
            if self.page(a).is_none() {
                return false;
            }
            a += PAGE as u64;
        }
        true
    }
    /// concrete little-endian load of n<=8 bytes if all are concrete. None if unmapped or symbolic.
    #[inline]
    pub fn load_fast(&self, addr: u64, n: usize) -> Option<u64> {
        let p = self.page(addr)?;
        let o = addr as usize % PAGE;
        if o + n > PAGE {
            return None;
        }
        if let Some(s) = &p.s {
            if s[o..o + n].iter().any(|e| *e != NOSYM) {
                return None;
            }
        }
        unsafe {
            let q = p.d.as_ptr().add(o);
            Some(match n {
                1 => *q as u64,
                2 => (q as *const u16).read_unaligned() as u64,
                4 => (q as *const u32).read_unaligned() as u64,
                8 => (q as *const u64).read_unaligned(),
                _ => {
                    let mut v = 0u64;
                    for i in 0..n {
                        v |= (*q.add(i) as u64) << (8 * i);
                    }
                    v
                }
            })
        }
    }
    #[inline]
    pub fn store_fast(&mut self, addr: u64, n: usize, v: u64) -> bool {
        let o = addr as usize % PAGE;
        if o + n > PAGE {
            return false;
        }
        let p = match self.page_mut(addr) {
            Some(p) => p,
            None => return false,
        };
        let b = v.to_le_bytes();
        p.d[o..o + n].copy_from_slice(&b[..n]);
        if let Some(s) = &mut p.s {
            for i in 0..n {
                s[o + i] = NOSYM;
            }
        }
        true
    }
    /// (concrete byte, symbolic expr or NOSYM)
    #[inline]
    pub fn byte(&self, addr: u64) -> Option<(u8, E)> {
        let p = self.page(addr)?;
        let o = addr as usize % PAGE;
        Some((p.d[o], p.s.as_ref().map_or(NOSYM, |s| s[o])))
    }
    pub fn set_byte(&mut self, addr: u64, v: u8, s: E) -> bool {
        let o = addr as usize % PAGE;
        match self.page_mut(addr) {
            None => false,
            Some(p) => {
                p.d[o] = v;
                if s != NOSYM {
                    p.s.get_or_insert_with(|| Box::new([NOSYM; PAGE]))[o] = s;
                } else if let Some(ss) = &mut p.s {
                    ss[o] = NOSYM;
                }
                true
            }
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        if !self.mapped(dst, n) || !self.mapped(src, n) {
            return false;
        }
        // copy through a buffer: handles overlap
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sy: Vec<(usize, E)> = vec![];
        let mut a = src;
        while a < src + n {
            let o = a as usize % PAGE;
            let l = (PAGE - o).min((src + n - a) as usize);
            let p = self.page(a).unwrap();
            if let Some(s) = &p.s {
                for i in 0..l {
                    if s[o + i] != NOSYM {
                        sy.push((buf.len() + i, s[o + i]));
                    }
                }
            }
            buf.extend_from_slice(&p.d[o..o + l]);
            a += l as u64;
        }
        self.write(dst, &buf);
        for (i, e) in sy {
            self.set_byte(dst + i as u64, 0, e);
        }
        true
    }
    /// concrete write
    pub fn write(&mut self, dst: u64, buf: &[u8]) -> bool {
        if !self.mapped(dst, buf.len() as u64) {
            return false;
        }
        let n = buf.len() as u64;
        let mut a = dst;
        while a < dst + n {
            let o = a as usize % PAGE;
            let l = (PAGE - o).min((dst + n - a) as usize);
            let p = self.page_mut(a).unwrap();
            let st = (a - dst) as usize;
            p.d[o..o + l].copy_from_slice(&buf[st..st + l]);
            if let Some(s) = &mut p.s {
                for i in 0..l {
                    s[o + i] = NOSYM;
                }
            }
            a += l as u64;
        }
        true
    }
}
