//! Flat 32-bit paged memory with copy-on-write pages; each byte is concrete or a byte of an expression.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; 256],
    pub s: Option<Box<[u64; 256]>>, // 0 = concrete, else ((expr+1)<<8)|byte index
}
type L3 = [Option<Rc<Page>>; 256];
type L2 = [Option<Rc<L3>>; 256];
type L1 = [Option<Rc<L2>>; 256];
#[derive(Clone)]
pub struct Mem {
    top: Rc<L1>,
}
#[derive(Clone, Copy, Debug)]
pub enum B {
    C(u8),
    S(E, u8),
}
const fn none3() -> L3 {
    [const { None }; 256]
}
const fn none2() -> L2 {
    [const { None }; 256]
}
impl Mem {
    pub fn new() -> Mem {
        Mem { top: Rc::new([const { None }; 256]) }
    }
    #[inline]
    pub fn page(&self, addr: u64) -> Option<&Page> {
        let a = addr as usize;
        self.top[(a >> 24) & 255].as_ref()?[(a >> 16) & 255].as_ref()?[(a >> 8) & 255].as_deref()
    }
    #[inline]
    pub fn page_mut(&mut self, addr: u64) -> &mut Page {
        let a = addr as usize;
        let t = Rc::make_mut(&mut self.top);
        let l2 = Rc::make_mut(t[(a >> 24) & 255].get_or_insert_with(|| Rc::new(none2())));
        let l3 = Rc::make_mut(l2[(a >> 16) & 255].get_or_insert_with(|| Rc::new(none3())));
        Rc::make_mut(l3[(a >> 8) & 255].get_or_insert_with(|| Rc::new(Page { d: [0; 256], s: None })))
    }
    /// fast path: all-concrete read of n<=16 bytes
    #[inline]
    pub fn read_c(&self, addr: u64, n: usize) -> Option<u128> {
        let o = (addr & 255) as usize;
        if o + n <= 256 {
            match self.page(addr) {
                None => return Some(0),
                Some(p) => {
                    if let Some(s) = &p.s {
                        if s[o..o + n].iter().any(|&x| x != 0) {
                            return None;
                        }
                    }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&p.d[o..o + n]);
                    return Some(u128::from_le_bytes(b));
                }
            }
        }
        let mut v = 0u128;
        for i in 0..n {
            match self.byte(addr + i as u64) {
                B::C(b) => v |= (b as u128) << (8 * i),
                _ => return None,
            }
        }
        Some(v)
    }
    pub fn byte(&self, addr: u64) -> B {
        let o = (addr & 255) as usize;
        match self.page(addr) {
            None => B::C(0),
            Some(p) => {
                if let Some(s) = &p.s {
                    if s[o] != 0 {
                        return B::S(((s[o] >> 8) - 1) as E, (s[o] & 255) as u8);
                    }
                }
                B::C(p.d[o])
            }
        }
    }
    #[inline]
    pub fn write_c(&mut self, addr: u64, v: u128, n: usize) {
        let o = (addr & 255) as usize;
        let b = v.to_le_bytes();
        if o + n <= 256 {
            let p = self.page_mut(addr);
            p.d[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.s {
                s[o..o + n].fill(0);
            }
        } else {
            for i in 0..n {
                self.set_byte(addr + i as u64, B::C(b[i]));
            }
        }
    }
    pub fn set_byte(&mut self, addr: u64, b: B) {
        let o = (addr & 255) as usize;
        let p = self.page_mut(addr);
        match b {
            B::C(v) => {
                p.d[o] = v;
                if let Some(s) = &mut p.s {
                    s[o] = 0;
                }
            }
            B::S(e, i) => {
                let s = p.s.get_or_insert_with(|| Box::new([0; 256]));
                s[o] = ((e as u64 + 1) << 8) | i as u64;
            }
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if dst == src || n == 0 {
            return;
        }
        // snapshot source bytes (memmove semantics)
        let mut i = 0;
        if n <= 64 {
            let mut tmp = [B::C(0); 64];
            for k in 0..n {
                tmp[k as usize] = self.byte(src + k);
            }
            // fast concrete
            while i < n {
                self.set_byte(dst + i, tmp[i as usize]);
                i += 1;
            }
            return;
        }
        let tmp: Vec<B> = (0..n).map(|k| self.byte(src + k)).collect();
        for (k, b) in tmp.into_iter().enumerate() {
            self.set_byte(dst + k as u64, b);
        }
    }
}
