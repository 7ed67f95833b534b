//! Random EVM programs.
//!
//! Programs are control-flow graphs of blocks with a known entry stack depth, built from every opcode, with operands
//! that are biased towards the boundary values of each, in the idioms that compilers emit (dispatchers, internal
//! functions with return addresses, shared tails), plus byte-level mutations of those.

use alloy_primitives::{Address, U256};
use simk::Rng;

pub struct Env {
    /// Addresses worth naming.
    pub addrs: Vec<Address>,
    pub spec: u8,
}

#[derive(Clone, Copy)]
struct Lbl(usize);

pub struct Gen<'a> {
    r: &'a mut Rng,
    env: &'a Env,
    code: Vec<u8>,
    fix: Vec<(usize, Lbl)>,
    labels: Vec<Option<usize>>,
    /// Known stack depth.
    d: usize,
    snippets: Vec<Vec<u8>>,
    push0: bool,
    heavy: u64,
}

/// (opcode, inputs, outputs) without control flow, pushes, dups and swaps.
const PURE: &[(u8, usize, usize)] = &[
    (0x01, 2, 1), (0x02, 2, 1), (0x03, 2, 1), (0x04, 2, 1), (0x05, 2, 1), (0x06, 2, 1), (0x07, 2, 1), (0x08, 3, 1),
    (0x09, 3, 1), (0x0a, 2, 1), (0x0b, 2, 1), (0x10, 2, 1), (0x11, 2, 1), (0x12, 2, 1), (0x13, 2, 1), (0x14, 2, 1),
    (0x15, 1, 1), (0x16, 2, 1), (0x17, 2, 1), (0x18, 2, 1), (0x19, 1, 1), (0x1a, 2, 1), (0x1b, 2, 1), (0x1c, 2, 1),
    (0x1d, 2, 1), (0x1e, 1, 1),
];
const ENVOPS: &[u8] = &[
    0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59,
    0x5a, 0x5a, 0x59,
];

pub fn word(r: &mut Rng) -> U256 {
    match r.below(16) {
        0 => U256::ZERO,
        1 => U256::from(1),
        2 => U256::MAX,
        3 => U256::MAX - U256::from(r.below(4)),
        4 => U256::from(1) << (r.below(256) as usize),
        5 => (U256::from(1) << (r.below(256) as usize)) - U256::from(1),
        6 => U256::MAX << (r.below(256) as usize),
        7 => U256::from(r.below(300)),
        8 => U256::from(r.below(70)),
        9 => U256::from(31 + r.below(3)),
        10 => U256::from(255 + r.below(3)),
        11 => U256::from(r.next()),
        12 => (U256::from(1) << 255) + U256::from(r.below(3)) - U256::from(1),
        13 => U256::from(r.next() as u32),
        14 => U256::from(u64::MAX) + U256::from(r.below(3)) - U256::from(1),
        _ => {
            let mut b = [0u8; 32];
            for c in b.iter_mut() {
                *c = r.next() as u8;
            }
            U256::from_be_bytes(b)
        }
    }
}

/// What the parts of a structured program share.
struct Sol {
    tails: Vec<Vec<u8>>,
    panic: Lbl,
}

impl<'a> Gen<'a> {
    fn new(r: &'a mut Rng, env: &'a Env) -> Self {
        // PUSH0 exists since Shanghai; use it (sparingly) before as well.
        let push0 = env.spec >= revm_primitives::hardfork::SpecId::SHANGHAI as u8 || r.below(20) == 0;
        let heavy = 1 + r.below(4);
        Self { r, env, code: vec![], fix: vec![], labels: vec![], d: 0, snippets: vec![], push0, heavy }
    }
    fn op(&mut self, o: u8) {
        self.code.push(o)
    }
    fn push(&mut self, v: U256) {
        self.d += 1;
        if v.is_zero() && self.push0 && self.r.below(3) > 0 {
            return self.op(0x5f);
        }
        let b = v.to_be_bytes::<32>();
        let min = (32 - b.iter().take_while(|x| **x == 0).count()).max(1);
        let n = if self.r.below(12) == 0 { min + self.r.below(33 - min as u64) as usize } else { min };
        self.op(0x5f + n as u8);
        self.code.extend_from_slice(&b[32 - n..]);
    }
    fn pushn(&mut self, v: u64) {
        self.push(U256::from(v))
    }
    fn label(&mut self) -> Lbl {
        self.labels.push(None);
        Lbl(self.labels.len() - 1)
    }
    fn push_label(&mut self, l: Lbl) {
        self.d += 1;
        if self.r.below(40) == 0 {
            // Padded, or close to a valid target but far above all code.
            let n = *pick(self.r, &[3usize, 4, 5, 8, 9, 16, 32]);
            let mut b = vec![0u8; n];
            if self.r.below(3) == 0 {
                b[self.r.below(n as u64 - 2) as usize] = *pick(self.r, &[1, 0x80, 0xff]);
            }
            self.op(0x5f + n as u8);
            self.fix.push((self.code.len() + n - 2, l));
            self.code.extend(b);
            return;
        }
        self.op(0x61);
        self.fix.push((self.code.len(), l));
        self.code.extend_from_slice(&[0, 0]);
    }
    fn place(&mut self, l: Lbl) {
        self.labels[l.0] = Some(self.code.len());
        self.op(0x5b);
    }
    /// Whether to use an opcode: nearly never before the hardfork that has it.
    fn has(&mut self, o: u8) -> bool {
        use revm_primitives::hardfork::SpecId::*;
        let since = match o {
            0xf4 => HOMESTEAD,
            0x3d | 0x3e | 0xfa | 0xfd => BYZANTIUM,
            0x1b..=0x1d | 0x3f | 0xf5 => PETERSBURG,
            0x46 | 0x47 => ISTANBUL,
            0x48 => LONDON,
            0x5f => SHANGHAI,
            0x49 | 0x4a | 0x5c | 0x5d | 0x5e => CANCUN,
            0x1e => OSAKA,
            0x4b | 0xe6..=0xe8 => AMSTERDAM,
            _ => FRONTIER,
        };
        self.env.spec >= since as u8 || self.ch(1, 80)
    }
    fn pick_op(&mut self, of: &[u8]) -> u8 {
        for _ in 0..20 {
            let o = *pick(self.r, of);
            if self.has(o) {
                return o;
            }
        }
        of[0]
    }
    fn ch(&mut self, n: u64, of: u64) -> bool {
        self.r.below(of) < n
    }
    /// A value that the analysis cannot know.
    fn dynamic(&mut self) {
        match self.r.below(6) {
            0 | 1 => {
                let o = self.r.below(5) * 32;
                self.pushn(o);
                self.op(0x35);
            }
            2 => {
                let o = self.r.below(4) * 32;
                self.pushn(o);
                self.op(0x51);
            }
            3 => {
                let o = self.r.below(4);
                self.pushn(o);
                self.op(0x54);
            }
            4 => {
                { let o = self.pick_op(&[0x36, 0x33, 0x42, 0x43, 0x47, 0x30]); self.op(o); }
                self.d += 1;
            }
            _ => {
                { let o = self.pick_op(&[0x5a, 0x59, 0x3d, 0x58]); self.op(o); }
                self.d += 1;
            }
        }
    }
    fn mem_off(&mut self) {
        match self.r.below(20) {
            0 => {
                let v = self.r.below(4096);
                self.pushn(v)
            }
            1 => self.dynamic_small(),
            2 if self.ch(1, 6) => {
                let v = word(self.r);
                self.push(v)
            }
            3..=5 => {
                let v = self.r.below(200);
                self.pushn(v)
            }
            _ => {
                let v = self.r.below(8) * 32;
                self.pushn(v)
            }
        }
    }
    fn dynamic_small(&mut self) {
        self.dynamic();
        let m = *pick(self.r, &[0x1f, 0x3f, 0x7f, 0xff]);
        self.pushn(m);
        self.op(0x16);
        self.d -= 1;
    }
    fn mem_len(&mut self) {
        match self.r.below(16) {
            0 => self.pushn(0),
            1 => self.dynamic_small(),
            2 if self.ch(1, 8) => {
                let v = word(self.r);
                self.push(v)
            }
            3..=6 => {
                let v = self.r.below(100);
                self.pushn(v)
            }
            _ => {
                let v = 32 * (1 + self.r.below(3));
                self.pushn(v)
            }
        }
    }
    fn addr(&mut self) {
        match self.r.below(12) {
            0 => {
                let v = word(self.r);
                self.push(v)
            }
            1 => {
                self.op(0x30);
                self.d += 1
            }
            2 => {
                { let o = self.pick_op(&[0x33, 0x32, 0x41]); self.op(o); }
                self.d += 1
            }
            3 => {
                let v = 1 + self.r.below(11);
                self.pushn(v)
            }
            4 => self.dynamic(),
            _ => {
                let a = *pick(self.r, &self.env.addrs);
                self.push(U256::from_be_slice(a.as_slice()))
            }
        }
    }
    fn value(&mut self) {
        match self.r.below(8) {
            0 => self.pushn(1),
            1 => {
                let v = self.r.below(1000);
                self.pushn(v)
            }
            2 if self.ch(1, 3) => {
                let v = word(self.r);
                self.push(v)
            }
            3 if self.ch(1, 3) => {
                self.op(0x34);
                self.d += 1
            }
            4 if self.ch(1, 3) && self.has(0x47) => {
                // All there is, or one more.
                self.op(0x47);
                self.d += 1;
                if self.ch(1, 2) {
                    self.pushn(1);
                    self.op(0x01);
                    self.d -= 1;
                }
            }
            _ => self.pushn(0),
        }
    }
    /// A value that only the generator knows.
    fn opaque(&mut self, v: U256) {
        self.push(v);
        let o = *pick(self.r, &[0x01, 0x17, 0x18]);
        self.code.extend_from_slice(&[0x30, 0x15, o]);
    }
    fn given(&mut self, v: U256) {
        if self.ch(1, 2) { self.opaque(v) } else { self.push(v) }
    }
    /// Pure operations on operands next to where their result changes shape.
    fn arith(&mut self) {
        let mut at = 0;
        for _ in 0..1 + self.r.below(6) {
            let (mut o, mut i, _) = *pick(self.r, PURE);
            while !self.has(o) {
                (o, i, _) = *pick(self.r, PURE);
            }
            if self.ch(1, 6) && self.has(0x0a) {
                (o, i) = (0x0a, 2);
            }
            let a = word(self.r);
            // The first operand is pushed last.
            match o {
                0x0a => {
                    let k = if self.ch(1, 2) { self.r.below(12) as usize } else { self.r.below(256) as usize };
                    let base = match self.r.below(8) {
                        0 => U256::from(self.r.below(12)),
                        1 => a,
                        _ => U256::from(1) << k,
                    };
                    let edge = if k == 0 { 1 } else { 256usize.div_ceil(k) };
                    let e = match self.r.below(8) {
                        0 => word(self.r),
                        1 => U256::from(self.r.below(5)),
                        2 => U256::from(255 + self.r.below(3)),
                        3 => (U256::from(1) << (8 * self.r.below(32) as usize)) - U256::from(self.r.below(2)),
                        _ => U256::from((edge + self.r.below(3) as usize).saturating_sub(1)),
                    };
                    self.given(e);
                    self.given(base);
                }
                0x0b | 0x1a..=0x1d => {
                    let v = match self.r.below(5) {
                        0 => U256::from(*pick(self.r, &[0u64, 1, 29, 30, 31, 32, 33])),
                        1 => U256::from(254 + self.r.below(5)),
                        2 => U256::from(self.r.below(260)),
                        3 => U256::from(1) << *pick(self.r, &[32usize, 63, 64, 128, 255]),
                        _ => word(self.r),
                    };
                    self.given(a);
                    self.given(v);
                }
                _ => {
                    let mut l = a;
                    for _ in 0..i {
                        let v = match self.r.below(6) {
                            0 => l,
                            1 => l.wrapping_add(U256::from(1)),
                            2 => U256::ZERO.wrapping_sub(l),
                            3 => !l,
                            _ => word(self.r),
                        };
                        self.given(v);
                        l = v;
                    }
                    if i > 1 && self.ch(1, 12) {
                        // The same value, known to be the same.
                        self.code.extend_from_slice(&[0x80, 0x91, 0x50]);
                    }
                }
            }
            self.op(o);
            self.d = 1;
            match self.r.below(5) {
                0 => self.op(0x15),
                1 => self.code.extend_from_slice(&[0x15, 0x15]),
                2 => self.code.extend_from_slice(&[0x80, 0x60, 0xff, 0x16, 0x18]),
                _ => {}
            }
            self.pushn(at);
            self.op(0x52);
            at += 32;
            self.d = 0;
        }
        self.op(0x5a);
        self.pushn(at);
        self.op(0x52);
        self.pushn(at + 32);
        self.pushn(0);
        self.op(0xf3);
        self.d = 0;
    }
    fn any(&mut self) {
        match self.r.below(8) {
            0..=3 => {
                let v = word(self.r);
                if self.ch(1, 8) { self.opaque(v) } else { self.push(v) }
            }
            4 | 5 => self.dynamic(),
            6 if self.d > 0 => {
                let n = 1 + self.r.below(self.d.min(16) as u64) as u8;
                self.op(0x7f + n);
                self.d += 1;
            }
            _ => {
                { let o = self.pick_op(ENVOPS); self.op(o); }
                self.d += 1
            }
        }
    }
    /// Makes sure at least `n` operands are there, of whatever kind.
    fn need(&mut self, n: usize) {
        let fresh = self.r.below(3) > 0;
        let have = if fresh { 0 } else { self.d.min(n) };
        for _ in have..n {
            self.any();
        }
    }
    fn pure(&mut self) {
        let (mut o, mut i, mut out) = *pick(self.r, PURE);
        while !self.has(o) {
            (o, i, out) = *pick(self.r, PURE);
        }
        if o == 0x0a && self.ch(3, 4) {
            // EXP with boundary exponents.
            let e = word(self.r);
            self.push(e);
            if self.ch(1, 2) {
                let b = *pick(self.r, &[0u64, 1, 2, 3, 4, 8, 10, 16, 256, 255]);
                self.pushn(b);
            } else {
                self.any();
            }
        } else if matches!(o, 0x0b | 0x1a..=0x1d) && self.ch(3, 4) {
            self.any();
            let v = match self.r.below(4) {
                0 => U256::from(self.r.below(34)),
                1 => U256::from(250 + self.r.below(10)),
                2 => U256::from(self.r.below(260)),
                _ => word(self.r),
            };
            self.push(v);
        } else {
            self.need(i);
        }
        self.op(o);
        self.d = self.d - i + out;
    }
    fn stackop(&mut self) {
        if self.env.spec >= revm_primitives::hardfork::SpecId::AMSTERDAM as u8 && self.ch(1, 3) {
            return self.far();
        }
        match self.r.below(10) {
            0..=3 if self.d > 0 => {
                let n = 1 + self.r.below(self.d.min(16) as u64) as u8;
                self.op(0x7f + n);
                self.d += 1;
            }
            4..=6 if self.d > 1 => {
                let n = 1 + self.r.below((self.d - 1).min(16) as u64) as u8;
                self.op(0x8f + n);
            }
            7 if self.d > 0 => {
                self.op(0x50);
                self.d -= 1;
            }
            8 if self.d > 2 => {
                // Peephole fodder.
                let s: &[u8] = pick(self.r, &[
                    &[0x90, 0x90][..], &[0x80, 0x50], &[0x15, 0x15], &[0x19, 0x19], &[0x91, 0x91], &[0x80, 0x14, 0x50, 0x58],
                    &[0x81, 0x90], &[0x90, 0x03], &[0x90, 0x10, 0x58],
                ]);
                let t = s.to_vec();
                let delta: i64 = t
                    .iter()
                    .map(|o| match o {
                        0x80 | 0x81 | 0x58 => 1,
                        0x50 => -1,
                        0x14 | 0x03 | 0x10 => -1,
                        _ => 0,
                    })
                    .sum();
                self.code.extend_from_slice(&t);
                self.d = (self.d as i64 + delta) as usize;
            }
            _ => self.any(),
        }
    }
    /// DUPN, SWAPN, EXCHANGE and SLOTNUM.
    fn far(&mut self) {
        match self.r.below(4) {
            0 => {
                self.op(0x4b);
                self.d += 1;
            }
            k if self.ch(1, 3) => self.brink(k as u8),
            k => {
                let b = match self.r.below(4) {
                    0 => self.r.next() as u8,
                    1 => *pick(self.r, &[0x00, 0x5b, 0x7f, 0x80, 0x5a, 0xff]),
                    _ => {
                        // Within reach: 17 and more for DUPN and SWAPN.
                        while self.d < 22 {
                            self.any();
                        }
                        0x80 | self.r.below(4) as u8
                    }
                };
                self.op(0xe5 + k as u8);
                self.op(b);
                if k == 1 {
                    self.d += 1;
                }
            }
        }
    }
    /// The deepest item there is, or one beside it, and then what became of all of them.
    fn brink(&mut self, k: u8) {
        let least = if k == 3 { 3 } else { 18 };
        while self.d < least {
            if self.ch(1, 4) { self.any() } else { self.value() }
        }
        let d = self.d as i64;
        let near = |x: i64| (d - 2..=d).contains(&x);
        // Immediates of EIP-8024.
        let all: Vec<u8> = (0..=255u8)
            .filter(|x| {
                if k == 3 {
                    let y = (*x ^ 143) as i64;
                    let (q, r) = (y / 16, y % 16);
                    (*x <= 81 || *x >= 128) && near(if q < r { r + 1 } else { 29 - q })
                } else {
                    (*x <= 90 || *x >= 128) && near((*x as i64 + 145) % 256)
                }
            })
            .collect();
        if all.is_empty() {
            return;
        }
        let b = *pick(self.r, &all);
        self.op(0xe5 + k);
        self.op(b);
        if k == 1 {
            self.d += 1;
        }
        if self.ch(1, 2) {
            while self.d > 1 {
                let o = *pick(self.r, &[0x01u8, 0x03, 0x18, 0x02]);
                self.op(o);
                self.d -= 1;
            }
            self.mem_off();
            self.op(0x52);
            self.d -= 2;
        }
    }
    fn memory(&mut self) {
        match self.r.below(12) {
            0..=3 => {
                self.need(1);
                self.mem_off();
                self.op(0x52);
                self.d -= 2;
            }
            4 => {
                self.need(1);
                self.mem_off();
                self.op(0x53);
                self.d -= 2;
            }
            5 | 6 => {
                self.mem_off();
                self.op(0x51);
            }
            7 => {
                self.mem_len();
                self.mem_off();
                self.op(0x20);
                self.d -= 1;
            }
            8 if self.env.spec >= revm_primitives::hardfork::SpecId::CANCUN as u8 || self.ch(1, 10) => {
                self.mem_len();
                self.mem_off();
                self.mem_off();
                self.op(0x5e);
                self.d -= 3;
            }
            9 | 10 => {
                // CALLDATACOPY, CODECOPY, RETURNDATACOPY
                let o = self.pick_op(&[0x37u8, 0x39, 0x3e]);
                if o == 0x3e && self.ch(2, 3) {
                    self.op(0x3d);
                    self.d += 1;
                    if self.ch(1, 2) { self.pushn(0) } else { self.mem_off() }
                } else {
                    self.mem_len();
                    self.mem_off();
                }
                self.mem_off();
                self.op(o);
                self.d -= 3;
            }
            _ => {
                self.mem_len();
                self.mem_off();
                self.mem_off();
                self.addr();
                self.op(0x3c);
                self.d -= 4;
            }
        }
    }
    fn state(&mut self) {
        match self.r.below(16) {
            0..=3 => {
                self.need(1);
                let s = self.r.below(5);
                if self.ch(5, 6) { self.pushn(s) } else { self.any() }
                self.op(0x55);
                self.d -= 2;
            }
            4..=6 => {
                let s = self.r.below(5);
                if self.ch(5, 6) { self.pushn(s) } else { self.any() }
                self.op(0x54);
            }
            7 if self.has(0x5c) => {
                let s = self.r.below(3);
                self.pushn(s);
                self.op(0x5c);
            }
            8 if self.has(0x5d) => {
                self.need(1);
                let s = self.r.below(3);
                self.pushn(s);
                self.op(0x5d);
                self.d -= 2;
            }
            9 | 10 => {
                self.addr();
                { let o = self.pick_op(&[0x31, 0x3b, 0x3f]); self.op(o); }
            }
            11 => {
                if self.r.below(2) == 0 {
                    // Relative to the current block.
                    let k = *pick(self.r, &[0, 1, 2, 100, 254, 255, 256, 256, 257, 258, 300]);
                    self.pushn(k);
                    self.op(0x43);
                    self.op(0x03);
                    self.d -= 1;
                } else {
                    let v = match self.r.below(3) {
                        0 => U256::from(self.r.below(600)),
                        1 => U256::from(240 + self.r.below(270)),
                        _ => word(self.r),
                    };
                    self.push(v);
                }
                self.op(0x40);
            }
            12 if self.has(0x49) => {
                let v = *pick(self.r, &[0, 0, 1, 2, 3, 6, 255, 256, 257, 65536, 1 << 32]);
                self.pushn(v);
                self.op(0x49);
            }
            13 => {
                self.any();
                self.op(0x35);
            }
            _ => {
                let n = self.r.below(5) as usize;
                for _ in 0..n {
                    self.any();
                }
                self.mem_len();
                self.mem_off();
                self.op(0xa0 + n as u8);
                self.d -= 2 + n;
            }
        }
    }
    fn call(&mut self) {
        let o = self.pick_op(&[0xf1u8, 0xf1, 0xf2, 0xf4, 0xfa]);
        self.mem_len();
        self.mem_off();
        self.mem_len();
        self.mem_off();
        if matches!(o, 0xf1 | 0xf2) {
            self.value();
        }
        self.addr();
        match self.r.below(5) {
            0 => {
                self.op(0x5a);
                self.d += 1
            }
            1 => {
                let v = word(self.r);
                self.push(v)
            }
            2 => {
                let v = self.r.below(3000);
                self.pushn(v)
            }
            _ => {
                let v = self.r.below(200_000);
                self.pushn(v)
            }
        }
        self.op(o);
        self.d -= if matches!(o, 0xf1 | 0xf2) { 6 } else { 5 };
        if self.ch(1, 2) && self.has(0x3d) {
            self.op(0x3d);
            self.d += 1;
        }
    }
    /// Forwards the call, as proxies do.
    fn proxy(&mut self) {
        let o = self.pick_op(&[0xf1u8, 0xf2, 0xf4, 0xf4, 0xfa]);
        // Everything that was passed.
        for b in [0x36, 0x60, 0, 0x60, 0, 0x37] {
            self.op(b);
        }
        for b in [0x60, 0, 0x60, 0, 0x36, 0x60, 0] {
            self.op(b);
        }
        self.d += 4;
        if matches!(o, 0xf1 | 0xf2) {
            match self.r.below(4) {
                0 | 1 => {
                    self.op(0x34);
                    self.d += 1;
                }
                2 => {
                    // More than there is, maybe.
                    let v = 900 + self.r.below(300);
                    self.pushn(v)
                }
                _ => self.value(),
            }
        }
        self.addr();
        if self.ch(3, 4) {
            self.op(0x5a);
            self.d += 1;
        } else {
            let v = self.r.below(200_000);
            self.pushn(v);
        }
        self.op(o);
        self.d -= if matches!(o, 0xf1 | 0xf2) { 6 } else { 5 };
        if self.has(0x3d) && self.ch(3, 4) {
            for b in [0x3d, 0x60, 0, 0x60, 0, 0x3e] {
                self.op(b);
            }
            if self.ch(1, 2) {
                let at = self.code.len() as u8 + 9;
                for b in [0x60, at, 0x57, 0x3d, 0x60, 0, 0xfd, 0x00, 0x00, 0x5b, 0x3d, 0x60, 0, 0xf3] {
                    self.op(b);
                }
                self.d -= 1;
                return;
            }
        }
        if self.ch(1, 2) {
            self.op(0x5a);
            self.d += 1;
        }
        self.finish();
    }
    fn create(&mut self) {
        const INITS: &[&[u8]] = &[
            // returns one byte of code (STOP)
            &[0x60, 0x01, 0x60, 0x00, 0xf3],
            // returns PUSH1 7 PUSH1 0 MSTORE PUSH1 32 PUSH1 0 RETURN
            &[0x69, 0x60, 0x07, 0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xf3, 0x60, 0x00, 0x52, 0x60, 0x0a, 0x60, 0x16, 0xf3],
            // reverts with 32 bytes
            &[0x60, 0x20, 0x60, 0x00, 0xfd],
            // invalid
            &[0xfe],
            // code starting with 0xef
            &[0x60, 0xef, 0x60, 0x00, 0x53, 0x60, 0x01, 0x60, 0x00, 0xf3],
            // selfdestruct to caller
            &[0x33, 0xff],
            // sstore, stop
            &[0x60, 0x01, 0x60, 0x02, 0x55, 0x00],
            // address balance callvalue return
            &[0x30, 0x60, 0x00, 0x52, 0x34, 0x60, 0x20, 0x52, 0x60, 0x40, 0x60, 0x00, 0xf3],
            &[],
        ];
        let init = pick(self.r, INITS).to_vec();
        if self.ch(4, 5) && !init.is_empty() {
            let mut w = [0u8; 32];
            w[..init.len()].copy_from_slice(&init);
            self.push(U256::from_be_bytes(w));
            self.pushn(0);
            self.op(0x52);
            self.d -= 2;
        }
        let two = self.ch(1, 2) && self.has(0xf5);
        // A copy of the creator runs as init code.
        let own = self.ch(1, 8);
        if own {
            for b in [0x38, 0x60, 0, 0x60, 0, 0x39] {
                self.op(b);
            }
        }
        if two {
            self.any();
        }
        if own {
            self.op(0x38);
            self.d += 1;
        } else if self.ch(1, 40) {
            let n = 49_151 + self.r.below(3);
            self.pushn(n);
        } else if self.ch(5, 6) { self.pushn(init.len() as u64) } else { self.mem_len() }
        if self.ch(5, 6) { self.pushn(0) } else { self.mem_off() }
        self.value();
        self.op(if two { 0xf5 } else { 0xf0 });
        self.d -= if two { 3 } else { 2 };
    }
    fn stmt(&mut self) {
        let h = self.heavy;
        match self.r.below(30 + h * 3) {
            0..=10 => self.pure(),
            11..=16 => self.stackop(),
            17..=21 => self.memory(),
            22..=25 => self.state(),
            26 | 27 => {
                { let o = self.pick_op(ENVOPS); self.op(o); }
                self.d += 1
            }
            28 => {
                if self.snippets.is_empty() || self.ch(1, 2) {
                    let s = self.code.len();
                    let d = self.d;
                    for _ in 0..1 + self.r.below(5) {
                        self.pure();
                    }
                    while self.d > d {
                        self.op(0x50);
                        self.d -= 1;
                    }
                    if self.d == d && !self.fix.iter().any(|f| f.0 >= s) {
                        self.snippets.push(self.code[s..].to_vec());
                    }
                } else {
                    self.pure();
                }
            }
            29 => self.any(),
            x if x < 30 + h => self.call(),
            x if x < 30 + h + h / 2 => self.create(),
            _ => self.state(),
        }
    }
    fn body(&mut self, n: u64) {
        for _ in 0..n {
            self.stmt();
            if self.d > 40 {
                self.op(0x50);
                self.d -= 1;
            }
        }
    }
    fn to_depth(&mut self, d: usize) {
        while self.d > d {
            if self.ch(1, 3) {
                // Keep the value observable.
                let o = self.r.below(8) * 32;
                self.pushn(o);
                self.op(0x52);
                self.d -= 2;
            } else {
                self.op(0x50);
                self.d -= 1;
            }
        }
        while self.d < d {
            self.any();
        }
    }
    /// Ends execution, writing everything known on the stack to memory first.
    fn finish(&mut self) {
        let mut o = self.r.below(3) * 32;
        let most = self.r.below(12);
        let mut i = 0;
        while self.d > 0 && i < most {
            self.pushn(o);
            self.op(0x52);
            self.d -= 2;
            o += 32;
            i += 1;
        }
        match self.r.below(16) {
            0 => self.op(0x00),
            1 if self.ch(1, 3) => self.op(0xfe),
            2 | 3 if self.has(0xfd) => {
                self.mem_len();
                self.mem_off();
                self.op(0xfd);
            }
            4 => {
                self.addr();
                self.op(0xff);
            }
            5 => {
                self.mem_len();
                self.mem_off();
                self.op(0xf3);
            }
            6 => {
                // Nothing after it costs anything.
                if self.ch(3, 4) { self.state() } else { self.memory() }
                self.op(0x00);
            }
            _ => {
                let l = o.max(64) + self.r.below(40);
                self.pushn(l);
                self.pushn(0);
                self.op(0xf3);
            }
        }
        self.d = 0;
    }

    /// A block to jump to, mostly a later one.
    fn target(&mut self, i: usize, n: usize) -> usize {
        if i + 1 < n && self.ch(3, 4) {
            i + 1 + self.r.below((n - i - 1) as u64) as usize
        } else {
            self.r.below(n as u64) as usize
        }
    }
    fn cfg_program(&mut self) {
        let n = 1 + self.r.below(8) as usize;
        let entry: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { self.r.below(5) as usize }).collect();
        let ls: Vec<Lbl> = (0..n).map(|_| self.label()).collect();
        let funcs = self.r.below(3) as usize;
        let fls: Vec<(Lbl, usize, usize)> = (0..funcs)
            .map(|_| (self.label(), self.r.below(3) as usize, self.r.below(3) as usize))
            .collect();
        let tail = self.label();
        let tail_depth = self.r.below(3) as usize;
        let mut templates: Vec<(Vec<u8>, usize)> = vec![];
        if self.ch(1, 3) {
            self.dispatcher(&ls, &entry);
        }
        for i in 0..n {
            self.d = entry[i];
            self.place(ls[i]);
            if !templates.is_empty() && self.ch(1, 3) {
                // An identical block elsewhere.
                let (t, d) = pick(self.r, &templates).clone();
                if d <= self.d {
                    self.code.extend_from_slice(&t);
                    continue;
                }
            }
            let start = self.code.len();
            let fixes = self.fix.len();
            let k = 1 + self.r.below(9);
            self.body(k);
            for _ in 0..self.r.below(3) {
                if let Some((f, a, ret)) = (!fls.is_empty()).then(|| *pick(self.r, &fls)) {
                    // Internal call: return address below the arguments.
                    let back = self.label();
                    self.push_label(back);
                    for _ in 0..a {
                        self.any();
                    }
                    self.push_label(f);
                    self.op(0x56);
                    self.d -= 1 + a + 1;
                    self.d += ret;
                    let d = self.d;
                    self.place(back);
                    self.d = d;
                }
                if self.ch(1, 2) {
                    self.body(2);
                }
            }
            if !self.snippets.is_empty() && self.ch(1, 3) {
                let s = pick(self.r, &self.snippets).clone();
                self.code.extend_from_slice(&s);
            }
            // Terminator.
            match self.r.below(12) {
                0..=3 if n > 1 => {
                    let t = self.target(i, n);
                    self.to_depth(entry[t]);
                    self.push_label(ls[t]);
                    self.op(0x56);
                    self.d -= 1;
                }
                4..=6 if n > 1 => {
                    let t = self.target(i, n);
                    let nx = (i + 1) % n;
                    let want = entry[t].max(entry[nx]);
                    self.to_depth(want);
                    // Condition.
                    match self.r.below(4) {
                        0 => self.any(),
                        1 => {
                            let v = self.r.below(2);
                            self.pushn(v)
                        }
                        _ => {
                            self.any();
                            self.any();
                            { let o = self.pick_op(&[0x10, 0x11, 0x12, 0x13, 0x14, 0x18]); self.op(o); }
                            self.d -= 1;
                            if self.ch(1, 2) {
                                self.op(0x15);
                            }
                        }
                    }
                    self.push_label(ls[t]);
                    self.op(0x57);
                    self.d -= 2;
                    // Fall into the next block (extra items below are harmless).
                    if i + 1 == n {
                        self.finish();
                    }
                }
                7 if n > 2 => {
                    // Computed jump between two labels.
                    let (a, b) = (self.r.below(n as u64) as usize, self.r.below(n as u64) as usize);
                    self.to_depth(entry[a].max(entry[b]));
                    match self.r.below(3) {
                        0 => {
                            // cond * (a - b) + b
                            self.push_label(ls[b]);
                            self.push_label(ls[b]);
                            self.push_label(ls[a]);
                            self.op(0x03);
                            self.dynamic();
                            self.pushn(1);
                            self.op(0x16);
                            self.op(0x02);
                            self.op(0x01);
                        }
                        1 => {
                            // Through memory.
                            self.push_label(ls[a]);
                            self.pushn(0x1c0);
                            self.op(0x52);
                            self.pushn(0x1c0);
                            self.op(0x51);
                        }
                        _ => {
                            self.push_label(ls[a]);
                            self.push_label(ls[b]);
                            self.dynamic();
                            self.op(0x15);
                            self.op(0x90);
                            self.op(0x50);
                            self.op(0x90);
                            self.op(0x50);
                        }
                    }
                    if self.ch(1, 6) {
                        // Sometimes far above all code.
                        let k = *pick(self.r, &[32usize, 63, 64, 65, 128, 255]);
                        self.push(U256::from(1) << k);
                        self.dynamic();
                        self.pushn(1);
                        self.op(0x16);
                        self.op(0x02);
                        self.op(0x01);
                    }
                    self.op(0x56);
                }
                8 => {
                    self.to_depth(tail_depth);
                    self.push_label(tail);
                    self.op(0x56);
                }
                9 if i + 1 < n => {
                    self.to_depth(entry[i + 1]);
                }
                10 if self.ch(1, 2) => {
                    // Jump somewhere unknown.
                    self.dynamic();
                    self.op(0x56);
                }
                _ => self.finish(),
            }
            if self.fix.len() == fixes && self.code.len() - start < 60 {
                templates.push((self.code[start..].to_vec(), entry[i]));
            }
        }
        self.finish();
        for (f, a, ret) in fls {
            self.place(f);
            // ret address, args...
            self.d = a;
            let k = 1 + self.r.below(5);
            self.body(k);
            while self.d > ret {
                self.op(0x50);
                self.d -= 1;
            }
            while self.d < ret {
                let v = word(self.r);
                self.push(v);
            }
            // Bring the return address up.
            for j in (1..=ret).rev() {
                let _ = j;
            }
            if ret > 0 {
                // [addr, r1..rn] -> [r1..rn, addr]
                for j in 0..ret {
                    self.op(0x8f + (ret - j) as u8);
                }
                // After the rotation the address is on top only for ret == 1; for more, rotate properly.
                if ret == 2 {
                    // swap2 swap1: [a,r1,r2] -> [r2,r1,a] -> [r2,a,r1]; undo the last and keep the address on top.
                    self.op(0x90);
                }
            }
            self.op(0x56);
        }
        self.place(tail);
        self.d = tail_depth;
        let k = self.r.below(3);
        self.body(k);
        self.finish();
    }

    fn dispatcher(&mut self, ls: &[Lbl], entry: &[usize]) {
        if self.has(0x1c) {
            self.pushn(0);
            self.op(0x35);
            self.pushn(0xe0);
            self.op(0x1c);
        } else {
            self.push(U256::from(1) << 224);
            self.pushn(0);
            self.op(0x35);
            self.op(0x04);
        }
        self.d = 1;
        for i in 0..ls.len() {
            if entry[i] <= 1 && self.ch(2, 3) {
                self.op(0x80);
                self.d += 1;
                let sel = (i as u64) * 0x0101_0101;
                if self.ch(1, 2) {
                    self.pushn(sel);
                    self.op(0x14);
                } else {
                    self.pushn(sel);
                    { let o = self.pick_op(&[0x10, 0x11]); self.op(o); }
                }
                self.d -= 1;
                self.push_label(ls[i]);
                self.op(0x57);
                self.d -= 2;
            }
        }
        self.op(0x50);
        self.d = 0;
    }

    /// Close to the stack limit.
    fn deep(&mut self) {
        let n = 990 + self.r.below(34) as usize;
        let v = word(self.r);
        self.push(v);
        if self.ch(1, 3) {
            self.dynamic();
        }
        while self.d < n {
            let k = self.d.min(16) as u64;
            let o = 0x80 + self.r.below(k) as u8;
            self.op(o);
            self.d += 1;
        }
        if self.ch(1, 2) {
            let l = self.label();
            self.dynamic();
            self.push_label(l);
            self.op(0x57);
            self.d -= 2;
            for _ in 0..self.r.below(30) {
                let o = *pick(self.r, &[0x80, 0x81, 0x50, 0x01, 0x90, 0x58]);
                self.op(o);
            }
            self.place(l);
        }
        for _ in 0..self.r.below(12) {
            if self.ch(1, 2) {
                let o = *pick(self.r, &[0x80, 0x8f, 0x30, 0x58, 0x5a, 0x3d, 0x50, 0x01]);
                self.op(o);
            } else {
                self.stmt();
            }
        }
        self.d = 3;
        self.finish();
    }

    fn straight(&mut self) {
        let k = 2 + self.r.below(30);
        self.body(k);
        self.finish();
    }

    fn loop_program(&mut self) {
        // A counted loop with a body, optionally growing the stack or memory.
        let head = self.label();
        let n = match self.r.below(4) {
            0 => 1 + self.r.below(4),
            1 => self.r.below(40),
            2 => 1020 + self.r.below(8),
            _ => 1 + self.r.below(300),
        };
        let grow = self.ch(1, 4);
        self.pushn(n);
        self.d = 1;
        self.place(head);
        self.d = 1;
        let k = 1 + self.r.below(6);
        self.heavy = 1;
        self.body(k);
        while self.d > 1 {
            self.op(0x50);
            self.d -= 1;
        }
        while self.d < 1 {
            self.pushn(3);
        }
        if grow {
            let v = word(self.r);
            self.push(v);
            self.op(0x90);
        }
        // decrement
        self.pushn(1);
        self.op(0x90);
        self.op(0x03);
        self.op(0x80);
        self.push_label(head);
        self.op(0x57);
        self.d = 1;
        self.finish();
    }

    /// Blocks that are nearly the same.
    fn twins(&mut self) {
        let n = 2 + self.r.below(3) as usize;
        let imm = |r: &mut Rng| {
            let k = *pick(r, &[1usize, 1, 2, 3, 3, 3, 4, 4, 5, 32]);
            let b = *pick(r, &[0x00u8, 0x01, 0x50, 0x80, 0x81, 0x90, 0x19, 0x7f, 0xff]);
            let mut v = vec![0x5f + k as u8];
            if k >= 3 && r.below(2) == 0 {
                // Few bytes of weight, wherever they are.
                v.resize(k + 1, 0);
                for _ in 0..1 + r.below(2) {
                    let j = if r.below(3) > 0 { k - 2 } else { 1 + r.below(k as u64) as usize };
                    v[j] = *pick(r, &[0x80, 0x80, 0x50, b]);
                }
                return v;
            }
            let zeros = r.below(3) == 0;
            v.extend((0..k).map(|_| if r.below(2) == 0 { 0 } else if zeros { b } else { *pick(r, &[0x00, 0x01, 0x50, 0x80, b, 0x15]) }));
            v
        };
        let one = |r: &mut Rng| match r.below(8) {
            0..=2 => imm(r),
            3 => vec![*pick(r, &[0x80, 0x81, 0x82, 0x90, 0x91, 0x50])],
            4 => vec![0x60, *pick(r, &[0, 1, 2, 32]), *pick(r, &[0x51, 0x54, 0x35])],
            5 => vec![*pick(r, &[0x15, 0x19, 0x36, 0x58, 0x5a, 0x59, 0x33])],
            6 => vec![0x80, 0x60, *pick(r, &[0, 1, 32]), *pick(r, &[0x52, 0x53, 0x55])],
            _ => vec![*pick(r, &[0x01, 0x02, 0x03, 0x04, 0x10, 0x11, 0x14, 0x16, 0x17, 0x18])],
        };
        let mut first = vec![];
        for _ in 0..1 + self.r.below(5) {
            first.push(one(self.r));
        }
        let mut all = vec![first];
        while all.len() < n {
            let mut v = all[self.r.below(all.len() as u64) as usize].clone();
            for _ in 0..*pick(self.r, &[0, 1, 1, 1, 1, 2]) {
                let i = self.r.below(v.len() as u64) as usize;
                let push = (0x60..=0x7f).contains(&v[i][0]) && v[i].len() == (v[i][0] - 0x5f) as usize + 1;
                match self.r.below(6) {
                    0 if v.len() > 1 => {
                        v.remove(i);
                    }
                    1 => v.insert(i, one(self.r)),
                    2 if i > 0 => v.swap(i, i - 1),
                    3..=5 if push => {
                        // The same bytes in another division, and other values of the same width.
                        let k = v[i].len() - 1;
                        let j = 1 + self.r.below(k as u64) as usize;
                        let o = v[i][j];
                        match self.r.below(4) {
                            0 => v[i][j] = *pick(self.r, &[0x00, 0x01, 0x80]),
                            1 => v[i][k] = o,
                            _ => {
                                v[i][j] = 0;
                                let o = if o == 0 || self.r.below(4) == 0 { 0x80 } else { o };
                                v.insert(i + 1, vec![o]);
                            }
                        }
                    }
                    _ => v[i] = one(self.r),
                }
            }
            all.push(v);
        }
        let extra = 1 + self.r.below(4);
        for _ in 0..extra {
            if self.ch(1, 2) { self.dynamic() } else { let v = word(self.r); self.push(v) }
        }
        self.pushn(n as u64);
        self.dynamic();
        self.op(0x06);
        let ls: Vec<Lbl> = (0..n).map(|_| self.label()).collect();
        let common = self.label();
        for (i, l) in ls.iter().enumerate().skip(1) {
            self.code.extend_from_slice(&[0x80, 0x60, i as u8, 0x14]);
            self.push_label(*l);
            self.op(0x57);
        }
        self.push_label(ls[0]);
        self.op(0x56);
        let tail = self.r.below(5);
        let odd = self.r.below(n as u64 * 3) as usize;
        let halves = self.ch(1, 6);
        for (i, (l, v)) in ls.iter().zip(&all).enumerate() {
            self.place(*l);
            self.op(0x50);
            for x in v {
                self.code.extend_from_slice(x);
            }
            match if i == odd { (tail + 1) % 5 } else { tail } {
                0 | 1 => self.code.extend_from_slice(&[0x60, 0, 0x52, 0x60, 0x40, 0x60, 0, 0xf3]),
                2 => self.code.extend_from_slice(&[0x60, 1, 0x55, 0x00]),
                3 => {
                    self.push_label(common);
                    self.op(0x56);
                }
                _ if halves => self.code.extend_from_slice(&[0x60, 0, 0x52, 0x60, 0x20, 0x60, 0, 0xfd]),
                _ => self.code.extend_from_slice(&[0x60, 0x20, 0x52, 0x59, 0x60, 0, 0xf3]),
            }
        }
        self.place(common);
        self.d = 1;
        self.finish();
    }

    /// What a high-level compiler makes: a dispatcher, checks that fall through into an abort, branches,
    /// loops, values and code addresses chosen by a branch, and internal functions.
    fn sol(&mut self) {
        self.heavy = 1;
        let mut tails: Vec<Vec<u8>> = vec![];
        for _ in 0..1 + self.r.below(3) {
            let t = match self.r.below(7) {
                0 | 1 => vec![0x60, 0, 0x60, 0, 0xfd],
                2 => vec![0x60, *pick(self.r, &[1, 0x11, 0x12]), 0x60, 0, 0x52, 0x60, 0x20, 0x60, 0, 0xfd],
                3 => vec![0x00],
                4 => vec![0xfe],
                5 => vec![0x60, *pick(self.r, &[1, 2, 3]), 0x60, *pick(self.r, &[0, 1]), 0x55, 0x00],
                _ => vec![0x59, 0x60, 0, 0xf3],
            };
            tails.push(t);
        }
        if self.env.spec < revm_primitives::hardfork::SpecId::BYZANTIUM as u8 && self.ch(9, 10) {
            for t in &mut tails {
                if t.last() == Some(&0xfd) {
                    *t.last_mut().unwrap() = 0xf3;
                }
            }
        }
        let panic = self.label();
        let nf = self.r.below(4) as usize;
        // The same function more than once?
        let alike = self.ch(1, 3);
        let plain = alike && self.ch(1, 2);
        let mut fns: Vec<(Lbl, usize, usize)> = vec![];
        for i in 0..nf {
            let l = self.label();
            match (alike && i > 0).then(|| fns[i - 1]) {
                Some((_, a, ret)) => fns.push((l, a, ret)),
                None => fns.push((l, self.r.below(4) as usize, self.r.below(3) as usize)),
            }
        }
        let fns = fns;
        let cx = Sol { tails, panic };
        if self.ch(1, 2) {
            self.pushn(0x80);
            self.pushn(0x40);
            self.op(0x52);
            self.d -= 2;
        }
        if self.ch(1, 3) {
            self.sol_require(&cx);
        }
        // Which branch, from the input.
        let n = 1 + self.r.below(4) as usize + if plain { 2 } else { 0 };
        let branches: Vec<Lbl> = (0..n).map(|_| self.label()).collect();
        let done = self.label();
        let keep = self.ch(1, 2);
        self.pushn(0);
        self.op(0x35);
        if self.ch(1, 2) {
            let m = *pick(self.r, &[1u64, 3, 7]);
            self.pushn(m);
            self.op(0x16);
            self.d -= 1;
        }
        for (i, l) in branches.iter().enumerate().skip(1) {
            self.op(0x80);
            self.d += 1;
            self.pushn(i as u64);
            let o = if self.ch(3, 4) { 0x14 } else { 0x10 };
            self.op(o);
            self.d -= 1;
            self.push_label(*l);
            self.op(0x57);
            self.d -= 2;
        }
        if self.ch(1, 3) {
            let t = pick(self.r, &cx.tails).clone();
            self.op(0x50);
            self.code.extend(t);
        } else {
            self.push_label(branches[0]);
            self.op(0x56);
        }
        for l in &branches {
            self.place(*l);
            self.d = 1;
            if !keep {
                self.op(0x50);
                self.d = 0;
            }
            if plain && nf > 0 {
                // What comes after the call is the same everywhere.
                if keep {
                    self.op(0x50);
                    self.d = 0;
                }
                let f = *pick(self.r, &fns);
                self.sol_call(0, f, None);
                let sites = self.r.below(2);
                for _ in 0..sites {
                    let l = self.label();
                    let here = self.d;
                    self.sol_cond(here);
                    self.push_label(l);
                    self.op(0x57);
                    self.d -= 2;
                    self.code.extend_from_slice(&[0x59, 0x52, 0x59, 0x60, 0, 0xf3]);
                    self.place(l);
                }
                self.code.extend_from_slice(if self.d == 0 { &[0x59, 0x60, 0, 0xf3] } else { &[0x59, 0x52, 0x59, 0x60, 0, 0xf3] });
                continue;
            }
            let k = 1 + self.r.below(3);
            for _ in 0..k {
                self.sol_stmt(&cx, 0, 0, &fns);
                if alike && nf > 0 {
                    for _ in 0..1 + self.r.below(2) {
                        let f = *pick(self.r, &fns);
                        self.sol_call(0, f, None);
                    }
                }
            }
            self.to_depth(1);
            if self.ch(1, 2) {
                self.push_label(done);
                self.op(0x56);
            } else {
                // The same epilogue in each.
                self.code.extend_from_slice(&[0x60, 0x40, 0x51, 0x52, 0x60, 0x20, 0x60, 0x40, 0x51, 0xf3]);
            }
        }
        let mut last: Option<(usize, usize)> = None;
        for (i, (l, a, ret)) in fns.iter().enumerate() {
            self.place(*l);
            self.d = a + 1;
            if let (true, Some((s, e))) = (alike, last) {
                let c = self.code[s..e].to_vec();
                self.code.extend(c);
                continue;
            }
            let start = self.code.len();
            let fixes = self.fix.len();
            let k = self.r.below(4);
            for _ in 0..k {
                self.sol_stmt(&cx, 0, 1, &fns[i + 1..]);
                if self.d > 14 {
                    self.to_depth(8);
                }
            }
            self.sol_return(*ret);
            if self.fix.len() == fixes {
                last = Some((start, self.code.len()));
            }
        }
        self.place(done);
        self.d = 1;
        if self.ch(1, 2) {
            self.pushn(0);
            self.op(0x52);
            self.pushn(0x20);
            self.pushn(0);
            self.op(0xf3);
        } else {
            self.finish();
        }
        self.place(panic);
        self.d = 0;
        let t = pick(self.r, &cx.tails).clone();
        self.code.extend(t);
    }
    /// From [return address, locals..] to [results..] and back to the caller.
    fn sol_return(&mut self, ret: usize) {
        match ret {
            0 => {
                self.to_depth(1);
            }
            1 => {
                if self.d < 2 {
                    self.any();
                }
                let k = self.d - 2;
                if k > 0 && k <= 16 {
                    self.op(0x8f + k as u8);
                    for _ in 0..k {
                        self.op(0x50);
                    }
                } else {
                    self.to_depth(2);
                }
                self.op(0x90);
            }
            _ => {
                self.to_depth(3);
                self.op(0x91);
            }
        }
        self.op(0x56);
    }
    /// A local of the current frame, or something else.
    fn sol_val(&mut self, base: usize) {
        let n = (self.d - base).min(16) as u64;
        if n > 0 && self.ch(2, 3) {
            let o = 0x80 + self.r.below(n) as u8;
            self.op(o);
            self.d += 1;
        } else if self.ch(1, 2) {
            let v = self.r.below(6);
            self.pushn(v);
        } else {
            self.dynamic();
        }
    }
    fn sol_cond(&mut self, base: usize) {
        match self.r.below(8) {
            0 => self.sol_val(base),
            1 => {
                let v = self.r.below(2);
                self.pushn(v);
            }
            2 => {
                self.sol_val(base);
                self.op(0x15);
            }
            _ => {
                self.sol_val(base);
                self.sol_val(base);
                let o = self.pick_op(&[0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x18]);
                self.op(o);
                self.d -= 1;
                if self.ch(1, 3) {
                    self.op(0x15);
                }
            }
        }
    }
    fn sol_require(&mut self, cx: &Sol) {
        let l = self.label();
        self.sol_cond(0);
        self.push_label(l);
        self.op(0x57);
        self.d -= 2;
        let t = pick(self.r, &cx.tails).clone();
        self.code.extend(t);
        self.place(l);
    }
    fn sol_stmt(&mut self, cx: &Sol, depth: usize, base: usize, fns: &[(Lbl, usize, usize)]) {
        if self.d > 20 {
            self.to_depth(base + 6);
        }
        match self.r.below(if depth < 2 { 16 } else { 8 }) {
            0 | 1 => self.sol_require(cx),
            2 => {
                // Checked arithmetic.
                self.sol_val(base);
                self.sol_val(base);
                let o = *pick(self.r, &[0x01u8, 0x02, 0x03]);
                self.op(0x81);
                self.op(0x81);
                self.op(o);
                // [a, b, r] -> check r against a
                self.op(0x80);
                self.op(0x92);
                self.op(if o == 3 { 0x10 } else { 0x11 });
                self.d += 1;
                self.push_label(cx.panic);
                self.op(0x57);
                self.d -= 2;
                self.op(0x50);
            }
            3 if self.d > base => {
                // Assignment.
                let n = (self.d - base).min(16) as u64;
                self.sol_val(base);
                self.pure_on_top();
                let o = 0x90 + self.r.below(n) as u8;
                self.op(o);
                self.op(0x50);
                self.d -= 1;
            }
            4 => {
                let d = self.d;
                self.body(1);
                if self.d < d {
                    self.to_depth(d);
                }
            }
            5 => {
                // Storage.
                self.sol_val(base);
                let k = self.r.below(3);
                self.pushn(k);
                let o = if self.ch(2, 3) { 0x55 } else { 0x52 };
                self.op(o);
                self.d -= 2;
            }
            6 | 7 => self.sol_val(base),
            8 | 9 => {
                // if / else
                let (e, end) = (self.label(), self.label());
                self.sol_cond(base);
                self.push_label(e);
                self.op(0x57);
                self.d -= 2;
                let d = self.d;
                let k = self.r.below(3);
                for _ in 0..k {
                    self.sol_stmt(cx, depth + 1, base, fns);
                }
                self.to_depth(d);
                if self.ch(1, 2) {
                    self.push_label(end);
                    self.op(0x56);
                    self.d -= 1;
                    self.place(e);
                    let k = self.r.below(3);
                    for _ in 0..k {
                        self.sol_stmt(cx, depth + 1, base, fns);
                    }
                    self.to_depth(d);
                } else {
                    self.place(e);
                }
                self.place(end);
                self.d = d;
            }
            10 => {
                // A bounded loop, its counter on the stack.
                let (head, end) = (self.label(), self.label());
                if self.ch(1, 2) {
                    let v = self.r.below(6);
                    self.pushn(v);
                } else {
                    self.dynamic();
                    self.pushn(7);
                    self.op(0x16);
                    self.d -= 1;
                }
                let d = self.d;
                self.place(head);
                self.code.extend_from_slice(&[0x80, 0x15]);
                self.d += 1;
                self.push_label(end);
                self.op(0x57);
                self.d -= 2;
                // The counter is not in reach of the body.
                let k = 1 + self.r.below(2);
                for _ in 0..k {
                    self.sol_stmt(cx, depth + 1, d, fns);
                }
                self.to_depth(d);
                self.code.extend_from_slice(&[0x60, 1, 0x90, 0x03]);
                self.push_label(head);
                self.op(0x56);
                self.d = d;
                self.place(end);
            }
            11 | 12 if !fns.is_empty() => {
                let i = self.r.below(fns.len() as u64) as usize;
                let other = (0..fns.len()).find(|j| *j != i && fns[*j].1 == fns[i].1 && fns[*j].2 == fns[i].2);
                self.sol_call(base, fns[i], other.map(|j| fns[j].0));
            }
            13 => {
                // A value chosen by a branch.
                let (x, y) = (self.label(), self.label());
                self.sol_cond(base);
                self.push_label(x);
                self.op(0x57);
                self.d -= 2;
                let d = self.d;
                let k = self.r.below(4);
                self.pushn(k);
                self.push_label(y);
                self.op(0x56);
                self.place(x);
                self.d = d;
                if self.ch(1, 2) { self.sol_val(base) } else { self.pushn(k) }
                self.place(y);
                self.d = d + 1;
            }
            14 => {
                // switch
                let n = 1 + self.r.below(3);
                let cases: Vec<Lbl> = (0..n).map(|_| self.label()).collect();
                let end = self.label();
                self.sol_val(base);
                let d = self.d;
                for (i, l) in cases.iter().enumerate() {
                    self.op(0x80);
                    self.d += 1;
                    self.pushn(i as u64);
                    self.op(0x14);
                    self.d -= 1;
                    self.push_label(*l);
                    self.op(0x57);
                    self.d -= 2;
                }
                if self.ch(1, 2) {
                    let t = pick(self.r, &cx.tails).clone();
                    self.code.extend(t);
                } else {
                    self.push_label(end);
                    self.op(0x56);
                }
                let same = self.ch(1, 2);
                let v = self.r.below(4);
                for l in cases {
                    self.place(l);
                    self.d = d;
                    if same {
                        self.pushn(v);
                        self.pushn(1);
                        self.op(0x55);
                        self.d -= 2;
                    } else {
                        self.sol_stmt(cx, depth + 1, base, fns);
                        self.to_depth(d);
                    }
                    self.push_label(end);
                    self.op(0x56);
                }
                self.place(end);
                self.op(0x50);
                self.d = d - 1;
            }
            _ => {
                // Leave early.
                let l = self.label();
                self.sol_cond(base);
                self.push_label(l);
                self.op(0x57);
                self.d -= 2;
                self.push_label(cx.panic);
                self.op(0x56);
                self.d -= 1;
                self.place(l);
            }
        }
    }
    /// An internal call, perhaps of the one or the other function.
    fn sol_call(&mut self, base: usize, (f, a, ret): (Lbl, usize, usize), other: Option<Lbl>) {
        let back = self.label();
        self.push_label(back);
        for _ in 0..a {
            self.sol_val(base);
        }
        match other {
            Some(o) if self.ch(1, 2) => {
                // Through a variable.
                let (x, y) = (self.label(), self.label());
                let here = self.d;
                self.sol_cond(here);
                self.push_label(x);
                self.op(0x57);
                self.d -= 2;
                self.push_label(f);
                self.push_label(y);
                self.op(0x56);
                self.d -= 2;
                self.place(x);
                self.push_label(o);
                self.place(y);
            }
            _ => self.push_label(f),
        }
        self.op(0x56);
        self.d = self.d - 1 - a - 1 + ret;
        self.place(back);
    }
    fn pure_on_top(&mut self) {
        match self.r.below(4) {
            0 => self.op(0x15),
            1 => self.op(0x19),
            2 => {
                let v = self.r.below(3);
                self.pushn(v);
                let o = *pick(self.r, &[0x01, 0x02, 0x03, 0x04, 0x06, 0x16, 0x17]);
                self.op(o);
                self.d -= 1;
            }
            _ => {}
        }
    }

    /// Nearly nothing but memory accesses around word boundaries.
    fn mem(&mut self) {
        let n = 1 + self.r.below(4) as usize;
        let ls: Vec<Lbl> = (0..n + 1).map(|_| self.label()).collect();
        let wide = self.ch(1, 3);
        for i in 0..n {
            self.place(ls[i]);
            for _ in 0..1 + self.r.below(4) {
                self.mem_op(wide);
            }
            match self.r.below(6) {
                0 | 1 => {
                    // Skip some, depending on the input.
                    let t = i + 1 + self.r.below((n - i) as u64) as usize;
                    let o = self.r.below(4) * 32;
                    self.pushn(o);
                    self.op(0x35);
                    self.push_label(ls[t]);
                    self.op(0x57);
                }
                2 => {
                    // Once more, depending on what is there already.
                    let t = self.r.below(i as u64 + 1) as usize;
                    let m = *pick(self.r, &[32u64, 64, 96, 128, 160]);
                    self.pushn(m);
                    self.op(0x59);
                    self.op(0x10);
                    self.push_label(ls[t]);
                    self.op(0x57);
                }
                3 => {
                    let t = i + 1 + self.r.below((n - i) as u64) as usize;
                    self.push_label(ls[t]);
                    self.op(0x56);
                }
                4 => {
                    // Where to is not known.
                    let (a, b) = (i + 1 + self.r.below((n - i) as u64) as usize, i + 1 + self.r.below((n - i) as u64) as usize);
                    self.push_label(ls[a]);
                    self.push_label(ls[b]);
                    self.op(0x18);
                    self.pushn(0);
                    self.op(0x35);
                    self.pushn(1);
                    self.op(0x16);
                    self.op(0x02);
                    self.push_label(ls[a]);
                    self.op(0x18);
                    self.op(0x56);
                }
                _ => {}
            }
        }
        self.place(ls[n]);
        self.mem_op(wide);
        // How much memory there is and what it cost.
        if self.ch(3, 4) {
            self.code.extend_from_slice(&[0x5a, 0x59]);
            let a = self.r.below(3) * 32;
            self.pushn(a);
            self.op(0x52);
            let a = self.r.below(3) * 32;
            self.pushn(a);
            self.op(0x52);
        }
        match self.r.below(5) {
            0 => self.op(0x00),
            1 => {
                self.mem_arg(wide);
                self.mem_arg(wide);
                let o = self.pick_op(&[0xf3, 0xfd]);
                self.op(o);
            }
            _ => self.code.extend_from_slice(&[0x59, 0x60, 0, 0xf3]),
        }
        self.d = 0;
    }
    fn mem_arg(&mut self, wide: bool) {
        let v = match self.r.below(16) {
            0 => {
                let o = self.r.below(4) * 32;
                self.pushn(o);
                self.op(0x35);
                self.pushn(0x7f);
                self.op(0x16);
                return;
            }
            1 => {
                self.op(0x59);
                return;
            }
            2 if wide => U256::from(*pick(self.r, &[1000u64, 0x8000, 1 << 32, u64::MAX, u64::MAX - 31])),
            3 if wide => U256::from(1) << *pick(self.r, &[64usize, 128, 255]),
            _ => U256::from(*pick(self.r, &[0u64, 0, 1, 2, 30, 31, 31, 32, 32, 33, 62, 63, 64, 64, 65, 95, 96, 97, 128])),
        };
        self.push(v);
    }
    fn mem_op(&mut self, wide: bool) {
        let o = self.pick_op(&[0x51, 0x51, 0x52, 0x52, 0x53, 0x53, 0x20, 0x37, 0x39, 0x3c, 0x3e, 0x5e, 0xa0, 0xa1, 0xf1, 0xf4, 0xfa, 0xf0]);
        match o {
            0x51 => {
                self.mem_arg(wide);
                self.op(o);
                self.op(0x50);
            }
            0x52 | 0x53 => {
                if self.ch(1, 2) { self.op(0x5a) } else { self.pushn(0xab) }
                self.mem_arg(wide);
                self.op(o);
            }
            0x20 => {
                self.mem_arg(false);
                self.mem_arg(wide);
                self.op(o);
                self.op(0x50);
            }
            0x37 | 0x39 | 0x5e => {
                self.mem_arg(false);
                self.mem_arg(wide);
                self.mem_arg(wide);
                self.op(o);
            }
            0x3c => {
                self.mem_arg(false);
                self.mem_arg(wide);
                self.mem_arg(wide);
                self.op(0x30);
                self.op(o);
            }
            0x3e => {
                let l = if self.ch(9, 10) { 0 } else { 1 };
                self.pushn(l);
                self.pushn(0);
                self.mem_arg(wide);
                self.op(o);
            }
            0xa0 => {
                self.mem_arg(false);
                self.mem_arg(wide);
                self.op(o);
            }
            0xa1 => {
                self.pushn(7);
                self.mem_arg(false);
                self.mem_arg(wide);
                self.op(o);
            }
            0xf0 => {
                self.mem_arg(false);
                self.mem_arg(wide);
                self.pushn(0);
                self.op(o);
                self.op(0x50);
            }
            _ => {
                self.mem_arg(false);
                self.mem_arg(wide);
                self.mem_arg(false);
                self.mem_arg(wide);
                if o == 0xf1 {
                    self.pushn(0);
                }
                self.pushn(0x44);
                self.pushn(1000);
                self.op(o);
                self.op(0x50);
            }
        }
    }

    fn resolve(mut self) -> Vec<u8> {
        for (at, l) in &self.fix {
            let p = self.labels[l.0].unwrap_or(0);
            self.code[*at] = (p >> 8) as u8;
            self.code[*at + 1] = p as u8;
        }
        self.code
    }
}

pub fn pick<'s, T>(r: &mut Rng, s: &'s [T]) -> &'s T {
    &s[r.below(s.len() as u64) as usize]
}

fn mutate(r: &mut Rng, code: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        if code.is_empty() {
            return;
        }
        let i = r.below(code.len() as u64) as usize;
        match r.below(6) {
            0 | 1 => code[i] = r.next() as u8,
            2 => {
                code.remove(i);
            }
            3 => code.insert(i, *pick(r, &[0x5b, 0x50, 0x80, 0x90, 0x5f, 0x01, 0x60, 0x58, 0x5a, 0x56, 0x57, 0xe6, 0xe7, 0xe8])),
            4 => code.truncate(i),
            _ => {
                let j = (i + 1 + r.below(20) as usize).min(code.len());
                let c = code[i..j].to_vec();
                let at = r.below(code.len() as u64) as usize;
                code.splice(at..at, c);
            }
        }
    }
}

/// One program.
pub fn program(r: &mut Rng, env: &Env) -> Vec<u8> {
    let mut code = match r.below(20) {
        0 => {
            let n = r.below(40);
            (0..n).map(|_| r.next() as u8).collect()
        }
        1..=5 => {
            let mut g = Gen::new(r, env);
            g.straight();
            g.resolve()
        }
        7 if r.below(2) == 0 => {
            let mut g = Gen::new(r, env);
            g.proxy();
            g.resolve()
        }
        7 | 9 => {
            let mut g = Gen::new(r, env);
            g.twins();
            g.resolve()
        }
        15 => {
            let mut g = Gen::new(r, env);
            g.arith();
            g.resolve()
        }
        14 => {
            let mut g = Gen::new(r, env);
            g.mem();
            g.resolve()
        }
        10..=13 => {
            let mut g = Gen::new(r, env);
            g.sol();
            g.resolve()
        }
        6 if r.below(4) == 0 => {
            let mut g = Gen::new(r, env);
            g.deep();
            g.resolve()
        }
        6..=8 => {
            let mut g = Gen::new(r, env);
            g.loop_program();
            g.resolve()
        }
        _ => {
            let mut g = Gen::new(r, env);
            g.cfg_program();
            g.resolve()
        }
    };
    if r.below(5) == 0 {
        mutate(r, &mut code);
    }
    if r.below(10) == 0 {
        // Data after it, and perhaps a push that the end of the code cuts short.
        code.push(0xfe);
        for _ in 0..r.below(12) {
            let x = *pick(r, &[0x5b, 0x60, 0x7f, 0x00, 0x64, 0x56, 0xe7, 0x01]);
            code.push(x);
        }
    }
    code
}

pub fn twins_program(r: &mut Rng, env: &Env) -> Vec<u8> {
    let mut g = Gen::new(r, env);
    g.twins();
    g.resolve()
}

pub fn sol_program(r: &mut Rng, env: &Env) -> Vec<u8> {
    let mut g = Gen::new(r, env);
    g.sol();
    let mut code = g.resolve();
    if r.below(12) == 0 {
        mutate(r, &mut code);
    }
    code
}

pub fn mem_program(r: &mut Rng, env: &Env) -> Vec<u8> {
    let mut g = Gen::new(r, env);
    g.mem();
    g.resolve()
}

pub fn arith_program(r: &mut Rng, env: &Env) -> Vec<u8> {
    let mut g = Gen::new(r, env);
    g.arith();
    g.resolve()
}
