//! Random programs and scripts, one profile per property.
use crate::case::*;
use serde_json::json;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % (b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    /// interesting 64-bit values
    pub fn val(&mut self) -> u64 {
        match self.below(16) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << 63,
            4 => i64::MAX as u64,
            5 => (1u64 << self.below(64)).wrapping_add(self.range(-2, 2) as u64),
            6 => !(1u64 << self.below(64)).wrapping_add(self.range(-2, 2) as u64),
            7 => 0xffff_ffff_8000_0000u64.wrapping_add(self.range(-2, 2) as u64),
            8 => 0x8000_0000u64.wrapping_add(self.range(-3, 3) as u64),
            9 => 0xffff_ffffu64.wrapping_add(self.range(-2, 2) as u64),
            10 => self.below(128),
            11 => (self.range(-128, 128)) as u64,
            12 => self.next() as i32 as i64 as u64,
            13 => self.next() & self.next() & self.next(),
            14 => {
                let b = self.next() & 0xff;
                let mut v = self.next();
                for i in 0..8 {
                    if self.chance(50) {
                        v &= !(0xffu64 << (8 * i));
                        if self.chance(30) {
                            v |= b << (8 * i);
                        }
                    }
                }
                v
            }
            _ => self.next(),
        }
    }
}

// ---- encoders ------------------------------------------------------------
pub fn er(op: u32, f3: u32, f7: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    op | rd << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | f7 << 25
}
pub fn ei(op: u32, f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 {
    op | rd << 7 | f3 << 12 | rs1 << 15 | (imm as u32) << 20
}
pub fn es(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x23 | (i & 31) << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | (i >> 5 & 127) << 25
}
pub fn eb(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x63 | (i >> 11 & 1) << 7
        | (i >> 1 & 15) << 8
        | f3 << 12
        | rs1 << 15
        | rs2 << 20
        | (i >> 5 & 63) << 25
        | (i >> 12 & 1) << 31
}
pub fn eu(op: u32, rd: u32, imm20: u32) -> u32 {
    op | rd << 7 | imm20 << 12
}
pub fn ej(rd: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x6f | rd << 7
        | (i >> 12 & 255) << 12
        | (i >> 11 & 1) << 20
        | (i >> 1 & 1023) << 21
        | (i >> 20 & 1) << 31
}
pub fn eamo(f5: u32, w: u32, aqrl: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    er(0x2f, w, f5 << 2 | aqrl, rd, rs1, rs2)
}
pub fn ecj(imm: i32) -> u16 {
    let i = imm as u32;
    (0xa001
        | (i >> 11 & 1) << 12
        | (i >> 4 & 1) << 11
        | (i >> 8 & 3) << 9
        | (i >> 10 & 1) << 8
        | (i >> 6 & 1) << 7
        | (i >> 7 & 1) << 6
        | (i >> 1 & 7) << 3
        | (i >> 5 & 1) << 2) as u16
}
pub fn ecb(ne: bool, r: u32, imm: i32) -> u16 {
    let i = imm as u32;
    ((if ne { 0xe001u32 } else { 0xc001 })
        | (i >> 8 & 1) << 12
        | (i >> 3 & 3) << 10
        | (r & 7) << 7
        | (i >> 6 & 3) << 5
        | (i >> 1 & 3) << 3
        | (i >> 5 & 1) << 2) as u16
}

#[derive(Clone, Debug)]
pub enum It {
    H(u16),
    Wd(u32),
    Br { f3: u32, rs1: u32, rs2: u32, to: usize },
    Jal { rd: u32, to: usize },
    CJ { to: usize },
    CB { ne: bool, r: u32, to: usize },
    /// auipc base + jalr rd; `skew` bytes into the target
    Far { base: u32, rd: u32, to: usize, abs: bool, skew: i32 },
}
impl It {
    fn size(&self) -> u64 {
        match self {
            It::H(_) | It::CJ { .. } | It::CB { .. } => 2,
            It::Far { .. } => 8,
            _ => 4,
        }
    }
}

/// assembles items placed at `base`; returns bytes and item addresses
pub fn assemble(items: &[It], base: u64) -> (Vec<u8>, Vec<u64>) {
    let mut pos = vec![];
    let mut a = base;
    for i in items {
        pos.push(a);
        a += i.size();
    }
    pos.push(a);
    let mut b: Vec<u8> = vec![];
    for (k, i) in items.iter().enumerate() {
        let here = pos[k] as i64;
        let t = |to: usize| pos[to.min(items.len())] as i64 - here;
        let w = |b: &mut Vec<u8>, x: u32| b.extend_from_slice(&x.to_le_bytes());
        match *i {
            It::H(h) => b.extend_from_slice(&h.to_le_bytes()),
            It::Wd(x) => w(&mut b, x),
            It::Br { f3, rs1, rs2, to } => {
                let d = t(to);
                let d = if (-4096..4096).contains(&d) { d } else { 4 };
                w(&mut b, eb(f3, rs1, rs2, d as i32))
            }
            It::Jal { rd, to } => {
                let d = t(to);
                let d = if (-0x80000..0x80000).contains(&d) { d } else { 4 };
                w(&mut b, ej(rd, d as i32))
            }
            It::CJ { to } => {
                let d = t(to);
                let d = if (-2048..2048).contains(&d) { d } else { 2 };
                b.extend_from_slice(&ecj(d as i32).to_le_bytes())
            }
            It::CB { ne, r, to } => {
                let d = t(to);
                let d = if (-256..256).contains(&d) { d } else { 2 };
                b.extend_from_slice(&ecb(ne, r, d as i32).to_le_bytes())
            }
            It::Far { base: br, rd, to, abs, skew } => {
                let d = if abs { pos[to.min(items.len())] as i64 } else { t(to) } + skew as i64;
                let lo = ((d & 0xfff) ^ 0x800) - 0x800;
                let hi = ((d - lo) >> 12) as u32 & 0xfffff;
                w(&mut b, eu(if abs { 0x37 } else { 0x17 }, br, hi));
                w(&mut b, ei(0x67, 0, rd, br, lo as i32));
            }
        }
    }
    (b, pos)
}

// ---- instruction tables ---------------------------------------------------
// (opcode, funct3, funct7)
const R_I: &[(u32, u32, u32)] = &[
    (0x33, 0, 0), (0x33, 0, 32), (0x33, 1, 0), (0x33, 2, 0), (0x33, 3, 0), (0x33, 4, 0),
    (0x33, 5, 0), (0x33, 5, 32), (0x33, 6, 0), (0x33, 7, 0), (0x3b, 0, 0), (0x3b, 0, 32),
    (0x3b, 1, 0), (0x3b, 5, 0), (0x3b, 5, 32),
];
const R_M: &[(u32, u32, u32)] = &[
    (0x33, 0, 1), (0x33, 1, 1), (0x33, 2, 1), (0x33, 3, 1), (0x33, 4, 1), (0x33, 5, 1),
    (0x33, 6, 1), (0x33, 7, 1), (0x3b, 0, 1), (0x3b, 4, 1), (0x3b, 5, 1), (0x3b, 6, 1),
    (0x3b, 7, 1),
];
const R_B: &[(u32, u32, u32)] = &[
    (0x33, 2, 16), (0x33, 4, 16), (0x33, 6, 16), (0x33, 7, 32), (0x33, 6, 32), (0x33, 4, 32),
    (0x33, 4, 5), (0x33, 5, 5), (0x33, 6, 5), (0x33, 7, 5), (0x33, 1, 48), (0x33, 5, 48),
    (0x33, 1, 5), (0x33, 2, 5), (0x33, 3, 5), (0x33, 1, 36), (0x33, 5, 36), (0x33, 1, 52),
    (0x33, 1, 20), (0x3b, 0, 4), (0x3b, 2, 16), (0x3b, 4, 16), (0x3b, 6, 16), (0x3b, 1, 48),
    (0x3b, 5, 48),
];
// (opcode, funct3, imm high bits already in place, shift-amount bits: 0 = full imm)
const I_I: &[(u32, u32, i32, u32)] = &[
    (0x13, 0, 0, 0), (0x13, 2, 0, 0), (0x13, 3, 0, 0), (0x13, 4, 0, 0), (0x13, 6, 0, 0),
    (0x13, 7, 0, 0), (0x13, 1, 0, 6), (0x13, 5, 0, 6), (0x13, 5, 0x400, 6), (0x1b, 0, 0, 0),
    (0x1b, 1, 0, 5), (0x1b, 5, 0, 5), (0x1b, 5, 0x400, 5),
];
const I_B: &[(u32, u32, i32, u32)] = &[
    (0x13, 1, 0x480, 6), (0x13, 1, 0x280, 6), (0x13, 1, 0x680, 6), (0x13, 5, 0x480, 6),
    (0x13, 5, 0x600, 6), (0x1b, 1, 0x080, 6), (0x1b, 5, 0x600, 5), (0x13, 1, 0x600, 7),
    (0x13, 1, 0x601, 7), (0x13, 1, 0x602, 7), (0x13, 1, 0x604, 7), (0x13, 1, 0x605, 7),
    (0x1b, 1, 0x600, 7), (0x1b, 1, 0x601, 7), (0x1b, 1, 0x602, 7), (0x13, 5, 0x287, 7),
    (0x13, 5, 0x6b8, 7), (0x3b, 4, 0x080, 7), (0x13, 5, 0x698, 7), (0x33, 4, 0x080, 7),
];

pub struct Mix {
    pub alu: u64,
    pub mul: u64,
    pub b: u64,
    pub amo: u64,
    pub ld: u64,
    pub st: u64,
    pub br: u64,
    pub jmp: u64,
    pub rvc: u64,
    pub sys: u64,
    pub mop: u64,
    pub misc: u64,
    pub junk: u64,
    /// percentage of destinations that may clobber the pointers
    pub wild: u64,
    /// percentage of backward branches
    pub back: u64,
    pub x: u8,
    /// system-call numbers to use
    pub calls: &'static [i32],
}
pub const MIX0: Mix = Mix {
    alu: 0, mul: 0, b: 0, amo: 0, ld: 0, st: 0, br: 0, jmp: 0, rvc: 0, sys: 0, mop: 0, misc: 0,
    junk: 0, wild: 3, back: 12, x: 64, calls: &[2000],
};

/// pointers: x2 (sp), x8, x9 and sometimes x15
const PTRS: &[u32] = &[2, 8, 9];

impl Mix {
    fn rd(&self, g: &mut Rng) -> u32 {
        loop {
            let r = g.below(32) as u32;
            if (!PTRS.contains(&r) && r != 24 && r != 15) || g.chance(self.wild) {
                return r;
            }
        }
    }
    fn rs(&self, g: &mut Rng) -> u32 {
        g.below(32) as u32
    }
    fn ptr(&self, g: &mut Rng) -> u32 {
        if g.chance(4) {
            self.rs(g)
        } else {
            *g.pick(&[2, 8, 9, 9, 15])
        }
    }
    fn off(&self, g: &mut Rng) -> i32 {
        match g.below(6) {
            0 => g.range(-2048, 2047) as i32,
            1 => g.range(-16, 16) as i32,
            2 => 8 * g.range(-16, 16) as i32,
            3 => g.range(-8, 8) as i32,
            4 => 4 * g.range(-4, 4) as i32,
            _ => 0,
        }
    }
    fn pickr(&self, g: &mut Rng, t: &[(u32, u32, u32)]) -> It {
        loop {
            let &(o, f3, f7) = g.pick(t);
            if self.x == 32 && o == 0x3b && !g.chance(3) {
                continue;
            }
            return It::Wd(er(o, f3, f7, self.rd(g), self.rs(g), self.rs(g)));
        }
    }
    fn picki(&self, g: &mut Rng, t: &[(u32, u32, i32, u32)]) -> It {
        loop {
            let &(o, f3, hi, n) = g.pick(t);
            if self.x == 32 && (o == 0x1b || o == 0x3b) && !g.chance(3) {
                continue;
            }
            // forms that exist for one width only
            let only32 = (o == 0x13 && hi == 0x698) || (o == 0x33 && hi == 0x080);
            let only64 = o == 0x13 && hi == 0x6b8;
            if ((self.x == 64 && only32) || (self.x == 32 && only64)) && !g.chance(3) {
                continue;
            }
            let imm = match n {
                0 => {
                    if g.chance(50) {
                        g.range(-2048, 2047) as i32
                    } else {
                        *g.pick(&[0, 1, -1, 2047, -2048, 31, 32, 63, 255, 128])
                    }
                }
                5 => hi | g.below(32) as i32,
                6 => {
                    let n = if self.x == 32 && !g.chance(3) { 32 } else { 64 };
                    hi | g.below(n) as i32
                }
                _ => hi,
            };
            return It::Wd(ei(o, f3, self.rd(g), self.rs(g), imm));
        }
    }
    pub fn rvc(&self, g: &mut Rng) -> u16 {
        let rp = |g: &mut Rng| g.below(8) as u16;
        // rd' avoiding s0/s1 mostly
        let wp = |g: &mut Rng| -> u16 {
            if g.chance(4) { g.below(8) as u16 } else { 2 + g.below(5) as u16 }
        };
        let rd = |g: &mut Rng| self.rd(g) as u16;
        let i5 = |g: &mut Rng| (g.below(32) as u16) << 2 | (g.below(2) as u16) << 12;
        match g.below(26) {
            0 | 1 => 0x0001 | rd(g) << 7 | i5(g),
            2 => 0x4001 | rd(g) << 7 | i5(g),
            3 => 0x6001 | rd(g) << 7 | i5(g),
            4 => 0x8001 | wp(g) << 7 | i5(g),
            5 => 0x8401 | wp(g) << 7 | i5(g),
            6 => 0x8801 | wp(g) << 7 | i5(g),
            7 | 8 => 0x8c01 | wp(g) << 7 | (g.below(4) as u16) << 5 | rp(g) << 2,
            9 => 0x9c01 | wp(g) << 7 | (g.below(2) as u16) << 5 | rp(g) << 2,
            10 => 0x0002 | rd(g) << 7 | i5(g),
            11 | 12 => 0x8002 | rd(g) << 7 | (1 + g.below(31) as u16) << 2,
            13 | 14 => 0x9002 | (1 | rd(g)) << 7 | (1 + g.below(31) as u16) << 2,
            15 => (g.below(256) as u16) << 5 | wp(g) << 2,
            16 => 0x4000 | (g.below(8) as u16) << 10 | (g.below(4) as u16) << 5 | (g.below(2) as u16) << 7 | wp(g) << 2,
            17 => 0x6000 | (g.below(8) as u16) << 10 | (g.below(4) as u16) << 5 | (g.below(2) as u16) << 7 | wp(g) << 2,
            18 => 0xc000 | (g.below(8) as u16) << 10 | (g.below(4) as u16) << 5 | (g.below(2) as u16) << 7 | rp(g) << 2,
            19 => 0xe000 | (g.below(8) as u16) << 10 | (g.below(4) as u16) << 5 | (g.below(2) as u16) << 7 | rp(g) << 2,
            20 => 0x4002 | rd(g) << 7 | i5(g),
            21 => 0x6002 | rd(g) << 7 | i5(g),
            22 => 0xc002 | (g.below(64) as u16) << 7 | (g.below(32) as u16) << 2,
            23 => 0xe002 | (g.below(64) as u16) << 7 | (g.below(32) as u16) << 2,
            24 => 0x2001 | rd(g) << 7 | i5(g),
            _ => {
                if g.chance(20) {
                    let h = g.next() as u16;
                    if h & 3 == 3 { h & !2 } else { h }
                } else if g.chance(30) {
                    0x6101 | i5(g) // c.addi16sp
                } else {
                    0x0001
                }
            }
        }
    }
    /// `add` in one of its encodings
    fn add(&self, g: &mut Rng, rd: u32, a: u32, b: u32) -> It {
        if g.chance(30) && rd != 0 {
            if rd == a && b != 0 {
                return It::H((0x9002 | rd << 7 | b << 2) as u16);
            }
            if rd == b && a != 0 && g.chance(30) {
                return It::H((0x9002 | rd << 7 | a << 2) as u16);
            }
        }
        It::Wd(er(0x33, 0, 0, rd, a, b))
    }
    fn mop(&self, g: &mut Rng, out: &mut Vec<It>, n: usize) {
        // a few registers so that aliasing happens
        let mut rs: Vec<u32> = (0..5).map(|_| self.rd(g)).collect();
        if g.chance(8) {
            rs[g.below(5) as usize] = 0;
        }
        let c = |g: &mut Rng| rs[g.below(5) as usize];
        let distinct = {
            let mut v: Vec<u32> = (0..12).map(|_| self.rd(g)).filter(|r| *r != 0 && !PTRS.contains(r)).collect();
            v.sort();
            v.dedup();
            // shuffle
            for i in (1..v.len()).rev() {
                let j = g.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
            v
        };
        if distinct.len() < 4 {
            return;
        }
        let (d, a, k, e) = (distinct[0], distinct[1], distinct[2], distinct[3]);
        let kind = g.below(14);
        // fields of the sequence, mutated in place with some probability
        let mut q: Vec<(u32, u32, u32, u32, u32, u32)> = match kind {
            0 => vec![
                (0x33, 0, 0, d, d, a), (0x33, 3, 0, a, d, a), (0x33, 0, 0, d, d, k),
                (0x33, 3, 0, k, d, k), (0x33, 6, 0, a, a, k),
            ],
            1 => vec![
                (0x33, 0, 32, a, d, a), (0x33, 3, 0, e, d, a), (0x33, 0, 32, d, a, k),
                (0x33, 3, 0, k, a, d), (0x33, 6, 0, a, k, e),
            ],
            13 => vec![
                // borrow form with the operands the fusion looks for
                (0x33, 0, 32, a, d, a), (0x33, 3, 0, e, d, if g.chance(50) { a } else { k }),
                (0x33, 0, 32, d, a, k), (0x33, 3, 0, k, a, d), (0x33, 6, 0, a, k, e),
            ],
            2 => vec![(0x33, 0, 0, d, a, d), (0x33, 3, 0, k, d, a), (0x33, 0, 0, e, k, e)],
            3 => vec![(0x33, 0, 0, d, a, k), (0x33, 3, 0, a, d, a), (0x33, 0, 0, e, a, e)],
            4 => vec![(0x33, 0, 0, d, a, k), (0x33, 3, 0, e, d, a), (0x33, 0, 0, e, e, k)],
            5 => {
                let (x, y) = if g.chance(50) { (d, a) } else { (a, k) };
                vec![(0x33, 0, 0, d, x, y), (0x33, 3, 0, e, d, if x == d { y } else { x })]
            }
            6 => vec![(0x33, 0, 32, d, a, k), (0x33, 3, 0, e, a, k)],
            7 => vec![
                (0x33, *g.pick(&[1, 2, 3]), 1, d, a, k), (0x33, 0, 1, e, a, k),
            ],
            8 => {
                let u = g.below(2) as u32;
                vec![(0x33, 4 + u, 1, d, a, k), (0x33, 6 + u, 1, e, a, k)]
            }
            _ => vec![],
        };
        if !q.is_empty() {
            if g.chance(35) {
                // mutate one register field
                let i = g.below(q.len() as u64) as usize;
                let r = if g.chance(60) { *g.pick(&[d, a, k, e, 0]) } else { c(g) };
                match g.below(3) {
                    0 => q[i].3 = r,
                    1 => q[i].4 = r,
                    _ => q[i].5 = r,
                }
            }
            if g.chance(5) {
                // rename a register everywhere
                let (x, y) = (*g.pick(&[d, a, k, e]), *g.pick(&[d, a, k, e, 0]));
                for t in q.iter_mut() {
                    if t.3 == x {
                        t.3 = y;
                    }
                    if t.4 == x {
                        t.4 = y;
                    }
                    if t.5 == x {
                        t.5 = y;
                    }
                }
            }
            for (o, f3, f7, rd, r1, r2) in q {
                if o == 0x33 && f3 == 0 && f7 == 0 {
                    let i = self.add(g, rd, r1, r2);
                    out.push(i);
                } else {
                    out.push(It::Wd(er(o, f3, f7, rd, r1, r2)));
                }
            }
            return;
        }
        match kind {
            9 => {
                // lui + addiw / addi
                let r = c(g);
                let r2 = if g.chance(85) { r } else { c(g) };
                let hi = match g.below(4) { 0 => 0x80000, 1 => 0x7ffff, 2 => 0xfffff, _ => g.next() as u32 & 0xfffff };
                out.push(It::Wd(eu(0x37, r, hi)));
                let imm = *g.pick(&[-1, -2048, 2047, 0, 1, 77]);
                let o = if g.chance(80) { 0x1b } else { 0x13 };
                if o == 0x1b && r2 == r && r != 0 && g.chance(25) {
                    out.push(It::H((0x2001 | r << 7 | (g.below(32) as u32) << 2 | (g.below(2) as u32) << 12) as u16))
                } else {
                    out.push(It::Wd(ei(o, 0, r2, r, imm)));
                }
            }
            10 => {
                // auipc + addi
                let r = c(g);
                let r2 = if g.chance(85) { r } else { c(g) };
                let hi = match g.below(4) { 0 => 0x80000, 1 => 0x7ffff, 2 => 0xfffff, _ => g.next() as u32 & 0xfffff };
                out.push(It::Wd(eu(0x17, r, hi)));
                out.push(It::Wd(ei(0x13, 0, r2, r, *g.pick(&[-1, -2048, 2047, 0, 1, 77]))));
            }
            _ => {
                // far jumps
                let base = if g.chance(60) { 1 } else { self.rd(g).max(1) };
                let rd = if g.chance(70) { 1 } else { self.rd(g) };
                let to = n + 1 + g.below(4) as usize;
                out.push(It::Far { base, rd, to, abs: kind == 11, skew: if g.chance(10) { 1 } else { 0 } });
            }
        }
    }
    pub fn li(&self, rd: u32, v: i32, out: &mut Vec<It>) {
        if (-2048..2048).contains(&v) {
            out.push(It::Wd(ei(0x13, 0, rd, 0, v)));
        } else {
            let lo = ((v & 0xfff) ^ 0x800) - 0x800;
            out.push(It::Wd(eu(0x37, rd, ((v - lo) >> 12) as u32 & 0xfffff)));
            out.push(It::Wd(ei(0x13, 0, rd, rd, lo)));
        }
    }
    /// one random thing
    pub fn emit(&self, g: &mut Rng, out: &mut Vec<It>) {
        let n = out.len();
        let w = [
            self.alu, self.mul, self.b, self.amo, self.ld, self.st, self.br, self.jmp, self.rvc,
            self.sys, self.mop, self.misc, self.junk,
        ];
        let mut k = g.below(w.iter().sum());
        let mut which = 0;
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                which = i;
                break;
            }
            k -= x;
        }
        let target = |g: &mut Rng, s: &Self| -> usize {
            if g.chance(s.back) {
                n.saturating_sub(g.below(12) as usize)
            } else {
                n + 1 + g.below(5) as usize
            }
        };
        match which {
            0 => {
                let i = if g.chance(55) { self.pickr(g, R_I) } else { self.picki(g, I_I) };
                out.push(i)
            }
            1 => {
                let i = self.pickr(g, R_M);
                out.push(i)
            }
            2 => {
                let i = if g.chance(50) { self.pickr(g, R_B) } else { self.picki(g, I_B) };
                out.push(i)
            }
            3 => {
                let f5 = *g.pick(&[0, 1, 2, 2, 2, 3, 3, 3, 3, 4, 8, 12, 16, 20, 24, 28]);
                let w = if self.x == 64 || g.chance(3) { 2 + g.below(2) as u32 } else { 2 };
                let rs2 = if f5 == 2 && !g.chance(3) { 0 } else { self.rs(g) };
                let p = self.ptr(g);
                if !g.chance(3) {
                    // an aligned address in x15 or directly a pointer
                    if g.chance(40) {
                        let o = 8 * g.range(-8, 8) as i32;
                        out.push(It::Wd(ei(0x13, 0, 15, *g.pick(&[2, 8, 9]), o)));
                    }
                }
                out.push(It::Wd(eamo(f5, w, g.below(4) as u32, self.rd(g), p, rs2)))
            }
            4 => {
                let f3 = loop {
                    let f = g.below(7) as u32;
                    if self.x == 64 || (f != 3 && f != 6) || g.chance(4) {
                        break f;
                    }
                };
                let i = ei(0x03, f3, self.rd(g), self.ptr(g), self.off(g));
                out.push(It::Wd(i))
            }
            5 => {
                let n = if self.x == 64 || g.chance(3) { 4 } else { 3 };
                let f3 = g.below(n) as u32;
                let i = es(f3, self.ptr(g), self.rs(g), self.off(g));
                out.push(It::Wd(i))
            }
            6 => {
                let to = target(g, self);
                if g.chance(25) {
                    out.push(It::CB { ne: g.chance(50), r: g.below(8) as u32, to })
                } else {
                    let f3 = *g.pick(&[0, 1, 4, 5, 6, 7]);
                    let rs1 = self.rs(g);
                    let rs2 = if g.chance(20) { rs1 } else { self.rs(g) };
                    out.push(It::Br { f3, rs1, rs2, to })
                }
            }
            7 => {
                let to = target(g, self);
                match g.below(4) {
                    0 => out.push(It::CJ { to }),
                    1 => out.push(It::Jal { rd: self.rd(g), to }),
                    _ => {
                        let base = self.rd(g).max(1);
                        let rd = match g.below(4) {
                            0 => base,
                            1 => 1,
                            2 => 0,
                            _ => self.rd(g),
                        };
                        out.push(It::Far { base, rd, to, abs: false, skew: if g.chance(8) { 1 } else { 0 } })
                    }
                }
            }
            8 => out.push(It::H(self.rvc(g))),
            9 => {
                let num = *g.pick(self.calls);
                self.call(g, num, out)
            }
            10 => self.mop(g, out, n),
            11 => {
                let rd = self.rd(g);
                match g.below(8) {
                    0 | 1 => out.push(It::Wd(eu(0x37, rd, g.next() as u32 & 0xfffff))),
                    2 | 3 => out.push(It::Wd(eu(0x17, rd, g.next() as u32 & 0xfffff))),
                    4 => out.push(It::Wd(ei(0x0f, g.below(2) as u32, 0, 0, (g.next() & 0xff) as i32))),
                    5 => out.push(It::Wd(0x00100073)),
                    6 => out.push(It::H(0x9002)),
                    _ => out.push(It::Wd(ei(0x13, 0, 0, 0, 0))),
                }
            }
            _ => {
                if g.chance(50) {
                    out.push(It::H(g.next() as u16))
                } else {
                    out.push(It::Wd(g.next() as u32 | 3))
                }
            }
        }
    }
    /// set up and make a system call
    pub fn call(&self, g: &mut Rng, num: i32, out: &mut Vec<It>) {
        match num {
            2001 | 2008 | 2006 | 2014 => {
                let (p, o) = (self.ptr(g), self.off(g));
                out.push(It::Wd(ei(0x13, 0, 10, p, o)));
                if num == 2014 {
                    let (p, o) = (self.ptr(g), self.off(g));
                    out.push(It::Wd(ei(0x13, 0, 11, p, o)));
                    self.li(12, g.below(64) as i32, out);
                }
            }
            2002 | 2007 => {
                if g.chance(80) {
                    self.li(10, g.below(40) as i32, out)
                }
            }
            2010 => self.li(10, g.range(100, 1500) as i32, out),
            // never takes the executable mark from code (caches may keep it)
            2012 => self.li(11, *g.pick(&[4, 4, 5]), out),
            2005 => {
                self.li(10, g.range(5, 400) as i32, out);
                self.li(11, g.below(8) as i32, out);
            }
            _ => (),
        }
        self.li(17, num, out);
        out.push(It::Wd(0x73));
    }
    pub fn program(&self, g: &mut Rng, len: usize) -> Vec<It> {
        let mut out = vec![];
        while out.len() < len {
            // counted loop around a few things
            if self.br > 0 && g.chance(6) && out.len() + 8 < len {
                self.li(24, 1 + g.below(5) as i32, &mut out);
                let top = out.len();
                for _ in 0..(1 + g.below(6)) {
                    self.emit(g, &mut out);
                }
                out.push(It::Wd(ei(0x13, 0, 24, 24, -1)));
                out.push(It::Br { f3: 1, rs1: 24, rs2: 0, to: top });
            } else {
                self.emit(g, &mut out);
            }
        }
        if !g.chance(2) {
            self.li(17, 93, &mut out);
            out.push(It::Wd(0x73));
        }
        out
    }
}

/// a memory layout: code pages and four data pages
pub struct Lay {
    pub sz: usize,
    pub code: u64,
    pub entry: u64,
    pub cpages: u64,
    pub data: u64,
}
pub fn layout(g: &mut Rng, code_bytes: u64) -> Lay {
    let sz = if g.chance(80) { 256 * 1024 } else { 512 * 1024 };
    let pages = sz as u64 / 4096;
    let cp = 2 + code_bytes / 4096;
    // code page position, data right behind it or elsewhere
    let code = match g.below(5) {
        0 => 0,
        1 => pages - cp,
        2 => 60,
        _ => 1 + g.below(pages - cp - 6),
    }
    .min(pages - cp);
    let data = if g.chance(30) && code + cp + 4 <= pages {
        code + cp
    } else if code >= 4 && g.chance(50) {
        code - 4
    } else if code + cp + 4 <= pages {
        code + cp + g.below(pages - code - cp - 3)
    } else {
        g.below(code - 3)
    };
    // entry somewhere in the first code page, often near its end
    let entry = code * 4096
        + match g.below(4) {
            0 => 0,
            1 => 4096 - 2 * (1 + g.below(20)),
            _ => 2 * g.below(2048),
        };
    Lay { sz, code: code * 4096, entry, cpages: cp, data: data * 4096 }
}

pub fn regs(g: &mut Rng, x: u8, l: &Lay) -> Vec<W> {
    let mut r: Vec<u64> = (0..32).map(|_| g.val()).collect();
    r[0] = 0;
    r[2] = l.data + 0x2000 + 0x100;
    r[8] = l.data + 0x800 + 8 * g.below(16);
    r[9] = (l.data + 0x1000).wrapping_add(g.range(-8, 8) as u64);
    r[15] = (l.data + 0x1000).wrapping_add((8 * g.range(-4, 4)) as u64);
    if g.chance(50) {
        r[9] = l.data + 0x1000;
    }
    // related values, so that comparisons and carries go both ways
    if g.chance(60) {
        for _ in 0..4 {
            let (i, j) = (10 + g.below(20) as usize, 10 + g.below(20) as usize);
            if i != 15 {
                r[i] = match g.below(4) {
                    0 => r[j],
                    1 => r[j].wrapping_neg(),
                    2 => !r[j],
                    _ => r[j] ^ 1,
                };
            }
        }
    }
    if x == 32 {
        for v in r.iter_mut() {
            *v &= 0xffff_ffff;
        }
    }
    r.into_iter().map(W).collect()
}

pub const E64: &[&str] = &[
    "i-flat", "i-sparse", "i-asm", "i-step", "t-flat", "t-sparse", "t-asm", "a-simple", "a-fixed",
    "a-dyn", "a-step",
];
pub const E32: &[&str] = &["i-flat", "i-sparse", "i-step", "t-flat", "t-sparse"];
pub fn engines(c: &mut Case) {
    c.engines = (if c.x == 64 { E64 } else { E32 }).iter().map(|s| s.to_string()).collect();
}

/// standard setting: initialise code and data, set registers and pc
pub fn setup(g: &mut Rng, c: &mut Case, l: &Lay, code: &[u8]) {
    c.sz = l.sz;
    let b = c.blob(code);
    c.push("init", json!({"a": W(l.code), "n": W(l.cpages * 4096), "fl": 3, "b": b,
        "len": code.len(), "off": W(l.entry - l.code)}));
    let dlen = 256 + g.below(256) as usize;
    let bytes: Vec<u8> = (0..dlen).map(|_| g.next() as u8).collect();
    let b = c.blob(&bytes);
    let off = if g.chance(50) { 0x1000 - 128 } else { 0x800 - 64 };
    c.push("init", json!({"a": W(l.data), "n": W(4 * 4096), "fl": 0, "b": b,
        "len": dlen, "off": W(off)}));
    let r = regs(g, c.x, l);
    c.push("regs", json!({"val": r}));
    c.push("pc", json!({"val": W(l.entry)}));
}

pub fn basic(g: &mut Rng, id: String, mix: &Mix, len: usize, max: u64) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, mix.x, v);
    let items = mix.program(g, len);
    let (b0, _) = assemble(&items, 0);
    let l = layout(g, b0.len() as u64);
    let (code, _) = assemble(&items, l.entry);
    c.max = W(max);
    setup(g, &mut c, &l, &code);
    c.push("run", json!({}));
    engines(&mut c);
    c
}


/// several separately placed pieces of code; `Abs` jumps go between them
pub struct Piece {
    pub at: u64,
    pub items: Vec<It>,
    /// jal with this link register to that address at the end
    pub tail: Option<(u32, u64)>,
}
pub fn piece_bytes(p: &Piece) -> Vec<u8> {
    let (mut b, pos) = assemble(&p.items, p.at);
    if let Some((rd, to)) = p.tail {
        let here = *pos.last().unwrap();
        b.extend_from_slice(&ej(rd, (to as i64 - here as i64) as i32).to_le_bytes());
    }
    b
}

/// page-wise image of several byte ranges, initialised as executable pages
pub fn init_code(c: &mut Case, parts: &[(u64, Vec<u8>)]) {
    let mut pages: std::collections::BTreeMap<u64, Vec<u8>> = Default::default();
    for (a, b) in parts {
        for (i, x) in b.iter().enumerate() {
            let ad = a + i as u64;
            pages.entry(ad >> 12).or_insert_with(|| vec![0; 4096])[(ad & 4095) as usize] = *x;
        }
    }
    for (p, d) in pages {
        let lo = d.iter().position(|x| *x != 0).unwrap_or(0) & !1;
        let hi = d.iter().rposition(|x| *x != 0).unwrap_or(0) + 1;
        let b = c.blob(&d[lo..hi]);
        c.push("init", json!({"a": W(p << 12), "n": W(4096), "fl": 3, "b": b, "len": hi - lo, "off": W(lo as u64)}));
    }
}
fn init_data(g: &mut Rng, c: &mut Case, at: u64, pages: u64) {
    let dlen = 256 + g.below(256) as usize;
    let bytes: Vec<u8> = (0..dlen).map(|_| g.next() as u8).collect();
    let b = c.blob(&bytes);
    let off = (if g.chance(50) { 0x1000 - 128 } else { 0x800 - 64 }) % (pages * 4096);
    c.push("init", json!({"a": W(at), "n": W(pages * 4096), "fl": 0, "b": b, "len": dlen, "off": W(off)}));
}

/// straight-line single instructions, each from the same registers
pub fn each_case(g: &mut Rng, id: String, x: u8, v: u32, bytes: &[u8], pcs: &[u64], rounds: usize, same_ptrs: bool) -> Case {
    let mut c = Case::new(id, x, v);
    let l = Lay { sz: 256 * 1024, code: 0x10000, entry: 0x10000, cpages: 2 + bytes.len() as u64 / 4096, data: 0x20000 };
    c.sz = l.sz;
    c.max = W(u64::MAX);
    let b = c.blob(bytes);
    c.push("init", json!({"a": W(l.code), "n": W(l.cpages * 4096), "fl": 3, "b": b, "len": bytes.len(), "off": W(0)}));
    init_data(g, &mut c, l.data, 4);
    for _ in 0..rounds {
        let mut r = regs(g, x, &l);
        if same_ptrs {
            for (i, w) in r.iter_mut().enumerate() {
                if i != 0 && g.chance(90) {
                    *w = W(l.data + 0x400 + 8 * g.below(700) + if g.chance(10) { g.below(8) } else { 0 });
                }
            }
        }
        let p: Vec<W> = pcs.iter().map(|p| W(*p)).collect();
        c.push("each", json!({"pcs": p, "val": r}));
    }
    c.push("obs", json!({}));
    c.engines = (if x == 64 { &["i-flat", "i-sparse", "i-asm", "a-step"][..] } else { &["i-flat", "i-sparse"][..] })
        .iter().map(|s| s.to_string()).collect();
    c
}
/// `n` single instructions drawn from the mix
pub fn each_mix(g: &mut Rng, id: String, m: &Mix, n: usize, rounds: usize) -> Case {
    let v = g.below(3) as u32;
    let mut items = vec![];
    while items.len() < n {
        m.emit(g, &mut items);
    }
    // branch targets need not exist: every instruction runs alone
    let (bytes, pos) = assemble(&items, 0x10000);
    let sp = g.chance(40);
    each_case(g, id, m.x, v, &bytes, &pos[..n], rounds, sp)
}

pub fn mutate32(g: &mut Rng, m: &Mix) -> u32 {
    let mut out = vec![];
    loop {
        m.emit(g, &mut out);
        if let Some(It::Wd(w)) = out.last() {
            let mut w = *w;
            for _ in 0..g.below(3) {
                w ^= 1 << (2 + g.below(30));
            }
            if g.chance(20) {
                w = (w & 0x7f) | (g.next() as u32) << 7;
            }
            return w;
        }
    }
}

const ALLMIX: Mix = Mix { alu: 20, mul: 12, b: 20, amo: 12, ld: 12, st: 10, br: 8, jmp: 4, rvc: 20, misc: 5, ..MIX0 };

pub fn other_val(g: &mut Rng) -> u64 {
    // addresses around every boundary that matters
    match g.below(8) {
        0 => (g.range(-9, 9) as u64).wrapping_add(1 << 32),
        1 => (g.range(-9, 9) as u64).wrapping_add(1 << 31),
        2 => (g.range(-9, 9) as u64).wrapping_add(1 << 63),
        3 => (g.range(-4100, 0)) as u64,
        4 => g.range(-9, 9) as u64,
        _ => g.next() >> g.below(64),
    }
}
fn addr(g: &mut Rng, sz: u64) -> u64 {
    match g.below(10) {
        0 => other_val(g),
        1 | 2 => sz.wrapping_add(g.range(-12, 4) as u64),
        3 => (4096 * g.below(sz / 4096 + 1)).wrapping_add(g.range(-9, 9) as u64),
        4 => (262144 * g.below(sz / 262144 + 1)).wrapping_add(g.range(-9, 9) as u64),
        5 => 4096 * g.below(sz / 4096),
        _ => g.below(sz),
    }
}
/// an address close to a few chosen pages, so that operations meet
fn near(g: &mut Rng, hot: &[u64]) -> u64 {
    let p = *g.pick(hot) * 4096;
    match g.below(4) {
        0 => p.wrapping_add(g.range(-9, 9) as u64),
        1 => p + 0xff0 + g.below(16),
        2 => p + g.below(64),
        _ => p + g.below(4096),
    }
}
fn word(g: &mut Rng) -> u64 {
    g.val()
}

/// host-level memory operations
pub struct MemMix {
    pub init: u64,
    pub stb: u64,
    pub fill: u64,
    pub st: u64,
    pub ld: u64,
    pub ldb: u64,
    pub xl: u64,
    pub fl: u64,
    pub obs: u64,
    /// percentage of addresses anywhere at all
    pub wild: u64,
}
pub fn mem_script(g: &mut Rng, c: &mut Case, m: &MemMix, n: usize) {
    let sz = c.sz as u64;
    let pages = sz / 4096;
    let b0 = g.below(pages - 3);
    let mut hot = vec![b0, b0 + 1, b0 + 2, pages - 1, *g.pick(&[0, 62, 63])];
    if pages > 64 {
        hot.push(64);
    }
    let mut k = 0;
    while k < n {
        k += 1;
        let w = [m.init, m.stb, m.fill, m.st, m.ld, m.ldb, m.xl, m.fl, m.obs];
        let mut t = g.below(w.iter().sum());
        let mut which = 0;
        for (i, x) in w.iter().enumerate() {
            if t < *x {
                which = i;
                break;
            }
            t -= x;
        }
        let a = if g.chance(m.wild) { addr(g, sz) } else { near(g, &hot) };
        match which {
            0 => {
                let mut p = if g.chance(80) { *g.pick(&hot) } else { g.below(pages + 2) } * 4096;
                let mut s = if g.chance(85) { g.below(6) } else { g.below(pages + 2) } * 4096;
                if g.chance(6) {
                    p = p.wrapping_add(*g.pick(&[1, 8, 2048, 4095]));
                }
                if g.chance(6) {
                    s = s.wrapping_add(*g.pick(&[1, 8, 2048, 4095]));
                }
                if g.chance(m.wild / 2) {
                    p = *g.pick(&[sz, u64::MAX - 4095, 1 << 63, 1 << 32, sz - 4096]);
                }
                if g.chance(m.wild / 2) {
                    s = *g.pick(&[u64::MAX - 4095, 1 << 63, sz, sz + 4096, 0]);
                }
                let len = match g.below(6) {
                    0 => 0,
                    1 => 4096,
                    2 => 4097 + g.below(200) as usize,
                    _ => 1 + g.below(300) as usize,
                };
                let off = match g.below(8) {
                    0 => 4096 - g.below(4),
                    1 => g.below(4096),
                    2 => s,
                    3 => s.wrapping_add(1),
                    4 => if g.chance(20) { g.next() } else { g.below(8192) },
                    _ => 0,
                };
                let (b, len) = if g.chance(25) { (0, 0) } else {
                    let by: Vec<u8> = (0..len).map(|_| g.next() as u8).collect();
                    (c.blob(&by), len)
                };
                let fl = *g.pick(&[0u8, 0, 0, 0, 1, 2, 3, 3, 3]);
                c.push("init", json!({"a": W(p), "n": W(s), "fl": fl, "b": b, "len": len, "off": W(off)}));
            }
            1 => {
                let len = match g.below(5) { 0 => g.below(3), 1 => 4096 + g.below(20), _ => g.below(40) } as usize;
                let by: Vec<u8> = (0..len).map(|_| g.next() as u8).collect();
                let b = c.blob(&by);
                c.push("stb", json!({"a": W(a), "b": b, "len": len}));
            }
            2 => {
                let n = match g.below(5) { 0 => g.below(3), 1 => 4096 + g.below(20), _ => g.below(40) };
                c.push("fill", json!({"a": W(a), "n": n, "val": g.below(256)}));
            }
            3 => {
                let w = *g.pick(&[1, 2, 4, 8]);
                c.push("st", json!({"a": W(a), "w": w, "val": W(word(g))}));
            }
            4 => {
                let w = *g.pick(&[1, 2, 4, 8]);
                c.push("ld", json!({"a": W(a), "w": w}));
            }
            5 => {
                let n = match g.below(5) { 0 => g.below(3), 1 => 4096 + g.below(20), _ => g.below(60) };
                c.push("ldb", json!({"a": W(a), "n": n}));
            }
            6 => {
                // an aligned fetch address
                let w = *g.pick(&[2, 4]);
                let a = a & !1;
                c.push("xl", json!({"a": W(a), "w": w}));
            }
            7 => {
                let p = if g.chance(80) { *g.pick(&hot) } else if g.chance(70) { g.below(pages + 2) } else { other_val(g) };
                match g.below(3) {
                    0 => { c.push("sf", json!({"p": W(p), "fl": g.below(8)})); }
                    1 => { c.push("cf", json!({"p": W(p), "fl": g.below(8)})); }
                    _ => { c.push("ff", json!({"p": W(p)})); }
                }
            }
            _ => {
                c.push("obs", json!({}));
            }
        }
    }
    c.push("obs", json!({}));
}
pub const HOST: &[&str] = &["i-flat", "i-sparse", "i-asm"];
pub fn mem_case(g: &mut Rng, id: String, m: &MemMix, n: usize) -> Case {
    let x = if g.chance(20) { 32 } else { 64 };
    let mut c = Case::new(id, x, g.below(3) as u32);
    c.sz = *g.pick(&[256, 256, 256, 512, 768]) * 1024;
    mem_script(g, &mut c, m, n);
    if x == 32 {
        // host addresses of 32-bit machines are registers for single accesses
        for e in c.script.iter_mut() {
            if e["op"] == "ld" || e["op"] == "st" {
                let a = gw(e, "a") & 0xffff_ffff;
                e.insert("a".into(), json!(W(a)));
                if e["op"] == "st" {
                    let v = gw(e, "val") & 0xffff_ffff;
                    e.insert("val".into(), json!(W(v)));
                    if e["w"] == 8 {
                        e.insert("w".into(), json!(4));
                    }
                } else if e["w"] == 8 {
                    e.insert("w".into(), json!(4));
                }
            }
        }
        c.engines = vec!["i-flat".into(), "i-sparse".into()];
    } else {
        c.engines = HOST.iter().map(|s| s.to_string()).collect();
    }
    c
}

/// More pages than 16 bits can number: an allocate-on-demand memory must keep
/// them apart all the same.
fn huge_case(g: &mut Rng, id: String) -> Case {
    let mut c = Case::new(id, 64, g.below(3) as u32);
    let pages = 65536 + 64 * (1 + g.below(3));
    c.sz = (pages * 4096) as usize;
    c.engines = vec!["i-sparse".into()];
    let addr = |g: &mut Rng| {
        let p = match g.below(4) {
            0 => g.below(6),
            1 => 65530 + g.below(12),
            2 => pages - 1 - g.below(4),
            _ => g.below(pages),
        };
        p * 4096 + 8 * g.below(500)
    };
    for k in 0..3 {
        for _ in 0..12 {
            let a = addr(g);
            if g.chance(60) {
                let v = g.next();
                c.push("st", json!({"a": W(a), "w": 8, "val": W(v)}));
            } else {
                c.push("ld", json!({"a": W(a), "w": 8}));
            }
        }
        if k < 2 {
            c.push("obs", json!({}));
        }
    }
    c
}

/// several entry points in the same memory, run one after another
fn segments(g: &mut Rng, id: String, mix: &Mix, nseg: usize, len: usize, max: u64) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, mix.x, v);
    let mut segs: Vec<Vec<It>> = vec![];
    let mut total = 0;
    for _ in 0..nseg {
        let n = 1 + g.below(len as u64) as usize;
        let s = mix.program(g, n);
        total += assemble(&s, 0).0.len() as u64 + 2;
        segs.push(s);
    }
    let l = layout(g, total + 64);
    c.sz = l.sz;
    c.max = W(max);
    let mut code = vec![];
    let mut entries = vec![];
    for s in &segs {
        let at = l.entry + code.len() as u64;
        entries.push(at);
        code.extend(assemble(s, at).0);
        if code.len() % 2 == 1 {
            code.push(0);
        }
    }
    setup(g, &mut c, &l, &code);
    let order = nseg + g.below(nseg as u64 + 1) as usize;
    for k in 0..order {
        let e = if k == 0 { entries[0] } else { *g.pick(&entries) };
        if k > 0 {
            if g.chance(70) {
                let r = regs(g, c.x, &l);
                c.push("regs", json!({"val": r}));
            }
            c.push("pc", json!({"val": W(e)}));
            if g.chance(20) {
                c.push("cyc", json!({"val": W(0)}));
            }
        }
        c.push("run", json!({}));
    }
    engines(&mut c);
    c
}

pub const CALLS_ALL: &[i32] = &[2000, 2001, 2002, 2006, 2008, 2014, 2100, 2101, 2102];

fn rand_handlers(g: &mut Rng) -> Vec<String> {
    let mut h: Vec<&str> = vec!["A", "B", "C", "D"];
    for i in (1..h.len()).rev() {
        let j = g.below(i as u64 + 1) as usize;
        h.swap(i, j);
    }
    h.truncate(g.below(5) as usize);
    h.into_iter().map(|s| s.to_string()).collect()
}
fn cost(g: &mut Rng) -> String {
    g.pick(&["one", "one", "est", "len", "big"]).to_string()
}

/// pieces of code 32 KB apart that share trace-cache slots, called in turn
fn collide(g: &mut Rng, id: String) -> Case {
    let v = 1 + g.below(2) as u32;
    let m = Mix { alu: 30, mul: 5, b: 5, rvc: 15, misc: 3, ld: 4, st: 4, br: 6, back: 0, wild: 0, ..MIX0 };
    let mut c = Case::new(id, 64, v);
    c.sz = 512 * 1024;
    let k = 2 + g.below(4);
    let stride = *g.pick(&[0x8000u64, 0x8000, 0x4000, 0x2000, 0x10000, 512, 1024]);
    let base = 0x1000 * (1 + g.below(3)) + 2 * g.below(32);
    let data = 0x70000u64;
    let ats: Vec<u64> = (0..k).map(|j| base + j * stride + if g.chance(25) { 2 * g.below(4) } else { 0 }).collect();
    let maxlen = if stride < 2048 { 12 } else { 30 };
    let mut parts = vec![];
    // the last piece counts down in x24 and starts over, or exits
    let mut order: Vec<usize> = (0..k as usize).collect();
    if g.chance(50) {
        order.reverse();
    }
    for (n, &j) in order.iter().enumerate() {
        let len = 1 + g.below(maxlen) as usize;
        let mut items = vec![];
        let mut mm = Mix { ..m };
        if stride < 2048 {
            mm.br = 0;
        }
        while items.len() < len {
            mm.emit(g, &mut items);
        }
        // avoid touching x24
        let tail = if n + 1 < order.len() {
            let to = ats[order[n + 1]];
            Some((if g.chance(50) { 0 } else { 1 }, to + if g.chance(25) { 4 } else { 0 }))
        } else {
            items.push(It::Wd(ei(0x13, 0, 24, 24, -1)));
            let out = items.len();
            items.push(It::Br { f3: 0, rs1: 24, rs2: 0, to: out + 2 });
            items.push(It::Wd(ej(0, (ats[order[0]] as i64 - (assemble(&items, ats[j]).1.last().unwrap().wrapping_sub(0)) as i64) as i32)));
            m.li(17, 93, &mut items);
            items.push(It::Wd(0x73));
            None
        };
        parts.push((ats[j], piece_bytes(&Piece { at: ats[j], items, tail })));
    }
    init_code(&mut c, &parts);
    init_data(g, &mut c, data, 4);
    let l = Lay { sz: c.sz, code: 0, entry: ats[order[0]], cpages: 0, data };
    let mut r = regs(g, 64, &l);
    r[24] = W(2 + g.below(6));
    c.push("regs", json!({"val": r}));
    c.push("pc", json!({"val": W(ats[order[0]])}));
    c.push("run", json!({}));
    c.max = W(900);
    c.mop = v == 2 && g.chance(30);
    engines(&mut c);
    c
}

/// the cases of C16 that show its known finding are left to C16
fn known(index: u64) -> u64 {
    if index % 40 == 21 { index + 1 } else { index }
}

pub fn generate(prop: &str, g: &mut Rng, id: String, index: u64) -> Case {
    match prop {
        "C01" => {
            let m = Mix { alu: 20, mul: 12, ld: 12, st: 10, br: 12, jmp: 5, rvc: 25, misc: 5, ..MIX0 };
            let mut c = match index % 4 {
                0 => each_mix(g, id, &m, 60, 4),
                1 => {
                    // no control flow: always reaches the end
                    let m = Mix { br: 0, jmp: 0, wild: 0, ..m };
                    let n = 40 + g.below(60) as usize;
                    basic(g, id, &m, n, 400)
                }
                _ => {
                    let n = 30 + g.below(30) as usize;
                    basic(g, id, &m, n, 250)
                }
            };
            c.eb = g.chance(50);
            c.ea = g.chance(50);
            c
        }
        "C02" => {
            let m = Mix { alu: 6, amo: 40, ld: 6, st: 10, br: 3, rvc: 4, sys: 2, wild: 0, calls: &[2001, 2008], ..MIX0 };
            let x = if g.chance(25) { 32 } else { 64 };
            let m = Mix { x, ..m };
            let mut c = if index % 4 == 0 {
                each_mix(g, id, &m, 60, 3)
            } else if index % 4 == 1 {
                segments(g, id, &m, 3, 12, 1000)
            } else {
                let n = 20 + g.below(40) as usize;
                basic(g, id, &m, n, 250)
            };
            c.ea = !g.chance(6);
            c.sys = vec!["A".into()];
            c
        }
        "C03" => {
            let m = Mix { alu: 8, b: 60, rvc: 4, ld: 2, wild: 0, ..MIX0 };
            let mut c = if index % 2 == 0 {
                each_mix(g, id, &m, 60, 5)
            } else {
                let n = 50 + g.below(50) as usize;
                basic(g, id, &m, n, 400)
            };
            c.eb = !g.chance(6);
            c
        }
        "C04" => {
            let m = Mix { x: 32, sys: 2, ..ALLMIX };
            let mut c = match index % 3 {
                0 => each_mix(g, id, &m, 60, 4),
                1 => {
                    let m = Mix { br: 0, jmp: 0, wild: 0, ..m };
                    let n = 40 + g.below(60) as usize;
                    basic(g, id, &m, n, 400)
                }
                _ => {
                    let n = 30 + g.below(30) as usize;
                    basic(g, id, &m, n, 250)
                }
            };
            c.eb = !g.chance(20);
            c.ea = !g.chance(20);
            c.sys = vec!["A".into()];
            c
        }
        "C22" => crate::junk::lazy_case(g, id, index),
        "C21" => crate::junk::junk_case(g, id, index),
        // every 16-bit encoding, in five settings: index = block * 5 + setting
        "C05X" => {
            let (x, v) = [(64, 2), (64, 0), (64, 1), (32, 2), (32, 0)][(index % 5) as usize];
            let block = (index / 5) % 128;
            let mut bytes = vec![];
            let mut pcs = vec![];
            for j in 0..512u64 {
                let h = (block * 512 + j) as u16;
                bytes.extend_from_slice(&h.to_le_bytes());
                pcs.push(0x10000 + 2 * j);
            }
            let mut c = each_case(g, id, x, v, &bytes, &pcs, 1, index % 2 == 0);
            c.engines.retain(|e| e != "i-sparse");
            c
        }
        "C05" => {
            let x = if g.chance(30) { 32 } else { 64 };
            let m = Mix { x, ..ALLMIX };
            let v = g.below(3) as u32;
            let mut c = match index % 3 {
                0 => {
                    let mut bytes = vec![];
                    let mut pcs = vec![];
                    for j in 0..120u64 {
                        bytes.extend_from_slice(&mutate32(g, &m).to_le_bytes());
                        pcs.push(0x10000 + 4 * j);
                    }
                    let sp = g.chance(50);
                    each_case(g, id, x, v, &bytes, &pcs, 1, sp)
                }
                1 => {
                    // positions: page ends, cache-slot collisions, unaligned entry into words
                    let mut bytes = vec![0u8; 3 * 4096];
                    for k in 0..bytes.len() / 4 {
                        if k % 1024 < 24 || k % 1024 >= 1000 || (k * 4) % 512 < 48 {
                            let w = if g.chance(30) {
                                (m.rvc(g) as u32) | (m.rvc(g) as u32) << 16
                            } else {
                                mutate32(g, &m)
                            };
                            bytes[4 * k..4 * k + 4].copy_from_slice(&w.to_le_bytes());
                        }
                    }
                    let mut pcs = vec![];
                    for _ in 0..120 {
                        let p = match g.below(5) {
                            0 => 4096 * g.below(3) + 4096 - 2 * (1 + g.below(6)),
                            1 => 4096 * g.below(3) + 2 * g.below(4),
                            2 => 512 * g.below(24) + 2 * g.below(6),
                            3 => 512 * g.below(8) + 2,
                            _ => 2 * g.below(3 * 2048),
                        };
                        pcs.push(0x10000 + p);
                        if g.chance(30) {
                            pcs.push(0x10000 + (p + 512 * (1 + g.below(15))) % (3 * 4096));
                            pcs.push(0x10000 + p);
                        }
                    }
                    if g.chance(20) {
                        pcs.push(0x13000 - 2);
                        pcs.push(0x20000);
                        pcs.push(0x3fffe);
                        pcs.push(0x40000);
                    }
                    let mut c = each_case(g, id, x, v, &bytes, &pcs, 1, true);
                    // no page after the code
                    if let Some(e) = c.script.first_mut() {
                        e.insert("n".into(), json!(W(3 * 4096)));
                    }
                    if g.chance(40) {
                        // elsewhere: pages with round numbers
                        let last = *g.pick(&[63u64, 64, 127, 128, 192, 255, 256, 511, 512]) ;
                        let base = (last - 2) * 4096;
                        c.sz = 9 * 262144;
                        for e in &mut c.script {
                            match e["op"].as_str().unwrap() {
                                "init" if e["fl"] == json!(3) => {
                                    e.insert("a".into(), json!(W(base)));
                                }
                                "each" => {
                                    let p: Vec<W> = pcs.iter().map(|p| W(p - 0x10000 + base)).collect();
                                    e.insert("pcs".into(), json!(p));
                                }
                                _ => {}
                            }
                        }
                    }
                    c
                }
                _ => {
                    let m = Mix { junk: 8, ..m };
                    let n = 8 + g.below(30) as usize;
                    basic(g, id, &m, n, 250)
                }
            };
            c.eb = g.chance(50);
            c.ea = g.chance(50);
            c
        }
        "C06" => {
            // now and then, what the other properties look at
            const OTHER: [&str; 17] = [
                "C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C20",
            ];
            let mut c = if index % 5 == 4 {
                return generate(OTHER[(index / 5) as usize % OTHER.len()], g, id, known(index / 85));
            } else if index % 2 == 0 {
                collide(g, id)
            } else {
                let m = Mix { br: 20, jmp: 8, back: 25, sys: 3, calls: &[2000, 2001, 2002], ..ALLMIX };
                let n = 40 + g.below(60) as usize;
                let mut c = basic(g, id, &m, n, 600);
                c.mop = c.v > 0 && g.chance(40);
                c.cost = cost(g);
                if c.cost == "big" {
                    c.max = W(1000003 * (200 + g.below(400)));
                }
                c
            };
            c.sys = vec!["A".into()];
            c
        }
        "C07" => {
            let m = Mix { alu: 10, mul: 6, mop: 60, rvc: 6, br: 4, ld: 2, misc: 3, back: 6, wild: 0, ..MIX0 };
            let x = if g.chance(15) { 32 } else { 64 };
            let m = Mix { x, ..m };
            let n = 10 + g.below(50) as usize;
            let mut c = if index % 5 == 0 {
                let mut c = each_mix(g, id, &Mix { rvc: 0, alu: 0, br: 0, ..m }, 40, 3);
                // the first instruction of each group only
                c.engines.retain(|e| e != "a-step");
                c
            } else {
                basic(g, id, &m, n, 400)
            };
            c.mop = true;
            c.v = if index % 4 == 1 { 1 } else { 2 };
            c.cost = g.pick(&["one", "est", "len"]).to_string();
            c
        }
        "C08" => {
            let m = Mix { alu: 3, ld: 4, st: 40, amo: 12, jmp: 2, br: 2, rvc: 4, sys: 10, wild: 0, calls: &[2001, 2008, 2014, 2011, 2012, 2008], ..MIX0 };
            let mut c = match index % 3 {
                0 => {
                    let mm = MemMix { init: 8, stb: 14, fill: 14, st: 20, ld: 2, ldb: 2, xl: 14, fl: 20, obs: 3, wild: 5 };
                    let n = 30 + g.below(30) as usize;
                    mem_case(g, id, &mm, n)
                }
                _ => perm_case(g, id, &m),
            };
            c.sys = vec!["A".into()];
            c
        }
        "C09" => {
            let mm = MemMix { init: 40, stb: 6, fill: 2, st: 3, ld: 2, ldb: 8, xl: 3, fl: 8, obs: 4, wild: 16 };
            let n = 20 + g.below(30) as usize;
            mem_case(g, id, &mm, n)
        }
        "C10" => {
            if index % 3 == 0 {
                let mm = MemMix { init: 4, stb: 10, fill: 10, st: 14, ld: 14, ldb: 14, xl: 10, fl: 8, obs: 2, wild: 85 };
                mem_case(g, id, &mm, 60)
            } else {
                bounds_case(g, id)
            }
        }
        "C11" => {
            if index % 400 == 398 {
                huge_case(g, id)
            } else if index % 2 == 0 {
                let mm = MemMix { init: 5, stb: 12, fill: 8, st: 24, ld: 24, ldb: 12, xl: 2, fl: 2, obs: 3, wild: 8 };
                mem_case(g, id, &mm, 70)
            } else {
                let m = Mix { alu: 4, ld: 40, st: 40, amo: 10, rvc: 6, sys: 6, wild: 0, calls: &[2001, 2008, 2014, 2006], ..MIX0 };
                let n = 40 + g.below(50) as usize;
                let mut c = basic(g, id, &m, n, 300);
                c.sys = vec!["A".into()];
                c
            }
        }
        "C12" => {
            if index % 2 == 0 {
                let mm = MemMix { init: 6, stb: 16, fill: 12, st: 20, ld: 6, ldb: 4, xl: 2, fl: 24, obs: 10, wild: 8 };
                mem_case(g, id, &mm, 60)
            } else {
                let m = Mix { alu: 4, ld: 8, st: 40, amo: 14, rvc: 4, sys: 10, wild: 0, calls: &[2001, 2008, 2014, 2012], ..MIX0 };
                dirty_case(g, id, &m)
            }
        }
        "C13" => cycles_case(g, id, index),
        "C14" => calls_case(g, id),
        "C15" => pause_case(g, id, index),
        "C16" => crate::load::elf_case(g, id, index),
        "C17" => crate::load::stack_case(g, id, index),
        "C18" => crate::load::snap_case(g, id, index),
        "C19" => crate::load::snap2_case(g, id, index),
        "C20" => reset_case(g, id, index),
        "C23" => {
            let m = Mix { jmp: 14, br: 6, mop: 10, sys: 1, ..ALLMIX };
            let n = 20 + g.below(40) as usize;
            let mut c = match index % 10 {
                0 | 4 | 7 => bounds_case(g, id),
                1 => return crate::load::elf_case(g, id, known(index / 10)),
                2 | 5 => return crate::load::stack_case(g, id, index / 10),
                8 => return generate(if g.chance(50) { "C07" } else { "C05" }, g, id, index / 10),
                _ => basic(g, id, &m, n, 300),
            };
            c.sys = vec!["A".into()];
            c.mop = g.chance(30);
            if c.mop && c.v == 0 {
                c.engines.retain(|e| !e.starts_with("t-"));
            }
            c
        }
        _ => panic!("no generator for {}", prop),
    }
}

/// code next to data: stores that straddle, jumps into data, flag changes
fn perm_case(g: &mut Rng, id: String, m: &Mix) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, 64, v);
    c.sz = 256 * 1024;
    let pages = 64u64;
    let code = if g.chance(30) { 0 } else { 4 + g.below(pages - 12) };
    let cat = code * 4096;
    let data = cat + 4096;
    // pages: code, data, data, exec, data, ...
    let nseg = 2 + g.below(4) as usize;
    let mut bytes = vec![];
    let mut entries = vec![];
    for _ in 0..nseg {
        let mut items = vec![];
        let n = 2 + g.below(10) as usize;
        while items.len() < n {
            match g.below(8) {
                0 => {
                    // flag change on one of the pages after the code
                    let p = (data >> 12) + g.below(4);
                    m.li(10, p as i32, &mut items);
                    m.li(11, *g.pick(&[2, 2, 3, 4]), &mut items);
                    // clearing the executable flag of pages no code ran from is fine
                    m.li(17, *g.pick(&[2011, 2012]), &mut items);
                    items.push(It::Wd(0x73));
                }
                1 if g.chance(25) => items.push(It::Wd(ei(0x67, 0, 1, *g.pick(&[8, 9, 15]), 0))),
                _ => m.emit(g, &mut items),
            }
        }
        m.li(17, 93, &mut items);
        items.push(It::Wd(0x73));
        let at = cat + bytes.len() as u64;
        entries.push(at);
        bytes.extend(assemble(&items, at).0);
    }
    if bytes.len() > 4000 {
        bytes.truncate(4000);
    }
    // place the code so that it ends exactly at the page end, half of the time
    let shift = if g.chance(60) { (4096 - bytes.len() as u64) & !1 } else { 0 };
    let (bytes, entries) = if shift > 0 {
        // everything is position independent apart from absolute far jumps, of which there are none
        (bytes, entries.iter().map(|e| e + shift).collect::<Vec<_>>())
    } else {
        (bytes, entries)
    };
    let b = c.blob(&bytes);
    c.push("init", json!({"a": W(cat), "n": W(4096), "fl": 3, "b": b, "len": bytes.len(), "off": W(shift)}));
    init_data(g, &mut c, data, 2);
    // another executable page behind the data, with code in it
    let small: Vec<u8> = (0..16).flat_map(|_| 0x00000013u32.to_le_bytes()).collect();
    let b = c.blob(&small);
    let f = *g.pick(&[2u8, 3, 3, 1, 0]);
    c.push("init", json!({"a": W(data + 2 * 4096), "n": W(4096), "fl": f, "b": b, "len": small.len(), "off": W(0)}));
    for k in 0..(nseg + 2) {
        let mut r: Vec<W> = (0..32).map(|_| W(g.val())).collect();
        r[0] = W(0);
        for p in [2usize, 8, 9, 15] {
            let edge = match g.below(5) {
                0 => cat + 4096,
                1 => data + 8192,
                2 => data + 4096,
                3 => cat,
                _ => data + 3 * 4096,
            };
            r[p] = W(edge.wrapping_add(g.range(-10, 10) as u64));
            if g.chance(20) {
                r[p] = W(data + g.below(4 * 4096));
            }
        }
        c.push("regs", json!({"val": r}));
        let e = if k < nseg { entries[k] } else { *g.pick(&entries) };
        c.push("pc", json!({"val": W(e)}));
        if g.chance(40) {
            c.push("run", json!({"m": false}));
        } else {
            c.push("run", json!({}));
        }
        if g.chance(30) {
            let a = *g.pick(&[cat + 4094, data - 2, data + 8190, data, data + 100, data + 8192]);
            match g.below(3) {
                0 => {
                    let by: Vec<u8> = (0..g.below(12)).map(|_| g.next() as u8).collect();
                    let b = c.blob(&by);
                    c.push("stb", json!({"a": W(a), "b": b, "len": by.len()}));
                }
                1 => {
                    c.push("st", json!({"a": W(a), "w": *g.pick(&[1, 2, 4, 8]), "val": W(g.next())}));
                }
                _ => {
                    c.push("xl", json!({"a": W(a), "w": *g.pick(&[2, 4])}));
                }
            }
        }
    }
    c.push("obs", json!({}));
    c.max = W(5000);
    engines(&mut c);
    c
}

/// guest accesses around the limits of memory
fn bounds_case(g: &mut Rng, id: String) -> Case {
    let m = Mix { ld: 30, st: 25, amo: 10, rvc: 5, sys: 4, calls: &[2008, 2001, 2006, 2014], wild: 0, ..MIX0 };
    let v = g.below(3) as u32;
    let x = if g.chance(25) { 32 } else { 64 };
    let m = Mix { x, ..m };
    let mut c = Case::new(id, x, v);
    c.sz = *g.pick(&[256, 512, 768]) * 1024;
    let sz = c.sz as u64;
    let nseg = 10;
    let mut bytes = vec![];
    let mut entries = vec![];
    let at0 = 0x8000u64;
    for _ in 0..nseg {
        let mut items = vec![];
        let n = 1 + g.below(4) as usize;
        while items.len() < n {
            if g.chance(6) {
                items.push(It::Wd(ei(0x67, 0, 1, *g.pick(&[8, 9, 15]), 0)));
            } else {
                m.emit(g, &mut items);
            }
        }
        m.li(17, 93, &mut items);
        items.push(It::Wd(0x73));
        let at = at0 + bytes.len() as u64;
        entries.push(at);
        bytes.extend(assemble(&items, at).0);
    }
    let b = c.blob(&bytes);
    c.push("init", json!({"a": W(at0), "n": W(4096), "fl": 3, "b": b, "len": bytes.len(), "off": W(0)}));
    if g.chance(30) {
        // executable last page
        let nops: Vec<u8> = (0..8).flat_map(|_| 0x0001u16.to_le_bytes()).collect();
        let b = c.blob(&nops);
        c.push("init", json!({"a": W(sz - 4096), "n": W(4096), "fl": 3, "b": b, "len": nops.len(), "off": W(4096 - 16)}));
    }
    for e in entries {
        let mut r: Vec<W> = (0..32).map(|_| W(g.val())).collect();
        r[0] = W(0);
        for p in [2usize, 8, 9, 15] {
            r[p] = W(if g.chance(70) { sz.wrapping_add(g.range(-16, 2) as u64) } else { addr(g, sz) });
            if g.chance(15) {
                r[p] = W((sz - 8).wrapping_sub(g.range(-2048, 2047) as u64));
            }
        }
        if x == 32 {
            for w in r.iter_mut() {
                w.0 &= 0xffff_ffff;
            }
        }
        c.push("regs", json!({"val": r}));
        c.push("pc", json!({"val": W(e)}));
        c.push("run", json!({"m": g.chance(30)}));
    }
    c.push("obs", json!({}));
    c.sys = vec!["A".into()];
    c.max = W(5000);
    engines(&mut c);
    c
}

/// runs separated by clearing marks
fn dirty_case(g: &mut Rng, id: String, m: &Mix) -> Case {
    let mut c = segments(g, id, m, 3, 10, 5000);
    let mut s = vec![];
    let data = c.script.iter().filter(|e| e["op"] == "init").nth(1).map(|e| gw(e, "a")).unwrap_or(0) >> 12;
    for e in c.script.drain(..) {
        let run = e["op"] == "run";
        s.push(e);
        if run {
            for _ in 0..g.below(4) {
                let p = data + g.below(4);
                let v = json!({"op": "cf", "p": W(p), "fl": *g.pick(&[4, 4, 4, 6])});
                s.push(v.as_object().unwrap().clone());
            }
        }
    }
    c.script = s;
    c.push("obs", json!({}));
    c.sys = vec!["A".into()];
    c
}

fn cycles_case(g: &mut Rng, id: String, index: u64) -> Case {
    let m = Mix { br: 10, jmp: 3, back: 0, sys: 8, wild: 0, calls: &[2002, 2007, 2002, 2000, 2010], ..ALLMIX };
    let n = 10 + g.below(50) as usize;
    let mut c = basic(g, id.clone(), &m, n, 0);
    c.cost = g.pick(&["one", "est", "est", "len", "big", "huge"]).to_string();
    c.mop = c.v > 0 && g.chance(30);
    c.sys = vec!["A".into()];
    c.max = W(u64::MAX);
    if index % 8 == 7 {
        // the counter interface itself
        c.script.clear();
        for _ in 0..20 {
            let v = if g.chance(50) { g.val() } else { g.below(1 << 20) };
            match g.below(5) {
                0 => c.push("cyc", json!({"val": W(v)})),
                1 => c.push("max", json!({"val": W(v)})),
                2 => c.push("addcn", json!({"val": W(v)})),
                _ => c.push("addc", json!({"val": W(v)})),
            };
        }
        c.push("obs", json!({"m": false}));
        return c;
    }
    // find the total, then set the limit around it
    let mut probe = c.clone();
    probe.engines = vec!["i-flat".into()];
    // one start value, so that sums near 2^64 occur
    let start = if g.chance(15) { (0u64).wrapping_sub(g.below(1 << 12)) } else { 0 };
    if start != 0 {
        let k = c.script.len() - 1;
        let e = json!({"op": "cyc", "val": W(start)});
        c.script.insert(k, e.as_object().unwrap().clone());
    } else {
        c.max = W(match &c.cost[..] {
            "huge" => u64::MAX,
            "big" => 3_000_000_000,
            _ => 6000,
        });
    }
    probe.script = c.script.clone();
    probe.max = c.max;
    if let Ok(o) = crate::exec::execute(&probe, "i-flat") {
        let last = o.last().unwrap();
        let t = gw(last, "cyc");
        let d = match g.below(8) {
            0 => 1u64.wrapping_neg(),
            1 => 0,
            2 => 1,
            3 => (g.below(40)).wrapping_neg(),
            4 => g.below(100),
            5 => 0,
            6 => t / 2,
            _ => g.below(t.wrapping_sub(start).max(1)).wrapping_neg(),
        };
        if !(d == 6 && start != 0) {
            c.max = W(t.wrapping_add(d));
        }
    }
    // run on from wherever it stopped with a larger limit, sometimes
    c
}

fn calls_case(g: &mut Rng, id: String) -> Case {
    let m = Mix { alu: 8, sys: 30, misc: 10, rvc: 4, br: 3, wild: 0, calls: &[2000, 2001, 2002, 2006, 2007, 2008, 2010, 2014, 2100, 2101, 2102, 2100, 2101, 2102], ..MIX0 };
    let n = 6 + g.below(24) as usize;
    let mut c = basic(g, id, &m, n, 2000);
    // odd numbers, exit codes, breakpoints
    let mut items = vec![];
    let k = 3 + g.below(10) as usize;
    while items.len() < k {
        match g.below(10) {
            0 => {
                m.li(17, *g.pick(&[0, 92, 94, 1999, 2003, 2009, 2013, 2103, -1, 93 + 4096]), &mut items);
                if g.chance(30) {
                    items.push(It::Wd(0x73));
                }
            }
            1 if g.chance(30) => {
                items.push(It::Wd(ei(0x13, 0, 17, g.below(32) as u32, 0)));
                items.push(It::Wd(0x73));
            }
            2 => items.push(It::Wd(0x00100073)),
            3 => items.push(It::H(0x9002)),
            4 => m.li(10, g.range(-300, 300) as i32, &mut items),
            5 if g.chance(20) => m.li(30, 99, &mut items),
            6 if g.chance(30) => m.li(30, 97, &mut items),
            _ => m.emit(g, &mut items),
        }
    }
    m.li(17, 93, &mut items);
    items.push(It::Wd(0x73));
    let l = layout(g, 1000);
    let (code, _) = assemble(&items, l.entry);
    c.script.clear();
    c.blobs.clear();
    setup(g, &mut c, &l, &code);
    c.push("run", json!({}));
    c.sys = rand_handlers(g);
    if g.chance(60) && !c.sys.contains(&"A".to_string()) {
        c.sys.push("A".into());
    }
    c.dbg = g.chance(60);
    c.max = W(if g.chance(80) { 2000 } else { 20 + g.below(60) });
    c
}

fn pause_case(g: &mut Rng, id: String, index: u64) -> Case {
    let m = Mix { br: 14, jmp: 5, back: 20, sys: 8, wild: 0, calls: &[2004, 2004, 2000, 2001], ..ALLMIX };
    let n = 20 + g.below(50) as usize;
    let mut c = basic(g, id, &m, n, 400);
    c.sys = vec!["A".into()];
    c.mop = c.v > 0 && g.chance(30);
    c.script.pop();
    match index % 3 {
        0 => {
            // signals raised by the host before the runs
            for _ in 0..6 {
                if g.chance(70) {
                    c.push("sig", json!({}));
                }
                c.push("run", json!({"cont": true}));
            }
        }
        1 => {
            // signals raised by system calls during the runs
            for _ in 0..12 {
                c.push("run", json!({"cont": true}));
            }
        }
        _ => {
            // a long loop interrupted at arbitrary moments by another thread
            c.script.clear();
            c.blobs.clear();
            let m = Mix { br: 0, jmp: 0, sys: 0, rvc: 6, ..m };
            let mut items = vec![];
            let reps = 10 + g.below(30) as i32;
            m.li(24, reps, &mut items);
            let top = items.len();
            let k = 4 + g.below(16) as usize;
            while items.len() < top + k {
                m.emit(g, &mut items);
            }
            items.push(It::Wd(ei(0x13, 0, 24, 24, -1)));
            items.push(It::Br { f3: 1, rs1: 24, rs2: 0, to: top });
            m.li(17, 93, &mut items);
            items.push(It::Wd(0x73));
            let l = layout(g, 1000);
            let (code, _) = assemble(&items, l.entry);
            setup(g, &mut c, &l, &code);
            c.max = W(100000);
            if g.chance(30) {
                if g.chance(60) {
                    // (the loop is bounded; where a pause came that was not observed at once
                    // could not be told)
                    c.cost = "zero".into();
                    c.engines.retain(|e| !e.starts_with("a-"));
                    c.max = W(*g.pick(&[0, 1, 100000, u64::MAX]));
                }
                for _ in 0..6 {
                    if g.chance(60) {
                        c.push("sig", json!({}));
                    }
                    c.push("run", json!({"cont": true}));
                }
                return c;
            }
            c.asy = true;
            for k in 0..6 {
                let sh = g.below(12);
                let spin = g.below(1 << sh);
                c.push("run", json!({"cont": true, "m": k == 5 || g.chance(50), "async": spin}));
            }
            c.push("run", json!({"cont": true}));
        }
    }
    c
}

fn reset_case(g: &mut Rng, id: String, index: u64) -> Case {
    let m = Mix { alu: 20, mul: 3, b: 3, ld: 6, st: 10, amo: 6, br: 6, jmp: 3, rvc: 10, misc: 2, sys: 0, wild: 0, back: 8, ..MIX0 };
    let mut c = Case::new(id, if g.chance(20) { 32 } else { 64 }, g.below(3) as u32);
    let m = Mix { x: c.x, ..m };
    c.sys = vec!["A".into()];
    c.mop = c.v > 0 && g.chance(30);
    let page = (1 + g.below(20)) * 4096;
    let entry = page + 2 * g.below(1000);
    let l = Lay { sz: c.sz, code: page, entry, cpages: 2, data: *g.pick(&[0x20000, 0x3f000, 0x41000]) };
    // programs at the same place; with some probability they share their beginning
    let np = 2 + g.below(3) as usize;
    let mut base: Vec<It> = vec![];
    // one long block
    let long = g.chance(30);
    let ml = Mix { br: 0, jmp: 0, ld: 0, st: 0, amo: 0, misc: 0, ..m };
    for k in 0..np {
        let mut items: Vec<It> = if k > 0 && g.chance(60) { base[..g.below(base.len() as u64) as usize].to_vec() } else { vec![] };
        let n = items.len() + 2 + g.below(12) as usize + if long { 15 } else { 0 };
        while items.len() < n {
            if long { ml.emit(g, &mut items) } else { m.emit(g, &mut items) };
        }
        if k == 0 {
            base = items.clone();
        }
        if index % 2 == 1 && g.chance(75) {
            // reset from inside
            m.li(10, g.range(30, 200) as i32, &mut items);
            m.li(11, g.below(8) as i32, &mut items);
            m.li(17, 2005, &mut items);
            items.push(It::Wd(0x73));
        }
        m.li(17, 93, &mut items);
        items.push(It::Wd(0x73));
        let (code, pos) = assemble(&items, entry);
        let mut full = vec![0u8; (entry - page) as usize];
        full.extend(code);
        let b = c.blob(&full);
        let pc = if g.chance(80) { entry } else { *g.pick(&pos[..pos.len().min(4)]) };
        c.progs.push(Prog { a: W(page), n: W(2 * 4096), fl: 3, b, len: full.len(), pc: W(pc) });
    }
    c.max = W(300);
    let rounds = 2 + g.below(4);
    for k in 0..rounds {
        let i = if k == 0 { 0 } else { g.below(np as u64) as usize };
        let p = c.progs[i].clone();
        if k > 0 {
            c.push("reset", json!({"max": W(100 + g.below(300))}));
            if g.chance(30) {
                c.push("obs", json!({}));
            }
        }
        if g.chance(25) {
            // without initialising pages
            c.push("stb", json!({"a": p.a, "b": p.b, "len": p.len}));
            c.push("sf", json!({"p": W(p.a.0 >> 12), "fl": 2}));
            c.push("sf", json!({"p": W((p.a.0 >> 12) + 1), "fl": 2}));
        } else {
            c.push("init", json!({"a": p.a, "n": p.n, "fl": p.fl, "b": p.b, "len": p.len, "off": W(0)}));
        }
        if g.chance(70) {
            let r = regs(g, c.x, &l);
            c.push("regs", json!({"val": r}));
        }
        c.push("pc", json!({"val": p.pc}));
        c.push("run", json!({"m": g.chance(70)}));
    }
    c.push("obs", json!({}));
    engines(&mut c);
    c
}
