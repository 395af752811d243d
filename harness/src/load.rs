//! Cases that load ELF files and initial stacks.
use crate::case::*;
use crate::gen::*;
use serde_json::json;

#[derive(Clone)]
pub struct Seg {
    pub ty: u32,
    pub fl: u32,
    pub vaddr: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub data: Vec<u8>,
    /// gap before the data in the file
    pub gap: usize,
    /// place in the file if it does not carry its own data
    pub off: Option<u64>,
}
pub struct File {
    pub x: u8,
    pub be: bool,
    pub entry: u64,
    pub segs: Vec<Seg>,
    /// gap between the file header and the program headers
    pub gap: usize,
    /// program headers behind the data
    pub late: bool,
}
fn put(f: &mut Vec<u8>, be: bool, n: usize, v: u64) {
    if be {
        f.extend_from_slice(&v.to_be_bytes()[8 - n..]);
    } else {
        f.extend_from_slice(&v.to_le_bytes()[..n]);
    }
}
impl File {
    pub fn new(x: u8, entry: u64, segs: Vec<Seg>) -> File {
        File { x, be: false, entry, segs, gap: 0, late: false }
    }
    pub fn build(&self) -> Vec<u8> {
        let w = if self.x == 64 { 8 } else { 4 };
        let (eh, ph) = if self.x == 64 { (64, 56) } else { (52, 32) };
        let n = self.segs.len();
        let mut body = vec![];
        let mut at = eh + if self.late { 0 } else { self.gap + n * ph };
        let start = at;
        let mut offs = vec![];
        for s in &self.segs {
            body.extend(vec![0xEEu8; s.gap]);
            at = start + body.len();
            offs.push(s.off.unwrap_or(at as u64));
            body.extend_from_slice(&s.data);
        }
        at = start + body.len();
        let phoff = if self.late { at + self.gap } else { eh + self.gap };
        let mut f = vec![0x7f, b'E', b'L', b'F', if self.x == 64 { 2 } else { 1 }, if self.be { 2 } else { 1 }, 1, 0];
        f.extend([0u8; 8]);
        let be = self.be;
        put(&mut f, be, 2, 2);
        put(&mut f, be, 2, 243);
        put(&mut f, be, 4, 1);
        put(&mut f, be, w, self.entry);
        put(&mut f, be, w, phoff as u64);
        put(&mut f, be, w, 0);
        put(&mut f, be, 4, 0);
        put(&mut f, be, 2, eh as u64);
        put(&mut f, be, 2, ph as u64);
        put(&mut f, be, 2, n as u64);
        put(&mut f, be, 2, 0);
        put(&mut f, be, 2, 0);
        put(&mut f, be, 2, 0);
        assert_eq!(f.len(), eh);
        let mut hs = vec![];
        for (s, o) in self.segs.iter().zip(&offs) {
            put(&mut hs, be, 4, s.ty as u64);
            if self.x == 64 {
                put(&mut hs, be, 4, s.fl as u64);
            }
            put(&mut hs, be, w, *o);
            put(&mut hs, be, w, s.vaddr);
            put(&mut hs, be, w, s.vaddr);
            put(&mut hs, be, w, s.filesz);
            put(&mut hs, be, w, s.memsz);
            if self.x == 32 {
                put(&mut hs, be, 4, s.fl as u64);
            }
            put(&mut hs, be, w, 4096);
        }
        if self.late {
            f.extend(body);
            f.extend(vec![0u8; self.gap]);
            f.extend(hs);
        } else {
            f.extend(vec![0u8; self.gap]);
            f.extend(hs);
            f.extend(body);
        }
        f
    }
}

pub fn seg(fl: u32, vaddr: u64, data: Vec<u8>, extra: u64) -> Seg {
    let n = data.len() as u64;
    Seg { ty: 1, fl, vaddr, filesz: n, memsz: n + extra, data, gap: 0, off: None }
}
fn noise(g: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| 1 + g.below(255) as u8).collect()
}

/// a program: code, data, bss; entry somewhere in the code
pub fn program(g: &mut Rng, x: u8, v: u32, sz: u64) -> File {
    let m = Mix { x, alu: 10, ld: 20, st: 20, amo: 5, b: 4, br: 4, jmp: 2, rvc: 10, misc: 4, sys: 2, wild: 0, ..MIX0 };
    let n = 6 + g.below(30) as usize;
    let items = m.program(g, n);
    let pages = sz * 3 / 4 / 4096;
    let cp = if g.chance(70) { 0x10 } else { g.below(pages) };
    let base = cp * 4096 + if g.chance(40) { 0 } else { 2 * g.below(2000) };
    let lead = if g.chance(60) { 0 } else { 2 * g.below(20) };
    let entry = base + lead;
    let mut code = noise(g, lead as usize);
    code.extend(assemble(&items, entry).0);
    let mut segs = vec![seg(5, base, code, if g.chance(20) { g.below(5000) } else { 0 })];
    let dl = g.below(300) as usize;
    let d = noise(g, dl);
    let dp = (cp + 3 + g.below(4)) % pages;
    let at = dp * 4096 + match g.below(3) { 0 => 0, 1 => 4096 - 1 - g.below(200), _ => g.below(4096) };
    segs.push(seg(if g.chance(80) { 6 } else { 4 }, at, d, if g.chance(60) { g.below(9000) } else { 0 }));
    if g.chance(30) {
        segs.push(seg(4, ((dp + 6) % pages) * 4096 + g.below(4096), noise(g, 20), 0));
    }
    for s in segs.iter_mut() {
        s.gap = if g.chance(50) { 0 } else { g.below(9) as usize };
    }
    if g.chance(20) {
        let k = g.below(segs.len() as u64 + 1) as usize;
        let n = g.below(8);
        let ty = *g.pick(&[0, 2, 4, 6, 7, 0x6474e551, 0x70000003]);
        segs.insert(k, Seg { ty, fl: g.below(8) as u32, vaddr: g.next(), filesz: g.next() >> g.below(64), memsz: n, data: vec![], gap: 0, off: Some(g.next()) });
    }
    if g.chance(20) {
        let k = segs.len() as u64;
        segs.swap(0, g.below(k) as usize);
    }
    let _ = v;
    let mut f = File::new(x, entry, segs);
    f.be = false;
    f.gap = if g.chance(70) { 0 } else { g.below(20) as usize };
    f.late = g.chance(25);
    f
}

/// any arrangement of segments
pub fn wild(g: &mut Rng, x: u8, sz: u64) -> File {
    let pages = sz / 4096;
    let hot = g.below(pages);
    let n = g.below(5) as usize;
    let mut segs = vec![];
    for _ in 0..n {
        let dl = match g.below(8) { 0 => 0, 1 => 4096, 2 => 4090 + g.below(20) as usize, _ => g.below(200) as usize };
        let p = if g.chance(60) { (hot + g.below(4)) % pages } else { g.below(pages) };
        let mut at = p * 4096 + match g.below(4) { 0 => 0, 1 => 4096 - 1 - g.below(300), _ => g.below(4096) };
        if g.chance(5) {
            at = *g.pick(&[sz, sz - 1, 1 << 31, (1 << 32) - 4096, u64::MAX, 1 << 63, u64::MAX - 4095]);
        }
        let mut s = seg(*g.pick(&[4, 4, 5, 5, 5, 6, 6, 6, 6, 4, 6, 5, 4, 6, 0, 1, 2, 3, 7, 12, 8]), at, noise(g, dl), match g.below(5) { 0 | 1 => 0, 2 => 4096 * g.below(3), _ => g.below(9000) });
        match g.below(20) {
            0 => s.memsz = g.below(s.filesz + 1),
            1 => s.memsz = 0,
            2 => s.filesz = g.below(s.filesz + 1),
            3 => s.filesz = s.filesz.wrapping_add(g.below(400)),
            4 => s.memsz = *g.pick(&[sz, sz - 4096, sz + 1, 1 << 32, 1 << 63]),
            5 => s.filesz = g.next() >> g.below(64),
            6 => s.off = Some(*g.pick(&[0, 1, 63, 100, u64::MAX, 1 << 31, 1 << 63])),
            7 => s.ty = g.below(3) as u32,
            8 => s.off = Some((u64::MAX - s.filesz).wrapping_add(g.below(3))),
            _ => {}
        }
        s.gap = if g.chance(40) { 0 } else { g.below(7) as usize };
        segs.push(s);
    }
    let mut f = File::new(x, g.val(), segs);
    f.be = g.chance(8);
    f.gap = if g.chance(60) { 0 } else { g.below(40) as usize };
    f.late = g.chance(30);
    f
}

/// damage to the file's bytes
pub fn damage(g: &mut Rng, f: &mut Vec<u8>, x: u8) {
    let (eh, ph) = if x == 64 { (64, 56) } else { (52, 32) };
    for _ in 0..1 + g.below(3) {
        if f.is_empty() {
            return;
        }
        match g.below(12) {
            0 => {
                let n = g.below(f.len() as u64 + 1) as usize;
                f.truncate(n);
            }
            1 => {
                let n = g.below((eh + 3 * ph) as u64 + 2) as usize;
                f.truncate(n.min(f.len()));
            }
            2 => {
                let i = g.below(4) as usize % f.len();
                f[i] ^= 1 << g.below(8);
            }
            3 => {
                if f.len() > 5 {
                    f[4] = *g.pick(&[0, 1, 2, 3, 255]);
                }
            }
            4 => {
                if f.len() > 5 {
                    f[5] = *g.pick(&[0, 1, 2, 3, 255]);
                }
            }
            5 => {
                // phnum, phentsize, phoff
                let at = *g.pick(if x == 64 { &[54usize, 56, 57, 32, 33, 35, 39] } else { &[42usize, 44, 45, 28, 29, 31, 30] });
                if at < f.len() {
                    f[at] = *g.pick(&[0, 1, 2, 5, 0x38, 0x40, 0x7f, 0x80, 255]);
                }
            }
            6 => {
                let k = g.below(9) as usize;
                f.extend(vec![0x5a; k]);
            }
            7 | 8 => {
                let i = g.below(f.len() as u64) as usize;
                f[i] = g.next() as u8;
            }
            _ => {
                // a field of a program header
                let at = eh + ph * g.below(3) as usize + g.below(ph as u64) as usize;
                if at < f.len() {
                    f[at] = *g.pick(&[0, 1, 2, 4, 5, 6, 7, 0x10, 0x7f, 0x80, 0xf0, 255]);
                }
            }
        }
    }
}

pub fn args(g: &mut Rng, room: u64) -> Vec<Vec<u8>> {
    let n = match g.below(8) { 0 => 0, 1 => 1, 2 => 8 + g.below(12), 3 => 100 + g.below(100), _ => g.below(6) } as usize;
    let mut a: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let l = match g.below(6) { 0 => 0, 1 => 30 + g.below(100), _ => g.below(20) } as usize;
            let mut s: Vec<u8> = (0..l).map(|_| if g.chance(3) { 0 } else { 1 + g.below(255) as u8 }).collect();
            if g.chance(5) {
                s.push(0);
            }
            s
        })
        .collect();
    if g.chance(8) {
        // close to, or over, what fits
        let used: u64 = a.iter().map(|s| s.len() as u64 + 1).sum::<u64>() + 8 * (a.len() as u64 + 3);
        let l = (room.saturating_sub(used) as i64 + g.range(-40, 24)).max(0);
        a.push((0..l).map(|i| if i < 9 || i + 9 > l || i % 257 == 0 { (i % 251) as u8 } else { 0 }).collect());
        if g.chance(30) {
            let l = g.below(200000);
            a.push((0..l).map(|i| if i < 9 || i + 9 > l { (i % 253) as u8 } else { 0 }).collect());
        }
    }
    if g.chance(2) {
        let n = room / 9;
        let k = n.saturating_sub(30) + g.below(60);
        a = (0..k).map(|_| vec![]).collect();
    }
    a
}

fn push_load(g: &mut Rng, c: &mut Case, f: &[u8], how: &str, a: &[Vec<u8>]) {
    let b = c.blob(f);
    let _ = g;
    c.push("load", json!({"b": b, "len": f.len(), "how": how, "args": a}));
}

/// a little history before loading
fn before(g: &mut Rng, c: &mut Case) {
    let sz = c.sz as u64;
    if g.chance(30) {
        let l = Lay { sz: c.sz, code: 0x10000, entry: 0x10000, cpages: 1, data: 0x20000 };
        let r = regs(g, c.x, &l);
        c.push("regs", json!({"val": r}));
    }
    for _ in 0..g.below(4) {
        let a = match g.below(4) { 0 => sz - 1 - g.below(200), 1 => sz * 3 / 4 - 20 + g.below(40), 2 => 0x10000 + g.below(0x4000), _ => g.below(sz - 100) };
        let n = g.below(40).min(sz - a);
        c.push("fill", json!({"a": W(a), "n": n, "val": 1 + g.below(255)}));
    }
    if g.chance(12) {
        let p = if g.chance(50) { sz / 4096 - 1 - g.below(3) } else { g.below(sz / 4096) };
        c.push("init", json!({"a": W(p * 4096), "n": W(4096), "fl": *g.pick(&[0, 1, 3, 2]), "b": 0, "len": 0, "off": W(0)}));
    }
}

pub fn elf_case(g: &mut Rng, id: String, index: u64) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, if g.chance(30) { 32 } else { 64 }, v);
    c.sz = *g.pick(&[256, 256, 512]) * 1024;
    c.sys = vec!["A".into()];
    c.dbg = g.chance(20);
    c.max = W(200);
    let sz = c.sz as u64;
    if g.chance(40) {
        before(g, &mut c);
    }
    match index % 4 {
        0 => {
            let f = program(g, c.x, v, sz);
            let a = if g.chance(50) { vec![] } else { args(g, 200) };
            let how = *g.pick(&["prog", "prog", "meta"]);
            push_load(g, &mut c, &f.build(), how, &a);
            c.push("run", json!({}));
        }
        1 if index % 40 == 21 => {
            // one segment whose size in memory, with its padding and rounded up, exceeds 64 bits
            c.x = 64;
            let pad = g.below(4096);
            let at = (1 + g.below(sz / 4096 - 1)) * 4096 + pad;
            let mut s = seg(*g.pick(&[4, 6, 5]), at, vec![], 0);
            s.memsz = u64::MAX - *g.pick(&[0, 1, 7, 4094, 4096, 8191]);
            if g.chance(50) {
                s.memsz = u64::MAX - pad.saturating_sub(g.below(9));
            }
            let f = File::new(64, 0x1000, vec![s]);
            push_load(g, &mut c, &f.build(), "elf", &[]);
        }
        1 | 2 => {
            for _ in 0..1 + g.below(3) {
                let f = if g.chance(20) { program(g, c.x, v, sz) } else { wild(g, c.x, sz) };
                let how = *g.pick(&["elf", "elf", "elfn", "prog", "meta"]);
                push_load(g, &mut c, &f.build(), how, &[]);
            }
        }
        _ => {
            for _ in 0..1 + g.below(4) {
                let f = if g.chance(40) { program(g, c.x, v, sz) } else { wild(g, c.x, sz) };
                let x = if g.chance(5) { 96 - c.x } else { c.x };
                let f = File { x, ..f };
                let mut b = f.build();
                damage(g, &mut b, x);
                let how = *g.pick(&["elf", "elf", "elfn", "prog", "meta"]);
                push_load(g, &mut c, &b, how, &[]);
            }
        }
    }
    c.push("obs", json!({}));
    engines(&mut c);
    c
}

pub fn stack_case(g: &mut Rng, id: String, index: u64) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, if g.chance(30) { 32 } else { 64 }, v);
    c.sz = *g.pick(&[256, 256, 512]) * 1024;
    c.sys = vec!["A".into()];
    c.max = W(150);
    let sz = c.sz as u64;
    if g.chance(40) {
        before(g, &mut c);
    }
    for k in 0..1 + g.below(3) {
        let m = Mix { x: c.x, alu: 5, ld: 20, st: 10, rvc: 10, misc: 5, wild: 0, ..MIX0 };
        // read what the stack holds, then other things
        let mut items = vec![];
        let wide = c.x == 64;
        items.push(It::Wd(ei(3, if wide { 3 } else { 2 }, 10, 2, 0)));
        for j in 1..1 + g.below(5) as i32 {
            items.push(It::Wd(ei(3, if wide { 3 } else { 2 }, 11, 2, j * if wide { 8 } else { 4 })));
            items.push(It::Wd(ei(3, 4, 12 + j as u32, 11, g.below(8) as i32)));
        }
        while items.len() < 20 {
            m.emit(g, &mut items);
        }
        items.push(It::Wd(ei(0x13, 0, 17, 0, 93)));
        items.push(It::Wd(0x73));
        let base = 0x1000 * (1 + k * 4 + g.below(4)) + 2 * g.below(100);
        let mut segs = vec![seg(5, base, assemble(&items, base).0, 0)];
        if index % 4 == 3 && g.chance(60) {
            // something inside the stack region
            let at = if g.chance(50) { sz - 4096 * (1 + g.below(2)) } else { sz * 3 / 4 + g.below(sz / 4) };
            segs.push(seg(*g.pick(&[4, 5, 6, 5]), at, vec![7; 8], g.below(100)));
        }
        let room = if g.chance(80) { sz / 4 } else { sz };
        let a = args(g, room);
        let f = File::new(c.x, base, segs);
        let how = *g.pick(&["prog", "prog", "meta"]);
        push_load(g, &mut c, &f.build(), how, &a);
        if g.chance(60) {
            c.push("run", json!({}));
        }
    }
    c.push("obs", json!({}));
    engines(&mut c);
    c
}

/// pairs of engines: the machine before, and the one resumed on
pub fn chains(g: &mut Rng, c: &mut Case) {
    let e: &[&str] = if c.x == 64 { E64 } else { E32 };
    let mut v: Vec<String> = vec![];
    for (i, a) in e.iter().enumerate() {
        if g.chance(45) {
            let b = if g.chance(25) { a } else { &e[(i + 1 + g.below(e.len() as u64 - 1) as usize) % e.len()] };
            v.push(format!("{}>{}", a, b));
        }
    }
    if v.is_empty() {
        v.push(format!("{}>{}", e[0], e[e.len() - 1]));
    }
    c.engines = v;
}

fn snap_mix(x: u8) -> Mix {
    Mix { x, alu: 14, mul: 3, b: 3, ld: 12, st: 24, amo: 8, br: 5, jmp: 3, rvc: 8, misc: 3, sys: 6, wild: 0, back: 8,
          calls: &[2000, 2001, 2004, 2008, 2009, 2014], ..MIX0 }
}

/// run with a small limit, take a snapshot, go on elsewhere
fn stop(g: &mut Rng, c: &mut Case) {
    if g.chance(20) {
        c.push("sig", json!({}));
    }
    c.push("run", json!({"m": g.chance(50)}));
}

pub fn snap_case(g: &mut Rng, id: String, index: u64) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, if g.chance(30) { 32 } else { 64 }, v);
    c.sz = *g.pick(&[256, 256, 512, 1024]) * 1024;
    c.sys = vec!["A".into()];
    c.mop = v > 0 && g.chance(20);
    c.max = W(1 + g.below(120));
    let sz = c.sz as u64;
    let m = snap_mix(c.x);
    let top = *g.pick(&[sz - 8192, sz - 4096, 0x20000]);
    // registers point into the pages at `top`
    let l = Lay { sz: c.sz, code: 0x4000, entry: 0x4000, cpages: 1, data: top };
    if index % 3 != 0 {
        let n = 10 + g.below(40) as usize;
        let items = m.program(g, n);
        let (code, _) = assemble(&items, l.entry);
        let b = c.blob(&code);
        c.push("init", json!({"a": W(l.code), "n": W(8192), "fl": 3, "b": b, "len": code.len(), "off": W(0)}));
        for _ in 0..g.below(3) {
            let by = noise(g, 60);
            let b = c.blob(&by);
            let p = *g.pick(&[top / 4096, 0x20, sz / 4096 - 1, 40]);
            c.push("init", json!({"a": W(p * 4096), "n": W(4096), "fl": *g.pick(&[0, 0, 0, 1]), "b": b, "len": 60, "off": W(*g.pick(&[0, 4036, 100]))}));
        }
        let r = regs(g, c.x, &l);
        c.push("regs", json!({"val": r}));
        c.push("pc", json!({"val": W(l.entry)}));
    } else {
        let f = program(g, c.x, v, sz);
        let a = args(g, 300);
        push_load(g, &mut c, &f.build(), "prog", &a);
    }
    let mut k = 0;
    for round in 0..1 + g.below(3) {
        stop(g, &mut c);
        if g.chance(40) {
            let a = *g.pick(&[top, 0, sz / 2, sz - 4096, 262144 - 8]) + g.below(4000);
            c.push("fill", json!({"a": W(a.min(sz - 50)), "n": g.below(50), "val": 1 + g.below(255)}));
        }
        if g.chance(20) {
            let lr = if g.chance(50) { u64::MAX } else { g.val() };
            let lr = if c.x == 32 { lr & 0xffffffff } else { lr };
            c.push("lr", json!({"val": W(lr)}));
        }
        c.push("snap", json!({}));
        k += 1;
        if g.chance(30) {
            c.push("run", json!({}));
        }
        c.push("renew", json!({"ctx": false}));
        if g.chance(10) && round == 0 {
            let bad = *g.pick(&["version", "flags", "pages", "addr"]);
            c.push("resume", json!({"k": k, "bad": bad}));
            c.push("renew", json!({"ctx": false}));
        }
        if g.chance(6) {
            // not blank: pages of the snapshot over something else
            let p = g.below(sz / 4096);
            c.push("init", json!({"a": W(p * 4096), "n": W(4096), "fl": *g.pick(&[0, 1, 3]), "b": 0, "len": 0, "off": W(0)}));
            c.push("fill", json!({"a": W(g.below(sz - 100)), "n": g.below(50), "val": 1 + g.below(255)}));
        }
        let which = if g.chance(90) { k } else { 1 + g.below(k) };
        c.push("resume", json!({"k": which, "bad": ""}));
        c.push("max", json!({"val": W(50 + g.below(300))}));
    }
    c.push("run", json!({}));
    c.push("obs", json!({}));
    chains(g, &mut c);
    c
}

pub fn snap2_case(g: &mut Rng, id: String, index: u64) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, if g.chance(25) { 32 } else { 64 }, v);
    c.sz = *g.pick(&[256, 256, 512]) * 1024;
    c.sys = vec!["A".into()];
    c.mop = v > 0 && g.chance(20);
    c.max = W(1 + g.below(120));
    let sz = c.sz as u64;
    let m = snap_mix(c.x);
    let top = *g.pick(&[sz - 12288, 0x20000, 262144 - 8192]);
    let l = Lay { sz: c.sz, code: 0x4000, entry: 0x4000, cpages: 1, data: top };
    // sources: compressible, so that the recorded differences stay small
    let mut lens = vec![];
    for id in 1..=2u64 {
        let n = *g.pick(&[4096usize, 8192, 12288, 9000, 5000, 4094, 16384]);
        let mut by = vec![0u8; n];
        for k in 0..n / 128 {
            by[k * 128 + g.below(128) as usize] = 1 + g.below(255) as u8;
        }
        let b = c.blob(&by);
        c.push("src", json!({"id": id, "b": b, "len": n}));
        lens.push((id, b, n));
    }
    if index % 3 == 0 {
        // a program that is itself in the source
        let n = 10 + g.below(30) as usize;
        let items = m.program(g, n);
        let base = 0x4000 + if g.chance(30) { 2 * g.below(100) } else { 0 };
        let mut code = assemble(&items, base).0;
        code.resize(code.len() + g.below(2) as usize * 4096, 0);
        let mut segs = vec![seg(5, base, code, g.below(3000))];
        let dp = 0x10 + g.below(4);
        for j in 0..1 + g.below(3) {
            let n = *g.pick(&[4096usize, 8192, 100, 5000, 8191]);
            let mut d = vec![0u8; n];
            for k in 0..n / 100 {
                d[k * 100 + g.below(100) as usize] = 1 + g.below(255) as u8;
            }
            let at = if g.chance(70) { (dp + 3 * j) * 4096 } else { dp * 4096 + g.below(3) * 4096 } + if g.chance(40) { 0 } else { g.below(4096) };
            segs.push(seg(*g.pick(&[6, 6, 4]), at, d, *g.pick(&[0, 10, 5000])));
        }
        for s in segs.iter_mut() {
            s.gap = if g.chance(50) { 0 } else { g.below(9) as usize };
        }
        let f = File::new(c.x, base, segs).build();
        let lead = 2 * g.below(40) as usize;
        let mut whole = vec![3u8; lead];
        whole.extend(&f);
        let n = whole.len();
        let b = c.blob(&whole);
        c.push("src", json!({"id": 3, "b": b, "len": n}));
        lens.push((3, b, n));
        let a = if g.chance(50) { vec![] } else { args(g, 100) };
        let a: Vec<Vec<u8>> = if a.iter().map(|s| s.len()).sum::<usize>() > 4000 { vec![] } else { a };
        let bf = c.blob(&f);
        c.push("load", json!({"b": bf, "len": f.len(), "how": "meta", "args": a}));
        c.push("mark", json!({"b": bf, "len": f.len(), "id": 3, "off": lead}));
    } else {
        let n = 10 + g.below(40) as usize;
        let items = m.program(g, n);
        let (code, _) = assemble(&items, l.entry);
        let b = c.blob(&code);
        c.push("init", json!({"a": W(l.code), "n": W(8192), "fl": 3, "b": b, "len": code.len(), "off": W(0)}));
        let r = regs(g, c.x, &l);
        c.push("regs", json!({"val": r}));
        c.push("pc", json!({"val": W(l.entry)}));
    }
    let mut k = 0;
    for round in 0..1 + g.below(3) {
        for _ in 0..1 + g.below(6) {
            let (id, _, n) = lens[g.below(lens.len() as u64) as usize];
            let near = *g.pick(&[top, top, top, top + 4096, 0x10000, sz - 8192, 0x4000]);
            let a = near + *g.pick(&[0, 0, 0, 0, 8, 4095, 4096, 100]);
            match g.below(10) {
                0 | 1 => {
                    c.push("fill", json!({"a": W(a.min(sz - 5000)), "n": *g.pick(&[1, 8, 40, 4096]), "val": 1 + g.below(255)}));
                }
                2 => {
                    let a = if g.chance(95) { a } else { other_val(g) };
                    let n = *g.pick(&[0, 1, 4095, 4096, 4097, 8192, sz - 1]);
                    let n = if g.chance(4) { 0u64.wrapping_sub(a) } else if a.checked_add(n).is_none() { 1 } else { n };
                    c.push("untrack", json!({"a": W(a), "n": W(n)}));
                }
                3 => stop(g, &mut c),
                4 | 5 if g.chance(60) => {
                    // neighbouring pages of neighbouring parts, of one source or of two
                    let at = (a & !4095).min(sz - 8192);
                    let at = if c.x == 32 { at & 0xffffffff } else { at };
                    let o = *g.pick(&[0u64, 0, 0, 4096, 8]);
                    for (j, id) in [id, lens[g.below(lens.len() as u64) as usize].0].into_iter().enumerate() {
                        let o = o + 4096 * j as u64 + if g.chance(10) { 4096 } else { 0 };
                        c.push("sstore", json!({"a": W(at + 4096 * j as u64), "id": id, "off": W(o), "n": W(4096), "sa": W(0x2000)}));
                    }
                }
                4 if g.chance(30) => {
                    // pages set up afresh
                    c.push("init", json!({"a": W(top & !4095), "n": W(4096 * (1 + g.below(2))), "fl": *g.pick(&[0, 0, 1, 3]), "b": 0, "len": 0, "off": W(0)}));
                }
                _ => {
                    let off = match g.below(8) { 0 => g.below(n as u64 + 10), 1 => 8, 2 => n as u64, 3 => 4096, _ => 0 };
                    let len = match g.below(8) { 0 => 0, 1 => 1 + g.below(5000), 2 => 4096 + g.below(9), 3 => 1 << 40, 4 => u64::MAX, 5 => 8192, 6 => 4096, _ => n as u64 };
                    let mut a = a;
                    let mut len = len;
                    if g.chance(6) {
                        a = match g.below(4) { 0 => u64::MAX, 1 => sz - 100, 2 => 0u64.wrapping_sub(n as u64 - off.min(n as u64)), _ => other_val(g) };
                        if g.chance(30) {
                            len = 0;
                        }
                    }
                    let sa = match g.below(8) { 0 => a.wrapping_sub(8), 1 => a.wrapping_add(16), 2 if g.chance(20) => other_val(g), _ => 0x2000 };
                    let (a, sa) = if c.x == 32 && g.chance(95) { (a & 0xffffffff, sa & 0xffffffff) } else { (a, sa) };
                    let id = if g.chance(96) { id } else { 77 };
                    c.push("sstore", json!({"a": W(a), "id": id, "off": W(off), "n": W(len), "sa": W(sa)}));
                }
            }
        }
        stop(g, &mut c);
        c.push("snap2", json!({}));
        k += 1;
        if g.chance(25) {
            c.push("run", json!({}));
        }
        let keep = g.chance(40);
        if keep && g.chance(50) {
            // the context goes on with the old machine first
            let (id, _, _) = lens[g.below(lens.len() as u64) as usize];
            let at = *g.pick(&[top, top + 4096, 0x10000, sz - 8192, 0x1c000]) & !4095;
            let o = *g.pick(&[0u64, 0, 4096]);
            c.push("sstore", json!({"a": W(at), "id": id, "off": W(o), "n": W(4096), "sa": W(0x2000)}));
        }
        c.push("renew", json!({"ctx": keep}));
        if g.chance(10) && round == 0 {
            let bad = *g.pick(&["version", "flags", "pages", "addr", "id", "off", "end"]);
            c.push("resume", json!({"k": k, "bad": bad}));
            c.push("renew", json!({"ctx": false}));
        }
        if g.chance(8) {
            // the source has changed
            let (id, b, n) = lens[g.below(lens.len() as u64) as usize];
            if g.chance(40) {
                c.push("src", json!({"id": id, "b": 0, "len": 0}));
            } else {
                let n = match g.below(3) { 0 => n & !4095, 1 => n.saturating_sub(4096), _ => n / 2 } & !1;
                c.push("src", json!({"id": id, "b": b, "len": n}));
            }
        }
        let which = if g.chance(if keep { 60 } else { 90 }) { k } else { 1 + g.below(k) };
        c.push("resume", json!({"k": which, "bad": ""}));
        c.push("max", json!({"val": W(50 + g.below(300))}));
    }
    c.push("run", json!({}));
    c.push("snap2", json!({}));
    chains(g, &mut c);
    c
}
