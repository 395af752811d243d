//! Arbitrary things a host may be made to do with untrusted data: what they
//! answer is left open, but they must answer.
use crate::case::*;
use crate::engine::*;
use crate::exec::*;
use crate::gen::Rng;
use bytes::Bytes;
use ckb_vm::elf::parse_elf;
use ckb_vm::instructions::Register;
use ckb_vm::snapshot::{make_snapshot, resume, Snapshot};
use ckb_vm::{CoreMachine, Memory, SupportMachine};
use serde_json::{Map, Value};

/// a number around a boundary of the memory or of the number range
fn num(g: &mut Rng, sz: u64) -> u64 {
    let d = g.range(-9, 9) as u64;
    match g.below(14) {
        0 => d,
        1 => (1u64 << 63).wrapping_add(d),
        2 => (1u64 << 32).wrapping_add(d),
        3 => (1u64 << 31).wrapping_add(d),
        4 => sz.wrapping_add(d),
        5 => (sz / 4096).wrapping_add(d),
        6 => g.next(),
        7 => g.next() & !4095,
        8 => 4096 * g.below(sz / 4096),
        9 => 0u64.wrapping_sub(4096 * g.below(4)),
        10 => sz - 4096 * g.below(4),
        11 => 4096 * g.below(9),
        _ => g.below(sz),
    }
}
fn noise(g: &mut Rng, n: u64) -> Bytes {
    if g.chance(30) {
        return vec![g.next() as u8; n as usize].into();
    }
    (0..n).map(|_| g.next() as u8).collect::<Vec<u8>>().into()
}

pub fn junk<D: Drive>(r: &mut Runner, d: &mut D, e: &Map<String, Value>) {
    let mut g = Rng(gi(e, "seed") as u64);
    let c = r.c;
    let sz = c.sz as u64;
    for _ in 0..gi(e, "n") {
        let g = &mut g;
        let reg = |v: u64| <<D::Inner as CoreMachine>::REG as Register>::from_u64(v);
        let what = match e.get("only") {
            Some(v) => v.as_u64().unwrap(),
            None => g.below(22),
        };
        match what {
            // run from anywhere, within a limit
            0 | 1 | 2 => {
                if g.chance(70) {
                    let p = num(g, sz);
                    let m = d.dm();
                    m.update_pc(reg(p));
                    m.commit_pc();
                }
                let top = d.dm().cycles().saturating_add(g.below(500));
                d.dm().set_max_cycles(top);
                let _ = if r.step { r.steps(d, i64::MAX) } else { d.run().map(Some) };
            }
            3 => {
                for i in 0..32 {
                    let v = num(g, sz);
                    d.dm().set_register(i, reg(v));
                }
            }
            4 => {
                let k = g.below(c.blobs.len() as u64) as usize;
                let mut b = c.blob_bytes(k + 1, 1 << 20);
                for _ in 0..g.below(4) {
                    let n = b.len() as u64;
                    if n > 0 {
                        b[g.below(n) as usize] ^= 1 << g.below(8);
                    }
                }
                let b = Bytes::from(b);
                let args: Vec<Bytes> = (0..g.below(3)).map(|_| { let n = g.below(100); noise(g, n) }).collect();
                let _ = match g.below(4) {
                    0 => d.load(&b, &args),
                    1 => d.load_meta(&b, &args),
                    2 => d.dm().load_elf(&b, true),
                    _ => d.dm().load_elf(&b, false),
                };
            }
            5 => {
                if let Ok(s) = make_snapshot(d.dm().inner_mut()) {
                    let mut t = Snapshot {
                        version: s.version,
                        registers: s.registers,
                        pc: s.pc,
                        page_indices: s.page_indices.clone(),
                        page_flags: s.page_flags.clone(),
                        pages: s.pages.clone(),
                        load_reservation_address: s.load_reservation_address,
                    };
                    for _ in 0..g.below(4) {
                        let k = t.page_indices.len().min(t.pages.len()).min(t.page_flags.len()) as u64;
                        match g.below(8) {
                            0 => t.pc = num(g, sz),
                            1 => t.registers[g.below(32) as usize] = num(g, sz),
                            2 => t.load_reservation_address = num(g, sz),
                            3 => {
                                t.page_indices.push(num(g, sz));
                                t.page_flags.push(g.next() as u8);
                                let n = *g.pick(&[0, 1, 4095, 4096, 4097, 9000]);
                                t.pages.push(noise(g, n).to_vec());
                            }
                            4 if k > 0 => t.page_indices[g.below(k) as usize] = num(g, sz),
                            5 if k > 0 => t.page_flags[g.below(k) as usize] = g.next() as u8,
                            6 if k > 0 => {
                                let n = *g.pick(&[0, 1, 4095, 4097, 8192]);
                                t.pages[g.below(k) as usize] = noise(g, n).to_vec();
                            }
                            _ => {
                                t.page_indices.pop();
                            }
                        }
                    }
                    let _ = resume(d.dm().inner_mut(), &t);
                }
            }
            6 => {
                if let Ok(mut t) = r.ctx.make_snapshot(d.dm().inner_mut()) {
                    for _ in 0..g.below(4) {
                        let (k, j) = (t.dirty_pages.len() as u64, t.pages_from_source.len() as u64);
                        match g.below(10) {
                            0 => t.pc = num(g, sz),
                            1 => t.registers[g.below(32) as usize] = num(g, sz),
                            2 => t.load_reservation_address = num(g, sz),
                            3 => {
                                let n = *g.pick(&[0, 1, 4095, 4096, 4097, 8192, 12288]);
                                let x = (num(g, sz), g.next() as u8, noise(g, n).to_vec());
                                t.dirty_pages.push(x)
                            }
                            4 if k > 0 => t.dirty_pages[g.below(k) as usize].0 = num(g, sz),
                            5 => {
                                let x = (num(g, sz), g.next() as u8, 1 + g.below(3), num(g, sz), num(g, sz));
                                t.pages_from_source.push(x)
                            }
                            6 if j > 0 => t.pages_from_source[g.below(j) as usize].0 = num(g, sz),
                            7 if j > 0 => t.pages_from_source[g.below(j) as usize].3 = num(g, sz),
                            8 if j > 0 => t.pages_from_source[g.below(j) as usize].4 = num(g, sz),
                            _ => {
                                t.cycles = num(g, sz);
                                t.max_cycles = num(g, sz);
                            }
                        }
                    }
                    let _ = r.ctx.resume(d.dm().inner_mut(), &t);
                }
            }
            7 => {
                let n = *g.pick(&[0, 1, 4096, 5000]);
                let data = if g.chance(70) { Some(noise(g, n)) } else { None };
                let (a, n, fl, off) = (num(g, sz), num(g, sz), g.next() as u8, num(g, sz));
                let (a, n) = if g.chance(50) { (a & !4095, n & !4095) } else { (a, n) };
                let _ = d.dm().memory_mut().init_pages(a, n, fl, data, if g.chance(50) { 0 } else { off });
            }
            8 => {
                let n = *g.pick(&[0, 1, 7, 4096, 9000]);
                let (a, b) = (num(g, sz), noise(g, n));
                let _ = d.dm().memory_mut().store_bytes(a, &b);
            }
            9 => {
                let (a, n) = (num(g, sz), num(g, sz));
                let _ = d.dm().memory_mut().load_bytes(a, n);
            }
            10 => {
                let (a, n, v) = (num(g, sz), num(g, sz), g.next() as u8);
                let _ = d.dm().memory_mut().store_byte(a, n, v);
            }
            11 => {
                let (a, v) = (reg(num(g, sz)), reg(g.next()));
                let m = d.dm().memory_mut();
                let _ = m.store8(&a, &v);
                let _ = m.store16(&a, &v);
                let _ = m.store32(&a, &v);
                let _ = m.store64(&a, &v);
            }
            12 => {
                let p = num(g, sz);
                let a = reg(p);
                let m = d.dm().memory_mut();
                let _ = m.load8(&a);
                let _ = m.load16(&a);
                let _ = m.load32(&a);
                let _ = m.load64(&a);
                let _ = m.execute_load16(p);
                let _ = m.execute_load32(p);
            }
            13 => {
                let (p, f) = (num(g, sz), g.next() as u8);
                let m = d.dm().memory_mut();
                let _ = m.set_flag(p, f & 7);
                let _ = m.fetch_flag(p);
                if g.chance(50) {
                    let _ = m.clear_flag(num(g, sz), f);
                }
            }
            14 => {
                let x = (num(g, sz), 1 + g.below(3), num(g, sz), num(g, sz), num(g, sz));
                let _ = r.ctx.store_bytes(d.dm().inner_mut(), x.0, &x.1, x.2, x.3, x.4);
            }
            15 => {
                let (a, n) = (num(g, sz), num(g, sz));
                let _ = r.ctx.untrack_pages(d.dm().inner_mut(), a, n);
            }
            16 => {
                let k = g.below(c.blobs.len() as u64) as usize;
                let b = Bytes::from(c.blob_bytes(k + 1, 1 << 20));
                let v = d.dm().version();
                if let Ok(meta) = parse_elf::<<D::Inner as CoreMachine>::REG>(&b, v) {
                    let off = if g.chance(50) { 0 } else { num(g, sz) >> 2 };
                    let _ = r.ctx.mark_program(d.dm().inner_mut(), &meta, &(1 + g.below(3)), off);
                }
            }
            17 => {
                let x = num(g, sz);
                let _ = d.dm().reset(x);
            }
            18 => r.sh.pause.interrupt(),
            19 => {
                let p = num(g, sz);
                d.dm().memory_mut().set_lr(&reg(p));
                let m = d.dm();
                let _ = m.add_cycles(num(g, sz));
                let _ = m.add_cycles_no_checking(num(g, sz));
                if g.chance(20) {
                    m.set_cycles(num(g, sz));
                }
            }
            20 => {
                let m = d.dm();
                let _ = format!("{}", m);
                let _ = (m.exit_code(), m.running(), m.cycles(), m.pc().to_u64(), m.memory().memory_pages());
            }
            _ => {
                if r.step {
                    let p = num(g, sz);
                    let m = d.dm();
                    m.update_pc(reg(p));
                    m.commit_pc();
                    let top = m.cycles().saturating_add(g.below(500));
                    m.set_max_cycles(top);
                    let _ = r.steps(d, 1 + g.below(5) as i64);
                }
            }
        }
    }
}

use crate::gen::*;
use crate::load;
use serde_json::json;

const ANY: Mix = Mix { alu: 10, mul: 8, b: 12, amo: 8, ld: 8, st: 8, br: 12, jmp: 8, rvc: 20, misc: 6, sys: 4, wild: 4, ..MIX0 };

/// bytes that look like instructions to a varying degree
fn code_bytes(g: &mut Rng, x: u8, n: usize) -> Vec<u8> {
    let m = Mix { x, ..ANY };
    let mut b: Vec<u8> = vec![];
    let style = g.below(5);
    while b.len() < n {
        match style {
            0 => b.push(g.next() as u8),
            1 => b.extend((g.next() as u16).to_le_bytes()),
            2 | 3 => b.extend(mutate32(g, &m).to_le_bytes()),
            _ => {
                if g.chance(50) {
                    b.extend((g.next() as u16).to_le_bytes())
                } else {
                    b.extend(mutate32(g, &m).to_le_bytes())
                }
            }
        }
    }
    b.truncate(n);
    b
}

fn any_config(g: &mut Rng, id: String) -> Case {
    let v = g.below(3) as u32;
    let mut c = Case::new(id, if g.chance(30) { 32 } else { 64 }, v);
    c.sz = *g.pick(&[256, 256, 512]) * 1024;
    c.mop = g.chance(40);
    c.eb = !g.chance(20);
    c.ea = !g.chance(20);
    c.dbg = g.chance(50);
    c.cost = g.pick(&["one", "one", "est", "len", "big", "huge"]).to_string();
    c.sys = vec!["A".into()];
    c.max = W(match c.cost.as_str() {
        "big" => 1000003 * g.below(300) + g.below(9),
        "huge" => g.next(),
        _ => g.below(400),
    });
    c.progs = vec![Prog { a: W(0), n: W(4096), fl: 3, b: 1, len: 40, pc: W(0) }];
    engines(&mut c);
    c
}

pub fn junk_case(g: &mut Rng, id: String, index: u64) -> Case {
    match index % 5 {
        // code of arbitrary bytes, run from arbitrary places, again after errors
        0 | 1 => {
            let mut c = any_config(g, id);
            let sz = c.sz as u64;
            c.progs[0].b = 0;
            c.progs[0].len = 0;
            let mut places = vec![0, 1, 2, 16, sz / 4096 - 1, sz / 4096 - 2];
            for _ in 0..1 + g.below(3) {
                let p = places.remove(g.below(places.len() as u64) as usize);
                let n = 1 + g.below(600) as usize;
                let by = code_bytes(g, c.x, n);
                let b = c.blob(&by);
                let off = *g.pick(&[0, 0, 4096 - n as u64, 2, 1000]);
                c.push("init", json!({"a": W(p * 4096), "n": W(4096), "fl": *g.pick(&[2, 3, 3]), "b": b, "len": n, "off": W(off)}));
                let l = Lay { sz: c.sz, code: p * 4096, entry: p * 4096 + off, cpages: 1, data: 0x8000 };
                for _ in 0..1 + g.below(3) {
                    let r = regs(g, c.x, &l);
                    c.push("regs", json!({"val": r}));
                    let at = match g.below(6) {
                        0 => num(g, sz),
                        1 | 2 => l.entry + g.below(n as u64),
                        _ => l.entry + (g.below(n as u64) & !1),
                    };
                    let at = if c.x == 32 { at & 0xffff_ffff } else { at };
                    c.push("pc", json!({"val": W(at)}));
                    for _ in 0..1 + g.below(3) {
                        c.push("run", json!({"m": false}));
                    }
                    if g.chance(20) {
                        c.push("cyc", json!({"val": W(0)}));
                    }
                }
            }
            c.push("obs", json!({}));
            c
        }
        // anything a host may do, then a new machine behaves as ever
        2 | 3 => {
            let mut c = any_config(g, id);
            let sz = c.sz as u64;
            let f = load::program(g, c.x, c.v, sz).build();
            let b1 = c.blob(&f);
            let n = 100 + g.below(500) as usize;
            let by = code_bytes(g, c.x, n);
            let b2 = c.blob(&by);
            let w = load::wild(g, c.x, sz).build();
            let b3 = c.blob(&w);
            for (k, b, n) in [(1, b1, f.len()), (2, b2, by.len()), (3, b3, w.len())] {
                c.push("src", json!({"id": k, "b": b, "len": n}));
            }
            for _ in 0..1 + g.below(3) {
                match g.below(4) {
                    0 => {
                        c.push("load", json!({"b": b1, "len": f.len(), "how": "prog", "args": []}));
                    }
                    1 => {
                        c.push("init", json!({"a": W(0), "n": W(8192), "fl": 3, "b": b2, "len": by.len(), "off": W(0)}));
                    }
                    _ => (),
                }
                if g.chance(30) {
                    c.push("run", json!({"m": false}));
                }
                let mut e = json!({"seed": (g.next() & 0x7fff_ffff), "n": 1 + g.below(30)});
                if g.chance(30) {
                    e["only"] = json!(*g.pick(&[0, 4, 5, 6, 7, 14, 16]));
                }
                c.push("junk", e);
                c.push("renew", json!({"ctx": g.chance(30)}));
            }
            c.push("load", json!({"b": b1, "len": f.len(), "how": "prog", "args": []}));
            c.push("run", json!({}));
            load::chains(g, &mut c);
            c
        }
        // damaged programs run and loaded again
        _ => {
            let mut c = any_config(g, id);
            let sz = c.sz as u64;
            c.progs[0].b = 0;
            c.progs[0].len = 0;
            for _ in 0..1 + g.below(3) {
                let f = if g.chance(60) { load::program(g, c.x, c.v, sz) } else { load::wild(g, c.x, sz) };
                let mut b = f.build();
                if g.chance(70) {
                    load::damage(g, &mut b, c.x);
                }
                let bl = c.blob(&b);
                let a: Vec<Vec<u8>> = (0..g.below(3)).map(|_| { let n = g.below(50) as usize; code_bytes(g, 64, n) }).collect();
                c.push("load", json!({"b": bl, "len": b.len(), "how": *g.pick(&["prog", "meta", "elf"]), "args": a}));
                for _ in 0..1 + g.below(2) {
                    c.push("run", json!({"m": false}));
                }
            }
            c.push("obs", json!({}));
            c
        }
    }
}

/// engines on the memory that is initialised frame by frame
pub const LAZY: &[&str] = &["i-asm", "t-asm", "a-simple", "a-fixed", "a-dyn", "a-step"];

/// May the case run in chaos mode?  No single host operation may be the first
/// to touch two frames (see `reseed`).
fn chaos_ok(c: &Case) -> bool {
    let f = 256 * 1024u64;
    let span = |a: u64, n: u64| n > 0 && a < c.sz as u64 && a.checked_add(n - 1).map_or(true, |e| a / f != e / f);
    c.x == 64 && c.sz as u64 <= 2 * f && !c.progs.iter().any(|p| span(p.a.0, p.n.0)) && !c.script.iter().any(|e| match e["op"].as_str().unwrap() {
        "init" => span(gw(e, "a"), gw(e, "n")),
        "stb" => span(gw(e, "a"), gi(e, "len") as u64),
        "fill" | "ldb" | "ldd" => span(gw(e, "a"), gi(e, "n") as u64),
        "st" | "ld" | "xl" => span(gw(e, "a"), gi(e, "w") as u64),
        "load" => c.sz as u64 > f,
        _ => false,
    })
}
/// memory that is initialised lazily: in chaos mode, and in many frames
pub fn lazy_case(g: &mut Rng, id: String, index: u64) -> Case {
    let prop = *g.pick(&["C06", "C08", "C10", "C12", "C15", "C20", "C01", "C02", "C09"]);
    let mut c = generate(prop, g, id.clone(), if prop == "C06" { 5 * (g.0 >> 40) } else { g.0 >> 40 });
    if index % 4 != 3 {
        // until one that can
        while !chaos_ok(&c) {
            let prop = *g.pick(&["C06", "C08", "C10", "C12", "C15", "C20", "C01", "C02", "C09"]);
            c = generate(prop, g, id.clone(), if prop == "C06" { 5 * (g.0 >> 40) } else { g.0 >> 40 });
        }
        c.chaos = true;
        c.engines = LAZY.iter().filter(|e| c.engines.iter().any(|f| f == **e)).map(|s| s.to_string()).collect();
        // observing memory initialises it
        for e in c.script.iter_mut() {
            if (e["op"] == "run" || e["op"] == "step" || e["op"] == "obs") && !g.chance(15) {
                e.insert("m".into(), json!(false));
            }
        }
        c.push("obs", json!({}));
        return c;
    }
    frames_case(g, id)
}
/// guest and host accesses all over the frames, memory looked at only at the end
fn frames_case(g: &mut Rng, id: String) -> Case {
    let mut c = Case::new(id, if g.chance(10) { 32 } else { 64 }, g.below(3) as u32);
    c.sz = *g.pick(&[768, 1024, 2048, 4096]) * 1024;
    let (sz, f) = (c.sz as u64, 256 * 1024u64);
    let m = Mix { x: c.x, ld: 30, st: 20, amo: 15, rvc: 10, alu: 2, sys: 4, calls: &[2001, 2006, 2008, 2014], wild: 0, ..MIX0 };
    c.sys = vec!["A".into()];
    c.max = W(u64::MAX);
    let at0 = f * g.below(sz / f) + 0x8000;
    let (mut bytes, mut entries) = (vec![], vec![]);
    for _ in 0..8 {
        let mut items = vec![];
        let n = 1 + g.below(5) as usize;
        while items.len() < n {
            m.emit(g, &mut items);
        }
        m.li(17, 93, &mut items);
        items.push(It::Wd(0x73));
        let at = at0 + bytes.len() as u64;
        entries.push(at);
        bytes.extend(assemble(&items, at).0);
    }
    let b = c.blob(&bytes);
    let rounds = 1 + g.below(2);
    for k in 0..rounds {
        c.push("init", json!({"a": W(at0), "n": W(4096), "fl": 3, "b": b, "len": bytes.len(), "off": W(0)}));
        for e in &entries {
            let mut r: Vec<W> = (0..32).map(|_| W(g.val())).collect();
            r[0] = W(0);
            let mut at = |g: &mut Rng| {
                let fr = f * g.below(sz / f + 1);
                match g.below(4) {
                    0 => fr.wrapping_add(g.range(-9, 9) as u64),
                    1 => fr.wrapping_add(g.range(-2100, 2100) as u64),
                    _ => fr + g.below(f),
                }
            };
            for p in [2usize, 8, 9, 10, 11, 15] {
                r[p] = W(at(g) & if c.x == 32 { 0xffff_ffff } else { u64::MAX });
            }
            if c.x == 32 {
                for w in r.iter_mut() {
                    w.0 &= 0xffff_ffff;
                }
            }
            if g.chance(30) {
                let (a, n) = (at(g).min(sz), g.below(40));
                let op = *g.pick(&["fill", "ldb", "stb"]);
                let n = n.min(sz - a);
                let by: Vec<u8> = (0..n).map(|_| g.next() as u8).collect();
                match op {
                    "fill" => c.push("fill", json!({"a": W(a), "n": n, "val": g.below(256)})),
                    "ldb" => c.push("ldb", json!({"a": W(a), "n": n})),
                    _ => {
                        let b = c.blob(&by);
                        c.push("stb", json!({"a": W(a), "b": b, "len": n}))
                    }
                };
            }
            if g.chance(20) {
                // whole pages and frames (but for a few bytes)
                let near = |g: &mut Rng, x: u64| if g.chance(70) { x } else { x.wrapping_add(g.range(-9, 9) as u64) };
                let page = 4096 * g.below(sz / 4096);
                let a = *g.pick(&[page, page / f * f, page / f * f]);
                let n = *g.pick(&[1u64, 1, 2, 3, 8, 63, 64, 65, 66, 128, 130, 192]) * 4096;
                let op = *g.pick(&["init", "init", "fill", "ldd", "ldd", "stb"]);
                match op {
                    "init" => {
                        let by: Vec<u8> = (0..1 + g.below(40)).map(|_| g.next() as u8).collect();
                        let b = c.blob(&by);
                        let off = *g.pick(&[0, 0, 1, n - by.len() as u64, n / 2]);
                        let (a, n) = if a <= at0 && at0 < a + n { (a, (at0 - a) / 4096 * 4096) } else { (a, n) };
                        let off = off.min(n);
                        c.push("init", json!({"a": W(a), "n": W(n), "fl": 0, "b": b, "len": by.len(), "off": W(off)}))
                    }
                    "ldd" => c.push("ldd", json!({"a": W(near(g, a).min(sz) / 2 * 2), "n": near(g, n) / 2 * 2})),
                    _ => {
                        // (not over the code)
                        let (a, n) = (near(g, a).min(sz), near(g, n.min(3 * 4096)));
                        let n = if a < at0 + 4096 && at0 < a + n { 0 } else { n.min(sz - a) };
                        if op == "fill" {
                            c.push("fill", json!({"a": W(a), "n": n, "val": g.below(256)}))
                        } else {
                            let by = vec![g.next() as u8; n as usize];
                            let b = c.blob(&by);
                            c.push("stb", json!({"a": W(a), "b": b, "len": n}))
                        }
                    }
                };
            }
            c.push("regs", json!({"val": r}));
            c.push("pc", json!({"val": W(*e)}));
            c.push("run", json!({"m": false}));
        }
        if k + 1 < rounds {
            if g.chance(50) {
                c.push("obs", json!({}));
            }
            c.push("reset", json!({"max": W(u64::MAX)}));
        }
    }
    c.push("obs", json!({}));
    engines(&mut c);
    c
}
