//! Executes a case on a real engine and records what it answers.
use crate::case::*;
use crate::engine::*;
use bytes::Bytes;
use ckb_vm::instructions::Register;
use ckb_vm::machine::Pause;
use ckb_vm::elf::parse_elf;
use ckb_vm::snapshot::{make_snapshot, resume, Snapshot};
use ckb_vm::snapshot2::{DataSource, Snapshot2, Snapshot2Context};
use ckb_vm::{CoreMachine, Error, Memory, SupportMachine};
use std::collections::HashMap;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn err_kind(e: &Error) -> (String, Value) {
    match e {
        Error::Asm(x) => ("Asm".into(), json!(*x)),
        Error::CyclesExceeded => ("CyclesExceeded".into(), json!(0)),
        Error::CyclesOverflow => ("CyclesOverflow".into(), json!(0)),
        Error::ElfBits => ("ElfBits".into(), json!(0)),
        Error::ElfParseError(_) => ("ElfParseError".into(), json!(0)),
        Error::ElfSegmentUnreadable(_) => ("ElfSegmentUnreadable".into(), json!(0)),
        Error::ElfSegmentWritableAndExecutable(_) => {
            ("ElfSegmentWritableAndExecutable".into(), json!(0))
        }
        Error::ElfSegmentAddrOrSizeError(_) => ("ElfSegmentAddrOrSizeError".into(), json!(0)),
        Error::External(_) => ("External".into(), json!(0)),
        Error::InvalidEcall(n) => ("InvalidEcall".into(), wj(*n)),
        Error::InvalidInstruction { pc, instruction } => {
            let mut v = wj(*pc);
            v.as_array_mut().unwrap().push(json!(instruction & 0xffff));
            v.as_array_mut().unwrap().push(json!(instruction >> 16));
            ("InvalidInstruction".into(), v)
        }
        Error::InvalidOp(_) => ("InvalidOp".into(), json!(0)),
        Error::InvalidVersion => ("InvalidVersion".into(), json!(0)),
        Error::IO { .. } => ("IO".into(), json!(0)),
        Error::MemOutOfBound(..) => ("MemOutOfBound".into(), json!(0)),
        Error::MemOutOfStack => ("MemOutOfStack".into(), json!(0)),
        Error::MemPageUnalignedAccess(_) => ("MemPageUnalignedAccess".into(), json!(0)),
        Error::MemWriteOnExecutablePage(p) => {
            ("MemWriteOnExecutablePage".into(), json!(*p & 0x7fffffff))
        }
        Error::MemWriteOnFreezedPage(p) => ("MemWriteOnFreezedPage".into(), json!(*p & 0x7fffffff)),
        Error::Pause => ("Pause".into(), json!(0)),
        Error::SnapshotDataLoadError => ("SnapshotDataLoadError".into(), json!(0)),
        Error::Unexpected(_) => ("Unexpected".into(), json!(0)),
        Error::Yield => ("Yield".into(), json!(0)),
    }
}

fn eo(res: Result<(), Error>) -> Map<String, Value> {
    let (e, a) = match res {
        Ok(()) => (String::new(), json!(0)),
        Err(e) => err_kind(&e),
    };
    let mut m = Map::new();
    m.insert("e".into(), json!(e));
    m.insert("ea".into(), a);
    m
}
pub fn halfwords(b: &[u8]) -> Vec<u16> {
    b.chunks(2).map(|c| c[0] as u16 | (*c.get(1).unwrap_or(&0) as u16) << 8).collect()
}

/// The data source of incremental snapshots: byte strings by id.  Length 0
/// asks for everything behind the offset.
#[derive(Clone, Default)]
pub struct Source(pub Arc<Mutex<HashMap<u64, Bytes>>>);
impl DataSource<u64> for Source {
    fn load_data(&self, id: &u64, offset: u64, length: u64) -> Option<(Bytes, u64)> {
        self.0.lock().unwrap().get(id).map(|d| {
            let n = d.len() as u64;
            let o = offset.min(n);
            let full = n - o;
            let l = if length > 0 { length.min(full) } else { full };
            (d.slice(o as usize..(o + l) as usize), full)
        })
    }
}
pub enum Snap {
    One(Snapshot),
    Two(Snapshot2<u64>),
}

pub struct Runner<'a> {
    pub c: &'a Case,
    pub sh: Shared,
    pub step: bool,
    /// the last run did not end with a pause
    pub done: bool,
    pub limit: bool,
    pub mirror: Vec<u8>,
    pub out: Vec<Map<String, Value>>,
    pub held: Vec<(usize, Bytes)>,
    /// some engine of the case is not instruction-precise
    pub lenient: bool,
    /// the last load failed
    pub unloaded: bool,
    /// resuming failed: what this machine does no longer matters
    pub dead: bool,
    pub lost: bool,
    /// nothing was done yet with a renewed machine
    pub fresh: bool,
    /// the snapshots, with the mirror and the sources of that moment
    pub snaps: Vec<(Snap, Vec<u8>, HashMap<u64, Bytes>)>,
    pub src: Source,
    pub ctx: Snapshot2Context<u64, Source>,
}

/// memory nobody wrote to
fn blank(c: &Case, mirror: &mut [u8]) {
    if c.chaos {
        for f in mirror.chunks_mut(256 * 1024) {
            f.copy_from_slice(&chaos_frame()[..f.len()]);
        }
    } else {
        mirror.fill(0);
    }
}
fn mir_init(mirror: &mut [u8], a: u64, n: u64, d: &[u8], off: u64) {
    let (a, n, off) = (a as usize, n as usize, off as usize);
    if n == 0 {
        return;
    }
    for b in &mut mirror[a..a + n] {
        *b = 0;
    }
    let l = d.len().min(n - off);
    mirror[a + off..a + off + l].copy_from_slice(&d[..l]);
}

impl<'a> Runner<'a> {
    pub fn observe<I: SupportMachine + 'static>(&mut self, m: &mut I, o: &mut Map<String, Value>, mem: bool) {
        let regs: Vec<W> = m.registers().iter().map(|r| W(r.to_u64())).collect();
        o.insert("r".into(), serde_json::to_value(regs).unwrap());
        o.insert("pc".into(), wj(m.pc().to_u64()));
        o.insert("lr".into(), wj(m.memory().lr().to_u64()));
        o.insert("cyc".into(), wj(m.cycles()));
        o.insert("max".into(), wj(m.max_cycles()));
        // resets done by system calls since the last observation
        let rs: Vec<_> = self.sh.resets.lock().unwrap().drain(..).collect();
        if let Some((i, ok)) = rs.last() {
            blank(self.c, &mut self.mirror);
            if *ok {
                let p = &self.c.progs[*i];
                let d = self.c.blob_bytes(p.b, p.len);
                mir_init(&mut self.mirror, p.a.0, p.n.0, &d, 0);
            }
        }
        if mem {
            let mut fl = vec![];
            for p in 0..m.memory().memory_pages() as u64 {
                let f = m.memory_mut().fetch_flag(p).unwrap();
                if f != 0 {
                    fl.push(vec![p, f as u64]);
                }
            }
            o.insert("fl".into(), json!(fl));
            let sz = m.memory().memory_size() as u64;
            let now = if self.c.chaos {
                let mut all = vec![];
                for a in (0..sz).step_by(256 * 1024) {
                    reseed(self.c, m);
                    all.extend(m.memory_mut().load_bytes(a, 256 * 1024).unwrap());
                }
                Bytes::from(all)
            } else {
                m.memory_mut().load_bytes(0, sz).unwrap()
            };
            let mut d: Vec<Vec<u64>> = vec![];
            for i in (0..now.len()).step_by(8) {
                if now[i..i + 8] != self.mirror[i..i + 8] {
                    for k in (i..i + 8).step_by(2) {
                        if now[k..k + 2] != self.mirror[k..k + 2] {
                            d.push(vec![k as u64 / 2, now[k] as u64 | (now[k + 1] as u64) << 8]);
                        }
                    }
                }
            }
            // (no case writes that much that is not in the mirror)
            assert!(d.len() <= 100000, "memory nobody wrote differs in {} places, first {:?}", d.len(), d[0]);
            o.insert("d".into(), json!(d));
        }
    }

    pub fn op<D: Drive>(&mut self, d: &mut D, e: &Map<String, Value>) -> Map<String, Value> {
        let c = self.c;
        let op = e["op"].as_str().unwrap();
        reseed(c, d.dm().inner_mut());
        macro_rules! mem {
            () => {
                d.dm().memory_mut()
            };
        }
        match op {
            "init" => {
                let (a, n, off) = (gw(e, "a"), gw(e, "n"), gw(e, "off"));
                let (b, len) = (gi(e, "b") as usize, gi(e, "len") as usize);
                let data = c.blob_bytes(b, len);
                let src = if b == 0 { None } else { Some(Bytes::from(data.clone())) };
                let res = mem!().init_pages(a, n, gi(e, "fl") as u8, src, off);
                if res.is_ok() {
                    mir_init(&mut self.mirror, a, n, &data, off);
                }
                eo(res)
            }
            "stb" => {
                let data = c.blob_bytes(gi(e, "b") as usize, gi(e, "len") as usize);
                eo(mem!().store_bytes(gw(e, "a"), &data))
            }
            "fill" => eo(mem!().store_byte(gw(e, "a"), gi(e, "n") as u64, gi(e, "val") as u8)),
            "st" => {
                let a = <<D::Inner as CoreMachine>::REG as Register>::from_u64(gw(e, "a"));
                let v = <<D::Inner as CoreMachine>::REG as Register>::from_u64(gw(e, "val"));
                eo(match gi(e, "w") {
                    1 => mem!().store8(&a, &v),
                    2 => mem!().store16(&a, &v),
                    4 => mem!().store32(&a, &v),
                    _ => mem!().store64(&a, &v),
                })
            }
            "ld" => {
                let a = <<D::Inner as CoreMachine>::REG as Register>::from_u64(gw(e, "a"));
                let r = match gi(e, "w") {
                    1 => mem!().load8(&a),
                    2 => mem!().load16(&a),
                    4 => mem!().load32(&a),
                    _ => mem!().load64(&a),
                };
                let val = r.as_ref().map(|v| v.to_u64()).unwrap_or(0);
                self.unloaded = r.is_err();
                let mut o = eo(r.map(|_| ()));
                o.insert("val".into(), wj(val));
                o
            }
            "ldb" => {
                // the bytes are looked at when the script is over: what was
                // read must not change with the memory it came from
                let r = mem!().load_bytes(gw(e, "a"), gi(e, "n") as u64);
                if let Ok(b) = &r {
                    self.held.push((self.out.len(), b.clone()));
                }
                let mut o = eo(r.map(|_| ()));
                o.insert("hw".into(), json!([]));
                o
            }
            "ldd" => {
                // many bytes: where they differ from the mirror
                let (a, n) = (gw(e, "a") as usize, gi(e, "n") as usize);
                let r = mem!().load_bytes(a as u64, n as u64);
                let mut d: Vec<Vec<u64>> = vec![];
                if let Ok(b) = &r {
                    let old = self.mirror.get(a..a + n).unwrap_or(&[]);
                    for k in (0..old.len()).step_by(2) {
                        assert!(d.len() <= 100000, "memory nobody wrote differs, first {:?}", d[0]);
                        if b[k..k + 2] != old[k..k + 2] {
                            d.push(vec![(a + k) as u64 / 2, b[k] as u64 | (b[k + 1] as u64) << 8]);
                        }
                    }
                }
                let mut o = eo(r.map(|_| ()));
                o.insert("dd".into(), json!(d));
                o
            }
            "xl" => {
                let a = gw(e, "a");
                let r = if gi(e, "w") == 2 {
                    mem!().execute_load16(a).map(|v| v as u64)
                } else {
                    mem!().execute_load32(a).map(|v| v as u64)
                };
                let val = *r.as_ref().unwrap_or(&0);
                self.unloaded = r.is_err();
                let mut o = eo(r.map(|_| ()));
                o.insert("val".into(), wj(val));
                o
            }
            "sf" => eo(mem!().set_flag(gw(e, "p"), gi(e, "fl") as u8)),
            "cf" => eo(mem!().clear_flag(gw(e, "p"), gi(e, "fl") as u8)),
            "ff" => {
                let r = mem!().fetch_flag(gw(e, "p"));
                let f = *r.as_ref().unwrap_or(&0);
                let mut o = eo(r.map(|_| ()));
                o.insert("fl".into(), json!(f));
                o
            }
            "reg" => {
                let v = <<D::Inner as CoreMachine>::REG as Register>::from_u64(gw(e, "val"));
                d.dm().set_register(gi(e, "i") as usize, v);
                Map::new()
            }
            "regs" => {
                let vs: Vec<W> = serde_json::from_value(e["val"].clone()).unwrap();
                for (i, v) in vs.iter().enumerate() {
                    let v = <<D::Inner as CoreMachine>::REG as Register>::from_u64(v.0);
                    d.dm().set_register(i, v);
                }
                Map::new()
            }
            "pc" => {
                let v = <<D::Inner as CoreMachine>::REG as Register>::from_u64(gw(e, "val"));
                d.dm().update_pc(v);
                d.dm().commit_pc();
                Map::new()
            }
            "lr" => {
                let v = <<D::Inner as CoreMachine>::REG as Register>::from_u64(gw(e, "val"));
                mem!().set_lr(&v);
                Map::new()
            }
            "cyc" => {
                d.dm().set_cycles(gw(e, "val"));
                Map::new()
            }
            "max" => {
                d.dm().set_max_cycles(gw(e, "val"));
                Map::new()
            }
            "addc" => eo(d.dm().add_cycles(gw(e, "val"))),
            "addcn" => eo(d.dm().add_cycles_no_checking(gw(e, "val"))),
            "sig" => {
                self.sh.pause.interrupt();
                Map::new()
            }
            "reset" => {
                let r = d.dm().reset(gw(e, "max"));
                blank(c, &mut self.mirror);
                eo(r)
            }
            "load" => {
                let prog = Bytes::from(c.blob_bytes(gi(e, "b") as usize, gi(e, "len") as usize));
                let args: Vec<Vec<u8>> = serde_json::from_value(e["args"].clone()).unwrap();
                let args: Vec<Bytes> = args.into_iter().map(Bytes::from).collect();
                let before = self.sh.inits.load(Ordering::SeqCst);
                let r = match e["how"].as_str().unwrap() {
                    "prog" => d.load(&prog, &args),
                    "meta" => d.load_meta(&prog, &args),
                    "elf" => d.dm().load_elf(&prog, true),
                    _ => d.dm().load_elf(&prog, false),
                };
                let val = *r.as_ref().unwrap_or(&0);
                self.unloaded = r.is_err();
                let mut o = eo(r.map(|_| ()));
                o.insert("val".into(), wj(val));
                o.insert("inits".into(), json!(self.sh.inits.load(Ordering::SeqCst) - before));
                self.observe(d.dm().inner_mut(), &mut o, true);
                o
            }
            // ---- snapshots ----
            "src" => {
                let (id, b, len) = (gi(e, "id") as u64, gi(e, "b") as usize, gi(e, "len") as usize);
                let mut h = self.src.0.lock().unwrap();
                if b == 0 {
                    h.remove(&id);
                } else {
                    h.insert(id, Bytes::from(c.blob_bytes(b, len)));
                }
                Map::new()
            }
            "sstore" => {
                let r = self.ctx.store_bytes(
                    d.dm().inner_mut(), gw(e, "a"), &(gi(e, "id") as u64), gw(e, "off"), gw(e, "n"), gw(e, "sa"));
                let (val, full) = *r.as_ref().unwrap_or(&(0, 0));
                if r.is_ok() && val > 0 {
                    // whole halfwords only
                    let (a, off) = (gw(e, "a") as usize, gw(e, "off") as usize);
                    let (from, to) = ((a + 1) & !1, (a + val as usize) & !1);
                    let h = self.src.0.lock().unwrap();
                    let data = &h[&(gi(e, "id") as u64)];
                    if from < to {
                        self.mirror[from..to].copy_from_slice(&data[off + from - a..off + to - a]);
                    }
                }
                let mut o = eo(r.map(|_| ()));
                o.insert("val".into(), json!(val));
                o.insert("full".into(), json!(full));
                self.observe(d.dm().inner_mut(), &mut o, true);
                o
            }
            "untrack" => {
                let r = self.ctx.untrack_pages(d.dm().inner_mut(), gw(e, "a"), gw(e, "n"));
                let mut o = eo(r);
                self.observe(d.dm().inner_mut(), &mut o, true);
                o
            }
            "mark" if self.unloaded => {
                let mut o = Map::new();
                o.insert("k".into(), json!("skip"));
                o
            }
            "mark" => {
                let prog = Bytes::from(c.blob_bytes(gi(e, "b") as usize, gi(e, "len") as usize));
                let v = d.dm().version();
                let r = parse_elf::<<D::Inner as CoreMachine>::REG>(&prog, v).and_then(|meta| {
                    self.ctx.mark_program(d.dm().inner_mut(), &meta, &(gi(e, "id") as u64), gi(e, "off") as u64)
                });
                let mut o = eo(r);
                self.observe(d.dm().inner_mut(), &mut o, true);
                o
            }
            "snap" => {
                let r = make_snapshot(d.dm().inner_mut());
                let mut dp = vec![];
                if let Ok(s) = &r {
                    for (p, f) in s.page_indices.iter().zip(&s.page_flags) {
                        dp.push((*p, *f));
                    }
                }
                let mut o = match r {
                    Ok(s) => {
                        let src = self.src.0.lock().unwrap().clone();
                        self.snaps.push((Snap::One(s), self.mirror.clone(), src));
                        eo(Ok(()))
                    }
                    Err(e) => eo(Err(e)),
                };
                o.insert("dp".into(), json!(dp));
                self.observe(d.dm().inner_mut(), &mut o, true);
                o
            }
            "snap2" => {
                let r = self.ctx.make_snapshot(d.dm().inner_mut());
                let (mut dp, mut sp) = (vec![], vec![]);
                if let Ok(s) = &r {
                    for (a, f, data) in &s.dirty_pages {
                        for k in 0..data.len() as u64 / 4096 {
                            dp.push((a / 4096 + k, *f));
                        }
                    }
                    for (a, f, id, off, len) in &s.pages_from_source {
                        for k in 0..len / 4096 {
                            sp.push((a / 4096 + k, *id, off + 4096 * k, *f));
                        }
                    }
                }
                let mut o = match r {
                    Ok(s) => {
                        let src = self.src.0.lock().unwrap().clone();
                        self.snaps.push((Snap::Two(s), self.mirror.clone(), src));
                        eo(Ok(()))
                    }
                    Err(e) => eo(Err(e)),
                };
                o.insert("dp".into(), json!(dp));
                o.insert("sp".into(), json!(sp));
                self.observe(d.dm().inner_mut(), &mut o, true);
                o
            }
            "resume" => {
                let bad = e["bad"].as_str().unwrap();
                let (snap, mirror, src) = &self.snaps[gi(e, "k") as usize - 1];
                let r = match snap {
                    Snap::One(s) => {
                        let mut t = Snapshot {
                            version: s.version,
                            registers: s.registers,
                            pc: s.pc,
                            page_indices: s.page_indices.clone(),
                            page_flags: s.page_flags.clone(),
                            pages: s.pages.clone(),
                            load_reservation_address: s.load_reservation_address,
                        };
                        match bad {
                            "" => (),
                            "flags" if !t.pages.is_empty() => {
                                t.page_flags.pop();
                            }
                            "pages" if !t.pages.is_empty() => {
                                t.pages.pop();
                            }
                            "addr" if !t.pages.is_empty() => t.page_indices[0] = c.sz as u64 / 4096,
                            _ => t.version += 1,
                        }
                        resume(d.dm().inner_mut(), &t)
                    }
                    Snap::Two(s) => {
                        let mut t = s.clone();
                        match bad {
                            "" => (),
                            "addr" if !t.dirty_pages.is_empty() => t.dirty_pages[0].0 += 8,
                            "pages" if !t.dirty_pages.is_empty() => {
                                t.dirty_pages[0].2.truncate(4088);
                            }
                            "flags" if !t.pages_from_source.is_empty() => t.pages_from_source[0].0 += 2048,
                            "id" if !t.pages_from_source.is_empty() => t.pages_from_source[0].2 = 99,
                            "off" if !t.pages_from_source.is_empty() => t.pages_from_source[0].3 = 1 << 40,
                            "end" if !t.dirty_pages.is_empty() => t.dirty_pages[0].0 = c.sz as u64,
                            _ => t.version += 1,
                        }
                        self.ctx.resume(d.dm().inner_mut(), &t)
                    }
                };
                self.dead = r.is_err();
                let same = matches!(snap, Snap::One(_)) || *src == *self.src.0.lock().unwrap();
                if self.fresh && r.is_ok() && same {
                    self.mirror.copy_from_slice(mirror);
                }
                let mut o = eo(r);
                self.observe(d.dm().inner_mut(), &mut o, true);
                o
            }
            "run" | "step" => {
                let want = e.get("m").and_then(|v| v.as_bool()).unwrap_or(true);
                // "go": also on from a limit
                if e.contains_key("cont") && self.done || e.contains_key("go") && self.done && !self.limit {
                    let mut o = Map::new();
                    o.insert("k".into(), json!("skip"));
                    return o;
                }
                let limit = if op == "step" { gi(e, "n") } else { i64::MAX };
                let r = if self.step {
                    self.steps(d, limit)
                } else {
                    self.run(d, e)
                };
                let mut o = Map::new();
                let (k, a) = match r {
                    Ok(Some(code)) => ("exit".to_string(), json!(code)),
                    Ok(None) => (String::new(), json!(0)),
                    Err(e) => err_kind(&e),
                };
                self.done = k != "Pause";
                self.limit = k == "CyclesExceeded";
                // where the class of the case leaves open when an error is noticed,
                // the memory is always recorded
                let want = want || (!k.is_empty() && k != "exit" && self.lenient);
                o.insert("k".into(), json!(k));
                o.insert("a".into(), a);
                self.observe(d.dm().inner_mut(), &mut o, want);
                o
            }
            "each" => {
                let pcs: Vec<W> = serde_json::from_value(e["pcs"].clone()).unwrap();
                let vs: Vec<W> = serde_json::from_value(e["val"].clone()).unwrap();
                let mut out = vec![];
                for p in pcs {
                    for (i, v) in vs.iter().enumerate() {
                        let v = <<D::Inner as CoreMachine>::REG as Register>::from_u64(v.0);
                        d.dm().set_register(i, v);
                    }
                    let v = <<D::Inner as CoreMachine>::REG as Register>::from_u64(p.0);
                    d.dm().update_pc(v);
                    d.dm().commit_pc();
                    // keep a single step from running away
                    let max = d.dm().max_cycles();
                    if self.c.cost == "one" {
                        let top = d.dm().cycles().saturating_add(8).min(max);
                        d.dm().inner_mut().set_max_cycles(top);
                    }
                    let (k, a) = match self.steps(d, 1) {
                        Ok(Some(code)) => ("exit".to_string(), json!(code)),
                        Ok(None) => (String::new(), json!(0)),
                        Err(e) => err_kind(&e),
                    };
                    d.dm().inner_mut().set_max_cycles(max);
                    let mut x: Vec<serde_json::Value> = vec![];
                    for (i, r) in d.dm().registers().iter().enumerate() {
                        if r.to_u64() != vs[i].0 {
                            x.push(json!([i, W(r.to_u64())]));
                        }
                    }
                    out.push(json!({"k": k, "a": a, "pc": W(d.dm().pc().to_u64()), "x": x}));
                }
                let mut o = Map::new();
                o.insert("s".into(), json!(out));
                o
            }
            "obs" => {
                let want = e.get("m").and_then(|v| v.as_bool()).unwrap_or(true);
                let mut o = Map::new();
                self.observe(d.dm().inner_mut(), &mut o, want);
                o
            }
            "junk" => {
                // answers are left open, and the machine is not looked at afterwards
                self.dead = true;
                crate::junk::junk(self, d, e);
                self.sh.pause.free();
                self.sh.nresets.store(0, Ordering::SeqCst);
                self.sh.resets.lock().unwrap().clear();
                let mut o = Map::new();
                o.insert("k".into(), json!("skip"));
                o
            }
            _ => panic!("op {}", op),
        }
    }

    /// drive by single steps, with the same checks the run loop makes
    pub fn steps<D: Drive>(&mut self, d: &mut D, limit: i64) -> Result<Option<i8>, Error> {
        if self.c.mop && self.c.v == 0 && limit == i64::MAX {
            return Err(Error::InvalidVersion);
        }
        d.dm().set_running(true);
        let mut n = 0;
        while d.dm().running() {
            if n >= limit {
                return Ok(None);
            }
            if limit == i64::MAX && self.sh.pause.has_interrupted() {
                self.sh.pause.free();
                return Err(Error::Pause);
            }
            d.step()?;
            n += 1;
        }
        Ok(Some(d.dm().exit_code()))
    }
    fn run<D: Drive>(&mut self, d: &mut D, e: &Map<String, Value>) -> Result<Option<i8>, Error> {
        if let Some(us) = e.get("async").and_then(|v| v.as_u64()) {
            // raise the pause signal from another thread after a delay
            let p = self.sh.pause.clone();
            let go = Arc::new(AtomicBool::new(false));
            let g2 = go.clone();
            let t = std::thread::spawn(move || {
                while !g2.load(Ordering::Acquire) {
                    std::hint::spin_loop();
                }
                for _ in 0..us {
                    std::hint::spin_loop();
                }
                p.interrupt();
            });
            go.store(true, Ordering::Release);
            let r = d.run();
            t.join().unwrap();
            // a signal that came too late is withdrawn
            self.sh.pause.free();
            return r.map(Some);
        }
        d.run().map(Some)
    }
}

struct Script<'a, 'b> {
    r: &'b mut Runner<'a>,
}
impl<'a, 'b> Visitor for Script<'a, 'b> {
    type Out = ();
    /// executes the script up to the next change of machine
    fn go<D: Drive>(self, mut d: D) {
        let r = self.r;
        while r.out.len() < r.c.script.len() {
            let e = &r.c.script[r.out.len()];
            if e["op"] == "renew" {
                blank(r.c, &mut r.mirror);
                r.fresh = true;
                r.dead = false;
                if e["ctx"] == false {
                    r.ctx = Snapshot2Context::new(r.src.clone());
                }
                r.out.push(Map::new());
                return;
            }
            // (nor what is done with a snapshot of it)
            r.lost |= r.dead && (e["op"] == "snap" || e["op"] == "snap2");
            let dead = r.dead || r.lost;
            let mut o = r.op(&mut d, e);
            if dead && e["op"] != "src" {
                o = Map::new();
                o.insert("k".into(), json!("skip"));
            }
            r.out.push(o);
            r.fresh &= e["op"] == "src";
        }
    }
}

pub fn shared(c: &Case) -> Shared {
    Shared {
        case: Arc::new(c.clone()),
        pause: Pause::new(),
        resets: Arc::new(Mutex::new(vec![])),
        nresets: Arc::new(AtomicUsize::new(0)),
        inits: Arc::new(AtomicUsize::new(0)),
    }
}

/// the answers of one engine, or the panic message
pub fn execute(c: &Case, eng: &str) -> Result<Vec<Map<String, Value>>, String> {
    let sh = shared(c);
    let names: Vec<&str> = eng.split('>').collect();
    let src = Source::default();
    let mut r = Runner {
        c,
        sh: sh.clone(),
        step: false,
        done: false,
        limit: false,
        mirror: vec![0; c.sz],
        out: vec![],
        held: vec![],
        fresh: false,
        lenient: names.iter().any(|n| crate::engine::class_of(n) != "i"),
        unloaded: false,
        dead: false,
        lost: false,
        snaps: vec![],
        ctx: Snapshot2Context::new(src.clone()),
        src,
    };
    blank(c, &mut r.mirror);
    CATCHING.with(|c| c.set(true));
    let res = catch_unwind(AssertUnwindSafe(|| {
        // a renewed machine is of the next engine named
        let mut k = 0;
        loop {
            let name = names[k % names.len()];
            r.step = is_step_engine(name);
            with_engine(name, c, &sh, Script { r: &mut r });
            k += 1;
            if r.out.len() == c.script.len() {
                break;
            }
        }
        for (i, b) in std::mem::take(&mut r.held) {
            r.out[i].insert("hw".into(), json!(halfwords(&b)));
        }
        r.out
    }));
    CATCHING.with(|c| c.set(false));
    res.map_err(|_| crate::LAST_PANIC.lock().unwrap().clone())
}
thread_local! {
    /// a panic now is the code under test's
    pub static CATCHING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// one recorded case per distinct outcome
pub struct Recorded {
    pub groups: Vec<Case>,
    pub panics: Vec<(String, String)>,
}
pub fn record(c: &Case) -> Recorded {
    let mut groups: Vec<(Vec<Map<String, Value>>, Vec<String>)> = vec![];
    let mut panics = vec![];
    for e in &c.engines {
        match execute(c, e) {
            Err(p) => panics.push((e.clone(), p)),
            Ok(o) => {
                if let Some(g) = groups.iter_mut().find(|g| g.0 == o) {
                    g.1.push(e.clone());
                } else {
                    groups.push((o, vec![e.clone()]));
                }
            }
        }
    }
    let mut out = vec![];
    for (i, (o, es)) in groups.into_iter().enumerate() {
        let mut k = c.clone();
        k.g = i;
        k.cls = if es.iter().any(|e| e.split('>').all(|e| class_of(e) == "i")) { "i" } else { "t" }.into();
        k.eng = es.join(",");
        k.engines = vec![];
        for (s, o) in k.script.iter_mut().zip(o) {
            s.insert("o".into(), Value::Object(o));
        }
        out.push(k);
    }
    Recorded { groups: out, panics }
}
