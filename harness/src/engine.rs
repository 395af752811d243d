//! The real machines behind one interface.
use crate::case::*;
use bytes::Bytes;
use ckb_vm::cost_model::estimate_cycles;
use ckb_vm::elf::parse_elf;
use ckb_vm::decoder::{build_decoder, InstDecoder};
use ckb_vm::instructions::{extract_opcode, instruction_length, insts, Instruction, Register};
use ckb_vm::machine::asm::traces::{MemoizedDynamicTraceDecoder, MemoizedFixedTraceDecoder};
use ckb_vm::machine::asm::{AsmCoreMachine, AsmMachine};
use ckb_vm::machine::Pause;
use ckb_vm::memory::{flat::FlatMemory, sparse::SparseMemory, wxorx::WXorXMemory};
use ckb_vm::registers::*;
use ckb_vm::{
    CoreMachine, Debugger, DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, Error,
    Memory, SupportMachine, Syscalls, TraceMachine, ISA_A, ISA_B, ISA_IMC, ISA_MOP,
};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn cost_fn(name: &str) -> Box<dyn Fn(Instruction) -> u64 + Send + Sync> {
    match name {
        "one" => Box::new(|_| 1),
        "est" => Box::new(estimate_cycles),
        "len" => Box::new(|i| instruction_length(i) as u64),
        "big" => Box::new(|_| 1000003),
        "huge" => Box::new(|_| 1 << 62),
        _ => Box::new(|_| 0),
    }
}

/// what the system-call handlers share with the script runner
#[derive(Clone)]
pub struct Shared {
    pub case: Arc<Case>,
    pub pause: Pause,
    /// (program index, succeeded) of every reset done by a system call
    pub resets: Arc<Mutex<Vec<(usize, bool)>>>,
    /// resets requested by system calls so far
    pub nresets: Arc<AtomicUsize>,
    pub inits: Arc<AtomicUsize>,
}

pub struct Handler {
    pub kind: char,
    pub sh: Shared,
}

fn r<M: SupportMachine>(m: &M, i: usize) -> u64 {
    m.registers()[i].to_u64()
}
fn set<M: SupportMachine>(m: &mut M, i: usize, v: u64) {
    m.set_register(i, M::REG::from_u64(v));
}

impl<M: SupportMachine + 'static> Syscalls<M> for Handler {
    fn initialize(&mut self, _m: &mut M) -> Result<(), Error> {
        self.sh.inits.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
    fn ecall(&mut self, m: &mut M) -> Result<bool, Error> {
        let num = r(m, A7);
        let (a0, a1, a2) = (r(m, A0), r(m, A1), r(m, A2));
        match self.kind {
            'D' => {
                let v = r(m, T6).wrapping_add(1);
                set(m, T6, v);
                return Ok(false);
            }
            'B' => {
                if num == 2100 || num == 2101 {
                    set(m, A0, num + 1);
                    return Ok(true);
                }
                return Ok(false);
            }
            'C' => {
                if num == 2100 || num == 2102 {
                    set(m, A0, num + 2);
                    return Ok(true);
                }
                return Ok(false);
            }
            _ => (),
        }
        match num {
            2000 => set(m, A0, a0.wrapping_add(a1)),
            2001 => {
                let (a, v) = (M::REG::from_u64(a0), M::REG::from_u64(a1));
                if M::REG::BITS == 64 {
                    m.memory_mut().store64(&a, &v)?
                } else {
                    m.memory_mut().store32(&a, &v)?
                }
            }
            2002 => m.add_cycles(a0)?,
            2003 => return Err(Error::External("x".into())),
            2004 => self.sh.pause.interrupt(),
            2005 => {
                if self.sh.nresets.fetch_add(1, Ordering::SeqCst) >= 6 {
                    return Ok(false);
                }
                let c = self.sh.case.clone();
                let i = (a1 & 0xffff) as usize % c.progs.len();
                let p = &c.progs[i];
                m.reset(a0 & 0x3ff)?;
                reseed(&c, m);
                let d = c.blob_bytes(p.b, p.len);
                let r = m.memory_mut().init_pages(p.a.0, p.n.0, p.fl, Some(Bytes::from(d)), 0);
                self.sh.resets.lock().unwrap().push((i, r.is_ok()));
                reseed(&c, m);
                r?;
                m.update_pc(M::REG::from_u64(p.pc.0));
                m.commit_pc();
            }
            2006 => {
                let v = m.memory_mut().load8(&M::REG::from_u64(a0))?;
                m.set_register(A0, v);
            }
            2007 => m.add_cycles_no_checking(a0)?,
            2008 => {
                let n = (a1 & 0xffff) % 64;
                let d: Vec<u8> = (0..n).map(|j| (7 * j + 1) as u8).collect();
                m.memory_mut().store_bytes(a0, &d)?
            }
            2009 => return Err(Error::Yield),
            2010 => m.set_max_cycles(a0 & 0x3fff),
            2011 => m.memory_mut().set_flag(a0, a1 as u8)?,
            2012 => m.memory_mut().clear_flag(a0, a1 as u8)?,
            2014 => {
                let n = (a2 & 0xffff) % 64;
                let d = if n == 0 { Bytes::new() } else { m.memory_mut().load_bytes(a1, n)? };
                m.memory_mut().store_bytes(a0, &d)?
            }
            _ => return Ok(false),
        }
        Ok(true)
    }
}

pub struct Dbg {
    pub inits: Arc<AtomicUsize>,
}
impl<M: SupportMachine> Debugger<M> for Dbg {
    fn initialize(&mut self, _m: &mut M) -> Result<(), Error> {
        self.inits.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
    fn ebreak(&mut self, m: &mut M) -> Result<(), Error> {
        if r(m, T5) == 99 {
            return Err(Error::External("dbg".into()));
        }
        let v = r(m, T5).wrapping_add(1);
        set(m, T5, v);
        Ok(())
    }
}

pub const CHAOS_SEED: u32 = 12345;
/// In chaos mode what uninitialised memory holds depends on how much of it was
/// initialised before.  With the seed put back every frame holds the same.
pub fn reseed<M: SupportMachine + 'static>(c: &Case, m: &mut M) {
    if c.chaos {
        if let Some(a) = (m as &mut dyn std::any::Any).downcast_mut::<Box<AsmCoreMachine>>() {
            a.chaos_seed = CHAOS_SEED;
        }
    }
}
/// what an uninitialised frame holds in chaos mode
pub fn chaos_frame() -> &'static [u8] {
    static F: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut c = Case::new(String::new(), 64, 2);
        c.chaos = true;
        let mut m = asm(&c);
        let n = m.memory_size() as u64;
        m.load_bytes(0, n).unwrap().to_vec()
    })
}

/// how a machine is driven
pub trait Drive {
    type Inner: SupportMachine + 'static;
    fn dm(&mut self) -> &mut DefaultMachine<Self::Inner>;
    fn run(&mut self) -> Result<i8, Error>;
    fn step(&mut self) -> Result<(), Error>;
    fn load(&mut self, prog: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        self.dm().load_program(prog, args)
    }
    fn load_meta(&mut self, prog: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        let v = self.dm().version();
        let meta = parse_elf::<<Self::Inner as CoreMachine>::REG>(prog, v)?;
        self.dm().load_program_with_metadata(prog, &meta, args)
    }
}

pub struct Interp<I: SupportMachine + 'static, D: InstDecoder> {
    pub m: DefaultMachine<I>,
    pub d: D,
    /// keep the decoder between runs
    pub keep: bool,
}
impl<I: SupportMachine + 'static, D: InstDecoder> Drive for Interp<I, D> {
    type Inner = I;
    fn dm(&mut self) -> &mut DefaultMachine<I> {
        &mut self.m
    }
    fn run(&mut self) -> Result<i8, Error> {
        if self.keep {
            self.m.run_with_decoder(&mut self.d)
        } else {
            self.m.run()
        }
    }
    fn step(&mut self) -> Result<(), Error> {
        if self.m.reset_signal() {
            self.d.reset_instructions_cache()?;
        }
        self.m.step(&mut self.d)
    }
}
pub struct Traced<I: SupportMachine> {
    pub m: TraceMachine<I>,
}
impl<I: SupportMachine + 'static> Drive for Traced<I> {
    type Inner = I;
    fn dm(&mut self) -> &mut DefaultMachine<I> {
        &mut self.m.machine
    }
    fn run(&mut self) -> Result<i8, Error> {
        self.m.run()
    }
    fn step(&mut self) -> Result<(), Error> {
        unreachable!()
    }
    fn load(&mut self, prog: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(prog, args)
    }
    fn load_meta(&mut self, prog: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        let meta = parse_elf::<I::REG>(prog, self.m.version())?;
        self.m.load_program_with_metadata(prog, &meta, args)
    }
}
pub enum AsmDec<D: InstDecoder> {
    Simple,
    Fixed(MemoizedFixedTraceDecoder<D>),
    Dyn(MemoizedDynamicTraceDecoder<D>),
}
pub struct Asm<D: InstDecoder, E: InstDecoder> {
    pub m: AsmMachine,
    pub d: AsmDec<D>,
    pub e: E,
}
impl<D: InstDecoder, E: InstDecoder> Drive for Asm<D, E> {
    type Inner = Box<AsmCoreMachine>;
    fn dm(&mut self) -> &mut DefaultMachine<Self::Inner> {
        &mut self.m.machine
    }
    fn run(&mut self) -> Result<i8, Error> {
        match &mut self.d {
            AsmDec::Simple => self.m.run(),
            AsmDec::Fixed(d) => self.m.run_with_decoder(d),
            AsmDec::Dyn(d) => self.m.run_with_decoder(d),
        }
    }
    fn step(&mut self) -> Result<(), Error> {
        if self.m.machine.reset_signal() {
            self.e.reset_instructions_cache()?;
        }
        self.m.step(&mut self.e)
    }
    fn load(&mut self, prog: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        self.m.load_program(prog, args)
    }
    fn load_meta(&mut self, prog: &Bytes, args: &[Bytes]) -> Result<u64, Error> {
        let meta = parse_elf::<u64>(prog, self.m.machine.version())?;
        self.m.load_program_with_metadata(prog, &meta, args)
    }
}

pub fn isa(c: &Case) -> u8 {
    let mut i = ISA_IMC;
    if c.eb {
        i |= ISA_B;
    }
    if c.ea {
        i |= ISA_A;
    }
    if c.mop {
        i |= ISA_MOP;
    }
    i
}

pub fn finish<I: SupportMachine + 'static>(c: &Case, core: I, sh: &Shared) -> DefaultMachine<I> {
    let mut b = DefaultMachineBuilder::new(core)
        .instruction_cycle_func(cost_fn(&c.cost))
        .pause(sh.pause.clone());
    for s in &c.sys {
        b = b.syscall(Box::new(Handler { kind: s.chars().next().unwrap(), sh: sh.clone() }));
    }
    if c.dbg {
        b = b.debugger(Box::new(Dbg { inits: sh.inits.clone() }));
    }
    b.build()
}

pub fn core<R: Register, M: Memory<REG = R>>(
    c: &Case,
    mem: M,
) -> DefaultCoreMachine<R, WXorXMemory<M>> {
    DefaultCoreMachine::new_with_memory(isa(c), c.v, c.max.0, WXorXMemory::new(mem))
}
pub fn flat<R: Register>(c: &Case) -> DefaultCoreMachine<R, WXorXMemory<FlatMemory<R>>> {
    core(c, FlatMemory::new_with_memory(c.sz))
}
pub fn sparse<R: Register>(c: &Case) -> DefaultCoreMachine<R, WXorXMemory<SparseMemory<R>>> {
    core(c, SparseMemory::new_with_memory(c.sz))
}
pub fn asm(c: &Case) -> Box<AsmCoreMachine> {
    let mut m = AsmCoreMachine::new_with_memory(isa(c), c.v, c.max.0, c.sz);
    if c.chaos {
        m.chaos_mode = 1;
        m.chaos_seed = CHAOS_SEED;
    }
    m
}

pub trait Visitor {
    type Out;
    fn go<D: Drive>(self, d: D) -> Self::Out;
}

/// builds the named engine and hands it to the visitor
pub fn with_engine<V: Visitor>(name: &str, c: &Case, sh: &Shared, vis: V) -> V::Out {
    let (i, v) = (isa(c), c.v);
    macro_rules! interp {
        ($core:expr, $r:ty, $keep:expr) => {
            vis.go(Interp { m: finish(c, $core, sh), d: build_decoder::<$r>(i, v), keep: $keep })
        };
    }
    if c.x == 32 {
        return match name {
            "i-flat" => interp!(flat::<u32>(c), u32, false),
            "i-sparse" | "i-step" => interp!(sparse::<u32>(c), u32, true),
            "t-flat" => vis.go(Traced { m: TraceMachine::new(finish(c, flat::<u32>(c), sh)) }),
            "t-sparse" => vis.go(Traced { m: TraceMachine::new(finish(c, sparse::<u32>(c), sh)) }),
            _ => panic!("engine {}", name),
        };
    }
    match name {
        "i-flat" => interp!(flat::<u64>(c), u64, false),
        "i-sparse" | "i-step" => interp!(sparse::<u64>(c), u64, true),
        "i-asm" => interp!(asm(c), u64, true),
        "t-flat" => vis.go(Traced { m: TraceMachine::new(finish(c, flat::<u64>(c), sh)) }),
        "t-sparse" => vis.go(Traced { m: TraceMachine::new(finish(c, sparse::<u64>(c), sh)) }),
        "t-asm" => vis.go(Traced { m: TraceMachine::new(finish(c, asm(c), sh)) }),
        "a-simple" | "a-fixed" | "a-dyn" | "a-step" => {
            let m = AsmMachine::new(finish(c, asm(c), sh));
            let dec = build_decoder::<u64>(i, v);
            let d = match name {
                "a-fixed" => AsmDec::Fixed(MemoizedFixedTraceDecoder::new(dec)),
                "a-dyn" => AsmDec::Dyn(MemoizedDynamicTraceDecoder::new(dec)),
                _ => AsmDec::Simple,
            };
            vis.go(Asm { m, d, e: build_decoder::<u64>(i, v) })
        }
        _ => panic!("engine {}", name),
    }
}

pub fn is_step_engine(name: &str) -> bool {
    name.ends_with("-step")
}
pub fn class_of(name: &str) -> &'static str {
    if name.starts_with("i-") || name == "a-step" {
        "i"
    } else {
        "t"
    }
}

#[allow(dead_code)]
pub fn opname(i: Instruction) -> &'static str {
    insts::instruction_opcode_name(extract_opcode(i))
}
