//! A recorded machine: every step with the state before and after it, in the form of
//! spec/StepTrace.tla.  Also the generators of machine states and programs.
use crate::grid;
use crate::isa::reg;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::sync::{Arc, Mutex, RwLock};

pub const SSP_PORT: u16 = 0xFFF0;
pub const PSR_PORT: u16 = 0xFFFC;

// ---------------------------------------------------------------- recording devices
#[derive(Clone, Copy, Debug)]
pub enum Ask { None, Vect(u8, u8), Ext }
#[derive(Default)]
pub struct Ctl {
    pub log: Vec<V>,
    pub ask: HashMap<&'static str, Ask>,
    pub answers: VecDeque<Option<u16>>,
    pub accept: bool,
    pub resets: usize,
}
pub type CtlRef = Arc<Mutex<Ctl>>;
#[derive(Clone)]
pub struct Recorder { pub name: &'static str, pub ctl: CtlRef }
impl ExternalDevice for Recorder {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        let mut c = self.ctl.lock().unwrap();
        let v = c.answers.pop_front().flatten();
        c.log.push(arr![if effectful { "r" } else { "q" }, self.name, addr, v.map_or(-1, i64::from)]);
        v
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        let mut c = self.ctl.lock().unwrap();
        let a = c.accept;
        c.log.push(arr!["w", self.name, addr, data, a]);
        a
    }
    fn io_reset(&mut self) { self.ctl.lock().unwrap().resets += 1; }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let mut c = self.ctl.lock().unwrap();
        let a = c.ask.get(self.name).copied().unwrap_or(Ask::None);
        match a {
            Ask::None => { c.log.push(arr!["p", self.name, "none", 0, 0]); None }
            Ask::Vect(v, p) => { c.log.push(arr!["p", self.name, "v", v, p]); Some(Interrupt::vectored(v, p)) }
            Ask::Ext => { c.log.push(arr!["p", self.name, "x", 0, 0]); Some(Interrupt::external(std::fmt::Error)) }
        }
    }
}

// ---------------------------------------------------------------- the machine
pub fn err_name(e: &SimErr) -> String {
    let s = format!("{e:?}");
    s.split(['(', ' ', '{']).next().unwrap().to_string()
}
pub fn res_name(r: &Result<Result<(), SimErr>, String>) -> String {
    match r { Ok(Ok(())) => "ok".into(), Ok(Err(e)) => err_name(e), Err(_) => "panic".into() }
}
pub struct M {
    pub sim: Simulator,
    pub kb: Arc<RwLock<VecDeque<u8>>>,
    pub ds: Arc<RwLock<Vec<u8>>>,
    pub ctl: CtlRef,
    pub ireg: Vec<(u16, &'static str)>,
    pub own: Vec<(u16, &'static str)>,
    pub devs: Vec<&'static str>,
    pub shadow: Vec<Word>,
    pub host: Option<u16>,
    /// seed of the marks to leave in the observer before the next step, 0 for none
    pub marks: u64,
    /// whether scrambling may take initialisation marks away
    pub forgets: bool,
}
pub fn ireg_of(n: &str) -> InternalRegister {
    match n { "PC" => InternalRegister::PC, "PSR" => InternalRegister::PSR, "MCR" => InternalRegister::MCR, _ => InternalRegister::SavedSP }
}
impl M {
    /// A machine with keyboard, display and the given recording devices.
    pub fn new(flags: SimFlags, devs: &[(&'static str, Vec<u16>)]) -> M {
        let mut sim = Simulator::new(flags);
        let kb: Arc<RwLock<VecDeque<u8>>> = Default::default();
        let ds: Arc<RwLock<Vec<u8>>> = Default::default();
        sim.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
        sim.device_handler.set_display(BufferedDisplay::new(ds.clone()));
        sim.mmap_internal(SSP_PORT, InternalRegister::SavedSP).unwrap();
        let ctl = CtlRef::default();
        let mut own = vec![(0xFE00, "kb"), (0xFE02, "kb"), (0xFE04, "ds"), (0xFE06, "ds")];
        let mut names = vec![];
        for (n, ports) in devs {
            sim.device_handler.add_device(Recorder { name: n, ctl: ctl.clone() }, ports).ok().expect("device");
            own.extend(ports.iter().map(|&p| (p, *n)));
            names.push(*n);
        }
        let shadow = (0..=0xFFFFu16).map(|a| sim.mem[a]).collect();
        M { sim, kb, ds, ctl, ireg: vec![(PSR_PORT, "PSR"), (0xFFFE, "MCR"), (SSP_PORT, "SSP")], own, devs: names, shadow, host: None, marks: 0, forgets: false }
    }
    pub fn mmap(&mut self, addr: u16, n: &'static str) {
        if self.sim.mmap_internal(addr, ireg_of(n)).is_ok() { self.ireg.push((addr, n)); }
    }
    pub fn poke(&mut self, a: u16, v: u16) {
        self.sim.mem[a] = Word::new_init(v);
        self.shadow[a as usize] = Word::new_init(v);
    }
    /// Takes initialisation marks away from registers and words, not their values: without strict
    /// mode no step depends on the marks.
    pub fn forget(&mut self, r: &mut Rng, words: &[u16]) {
        let (n, all) = (1 + r.below(4), r.chance(1, 12));
        let mut lose = |w: &mut Word| if all || r.chance(n, 12) { *w = Word::new_uninit(&mut w.get()); };
        for i in 0..8 { lose(&mut self.sim.reg_file[reg(i)]); }
        for &a in words { lose(&mut self.sim.mem[a]); self.shadow[a as usize] = self.sim.mem[a]; }
    }
    pub fn resync(&mut self) { for a in 0..=0xFFFFu16 { self.shadow[a as usize] = self.sim.mem[a]; } }
    fn port(&mut self, a: u16) -> u16 {
        let v = self.sim.read_mem(a, MemAccessCtx::omnipotent()).map(|w| w.get()).unwrap_or(0);
        self.shadow[a as usize] = self.sim.mem[a];
        v
    }
    fn set_port(&mut self, a: u16, v: u16) {
        let _ = self.sim.write_mem(a, Word::new_init(v), MemAccessCtx::omnipotent());
        self.shadow[a as usize] = self.sim.mem[a];
    }
    pub fn ssp(&mut self) -> u16 { self.port(SSP_PORT) }
    pub fn set_ssp(&mut self, v: u16) { self.set_port(SSP_PORT, v) }
    pub fn set_psr(&mut self, v: u16) { self.set_port(PSR_PORT, v) }
    pub fn set_reg(&mut self, i: u8, v: u16) { self.sim.reg_file[reg(i)].set(v); }
    pub fn reg(&self, i: u8) -> u16 { self.sim.reg_file[reg(i)].get() }
    pub fn mcr(&self) -> bool { self.sim.mcr().load(std::sync::atomic::Ordering::Relaxed) }
    pub fn set_mcr(&mut self, b: bool) { self.sim.mcr().store(b, std::sync::atomic::Ordering::Relaxed) }
    pub fn kbie(&mut self) -> bool { self.sim.device_handler.io_read(0xFE00, false).is_some_and(|v| v & 0x4000 != 0) }
    pub fn has(&self, dev: &str) -> bool { self.own.iter().any(|o| o.1 == dev) }
    pub fn g(&self) -> V {
        obj! {"real": self.sim.flags.use_real_traps, "ign": self.sim.flags.ignore_privilege,
            "ireg": self.ireg.iter().map(|&(a, n)| arr![a, n]).collect::<Vec<_>>(),
            "own": self.own.iter().map(|&(a, n)| arr![a, n]).collect::<Vec<_>>(), "devs": self.devs.clone()}
    }
    pub fn state(&mut self) -> V {
        let r: Vec<u16> = (0..8).map(|i| self.reg(i)).collect();
        let kb: Vec<u8> = self.kb.read().unwrap().iter().copied().collect();
        let psr = {   // its parts, asked for one by one, are those of the word
            let p = self.sim.psr();
            let v = p.get();
            let same = (p.privileged(), p.priority() as u16, p.cc() as u16, p.is_n(), p.is_z(), p.is_p()) == (v >> 15 == 0, v >> 8 & 7, v & 7, v & 4 != 0, v & 2 != 0, v & 1 != 0);
            if same { v as i64 } else { 0x10000 + v as i64 }
        };
        obj! {"r": r, "pc": self.sim.pc, "psr": psr, "ssp": self.ssp(), "mcr": self.mcr(), "kb": kb,
            "kbie": self.kbie(), "ds": self.ds.read().unwrap().len(), "fl": if self.sim.frame_stack.is_empty() == (self.sim.frame_stack.len() == 0) { self.sim.frame_stack.len() as i64 } else { 999_999 }, "n": self.sim.instructions_run}
    }
    pub fn frames(&self) -> V {
        use lc3_ensemble::sim::frame::FrameType::*;
        match self.sim.frame_stack.frames() {
            None => V::A(vec![]),
            Some(fs) => V::A(fs.iter().map(|f| arr![f.caller_addr, f.callee_addr,
                match f.frame_type { Subroutine => "sub", Trap => "trap", Interrupt => "int" },
                f.frame_ptr.map_or(-1, |w| w.get() as i64), f.arguments.iter().map(|w| w.get()).collect::<Vec<_>>()]).collect()),
        }
    }
    /// One recorded step.
    pub fn step(&mut self) -> V { self.event(|s| s.step_in()) }
    pub fn event(&mut self, go: impl FnOnce(&mut Simulator) -> Result<(), SimErr>) -> V {
        self.ctl.lock().unwrap().log.clear();
        let pre = self.state();
        let (fs0, out0) = (self.frames(), self.ds.read().unwrap().len());
        self.ctl.lock().unwrap().log.clear();
        let before = (self.sim.pc, self.sim.psr().get());
        // the step may change what view() looks at: take the candidates first
        let regs: Vec<u16> = (0..8).map(|i| self.reg(i)).collect();
        let ssp = self.ssp();
        let kbf = self.kb.read().unwrap().front().copied();
        let sim = &mut self.sim;
        let r = guarded(|| format!("step at {before:?}"), || go(sim));
        let log: Vec<V> = std::mem::take(&mut self.ctl.lock().unwrap().log);
        let res = res_name(&r);
        let at = match catch(|| self.sim.prefetch_pc()) { Ok(a) => a as i64, Err(_) => -1 };
        let host = self.host;
        if let Some(a) = host {   // untracked host accesses are not the program's
            let ctx = MemAccessCtx::omnipotent();
            for d in 0..3u16 {
                let a = a.wrapping_add(d * 0x1111) % 0xFE00;
                if let Ok(w) = self.sim.read_mem(a, ctx) { let _ = self.sim.write_mem(a, w, ctx); }
            }
        }
        let view = view_of(&self.shadow, before.0, before.1, &regs, ssp, kbf, &log);
        let acc = acc_json(&mut self.sim);
        let mut diff = vec![];
        for a in 0..=0xFFFFu16 {
            let w = self.sim.mem[a];
            let old = &mut self.shadow[a as usize];
            if w != *old { if w.get() != old.get() { diff.push((a, old.get(), w.get())); } *old = w; }
        }
        let mut vs: Vec<V> = view.iter().map(|&(a, v)| arr![a, v]).collect();
        vs.extend(diff.iter().filter(|d| !view.iter().any(|x| x.0 == d.0)).map(|d| arr![d.0, d.1]));
        let out: Vec<u8> = self.ds.read().unwrap()[out0..].to_vec();
        let post = self.state();
        obj! {"g": self.g(), "pre": pre, "post": post, "view": vs, "diff": diff.iter().map(|d| arr![d.0, d.2]).collect::<Vec<_>>(),
            "out": out, "log": log, "res": if at < 0 { "panic".to_string() } else { res }, "at": at, "acc": acc, "fs": arr![fs0, self.frames()]}
    }
}
/// Everything a step may look at, before it.
fn view_of(shadow: &[Word], pc: u16, psr: u16, regs: &[u16], ssp: u16, kbf: Option<u8>, log: &[V]) -> Vec<(u16, u16)> {
    let at = |a: u16| shadow[a as usize].get();
    let mut cand: Vec<u16> = vec![pc, pc.wrapping_add(1), psr, ssp, 0, 0x8000, 0x4000, 0xC000];
    let mut s = BTreeSet::from([pc, 0x100, 0x101, 0x102, 0x180]);
    for l in log {
        if let V::A(x) = l { if let (V::S(k), V::I(v)) = (&x[0], &x[3]) {
            if (k == "r" || k == "q") && *v >= 0 { cand.push(*v as u16); }
            if k == "p" { s.insert(0x100 + *v as u16); }
        } }
    }
    cand.extend(kbf.map(|b| b as u16));
    let get = |a: u16| -> Vec<u16> { if a >= 0xFE00 { let mut v = cand.clone(); v.push(at(a)); v } else { vec![at(a)] } };
    for w in get(pc) {
        let next = pc.wrapping_add(1);
        let off9 = ((w << 7) as i16 >> 7) as u16;
        let off6 = ((w << 10) as i16 >> 10) as u16;
        let ea = next.wrapping_add(off9);
        s.insert(ea);
        s.extend(get(ea));
        s.insert(regs[(w >> 6 & 7) as usize].wrapping_add(off6));
        s.insert(w & 0xFF);
    }
    for sp in [regs[6], ssp] { for d in [0xFFFEu16, 0xFFFF, 0, 1, 2, 3] { s.insert(sp.wrapping_add(d)); } }
    s.into_iter().map(|a| (a, at(a))).collect()
}

// ---------------------------------------------------------------- random states, one step each
#[derive(Clone, Copy)]
pub struct Mode {
    pub user: usize,      // percent of steps in user mode
    pub ign: usize,       // percent with privilege checks ignored
    pub real: usize,      // percent with real traps
    pub irq: usize,       // percent with interrupt requests
    pub plain: bool,      // only harmless instructions
    pub outside: usize,   // percent aimed outside of user memory
}
pub const ANY: Mode = Mode { user: 50, ign: 15, real: 50, irq: 12, plain: false, outside: 20 };

pub const EDGES: &[u16] = &[0, 1, 2, 0x1FF, 0x200, 0x2FFE, 0x2FFF, 0x3000, 0x3001, 0x7FFF, 0x8000, 0xFDFE, 0xFDFF, 0xFE00, 0xFE01, 0xFFFE, 0xFFFF];
pub const PORTS: &[u16] = &[0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFE10, 0xFE12, 0xFE20, 0xFFF0, 0xFFFC, 0xFFFE, 0xFE40, 0xFFEE];
fn addr(r: &mut Rng, m: &Mode) -> u16 {
    if r.chance(m.outside, 100) {
        return match r.below(4) { 0 => *r.pick(PORTS), 1 => *r.pick(EDGES), 2 => r.below(0x3000) as u16, _ => 0xFE00 + r.below(0x200) as u16 };
    }
    match r.below(10) {
        0 => *r.pick(EDGES),
        1 => *r.pick(PORTS),
        2 => r.below(0x3000) as u16,
        3 => 0x3000u16.wrapping_add(r.range(-20, 20) as u16),
        4 => 0xFE00u16.wrapping_add(r.range(-20, 20) as u16),
        5 => r.u16(),
        _ => 0x3000 + r.below(0xCE00) as u16,
    }
}
fn sext_field(r: &mut Rng, bits: u32) -> u16 {
    let v = match r.below(5) {
        0 => *r.pick(&[0i64, 1, -1, 2, -2]),
        1 => (1 << (bits - 1)) - 1,
        2 => -(1 << (bits - 1)),
        _ => r.range(-(1 << (bits - 1)), (1 << (bits - 1)) - 1),
    };
    (v as u16) & ((1 << bits) - 1)
}
/// An instruction word; `pc` is where it will be, so that PC-relative addresses can be aimed.
pub fn gen_instr(r: &mut Rng, pc: u16, m: &Mode) -> u16 {
    let op = if m.plain { *r.pick(&[0u16, 1, 5, 9, 14]) } else { r.below(16) as u16 };
    let (a, b, c) = (r.below(8) as u16, r.below(8) as u16, r.below(8) as u16);
    let hi = op << 12;
    if !m.plain && r.chance(1, 25) { return hi | (r.u16() & 0xFFF); }
    let mut off9 = sext_field(r, 9);
    if r.chance(1, 2) {
        let d = addr(r, m).wrapping_sub(pc.wrapping_add(1)) as i16;
        if (-256..256).contains(&d) { off9 = d as u16 & 0x1FF; }
    }
    match op {
        0 => hi | (if r.chance(1, 2) { a << 9 } else { 7 << 9 }) | off9,
        2 | 3 | 10 | 11 | 14 => hi | a << 9 | off9,
        1 | 5 => hi | a << 9 | b << 6 | if r.chance(1, 2) { 0x20 | sext_field(r, 5) } else { c },
        4 => if r.chance(1, 2) { hi | 0x800 | sext_field(r, 11) } else { hi | b << 6 },
        6 | 7 => hi | a << 9 | b << 6 | sext_field(r, 6),
        8 => hi,
        9 => hi | a << 9 | b << 6 | 0x3F,
        12 => hi | (if r.chance(1, 3) { 7 } else { b }) << 6,
        15 => hi | if r.chance(1, 2) { 0x20 + r.below(6) as u16 } else { r.below(256) as u16 },
        _ => hi | (r.u16() & 0xFFF),
    }
}
pub fn gen_psr(r: &mut Rng) -> u16 {
    (r.below(2) as u16) << 15 | (r.below(8) as u16) << 8 | *r.pick(&[1, 2, 4])
}
impl M {
    /// Puts the machine in a random state in which one step is worth recording.
    pub fn scramble(&mut self, r: &mut Rng, m: &Mode) {
        self.sim.flags.use_real_traps = r.chance(m.real, 100);
        self.sim.flags.ignore_privilege = r.chance(m.ign, 100);
        let user = r.chance(m.user, 100);
        let psr = (gen_psr(r) & 0x7FFF) | (user as u16) << 15;
        let psr = if r.chance(1, 3) { psr & 0xF8FF } else { psr };
        self.set_psr(psr);
        for i in 0..8 {
            let v = if r.chance(1, 2) { addr(r, m).wrapping_add(if r.chance(1, 2) { r.range(-40, 40) as u16 } else { 0 }) } else { r.word() };
            self.set_reg(i, v);
        }
        if r.chance(3, 4) {   // usual stacks
            let us = 0x3100 + r.below(0xC000) as u16;
            let ss = 0x0600 + r.below(0x2A00) as u16;
            self.set_reg(6, if user { us } else { ss });
            self.set_ssp(if user { ss } else { us });
        } else {
            let v = addr(r, m);
            self.set_ssp(v);
        }
        let mut pc = match r.below(20) {
            0 => *r.pick(EDGES),
            1 => r.u16(),
            2 => *r.pick(PORTS),
            _ if user && !r.chance(1, 10) => match r.below(6) { 0 => 0x3000 + r.below(200) as u16, 1 => 0xFDFF - r.below(200) as u16, _ => 0x3000 + r.below(0xCE00) as u16 },
            _ => match r.below(4) { 0 => 0x200 + r.below(0x2E00) as u16, 1 => 0x2F00 + r.below(0x200) as u16, 2 => 0xFD00 + r.below(0x100) as u16, _ => r.below(0xFE00) as u16 },
        };
        if m.plain { pc = pc.clamp(0x3000, 0xFD00); }
        self.sim.pc = pc;
        let w = gen_instr(r, pc, m);
        self.poke(pc, w);
        // what the instruction looks at
        let next = pc.wrapping_add(1);
        let ea = next.wrapping_add(((w << 7) as i16 >> 7) as u16);
        if matches!(w >> 12, 10 | 11) && ea != pc && r.chance(4, 5) { let p = addr(r, m); self.poke(ea, p); }
        if matches!(w >> 12, 2 | 6 | 10) && r.chance(1, 2) {
            let a = match w >> 12 { 2 => ea, 6 => self.reg((w >> 6 & 7) as u8).wrapping_add(((w << 10) as i16 >> 10) as u16), _ => self.shadow[ea as usize].get() };
            if a != pc && a != ea || w >> 12 == 2 && a != pc { let v = r.word(); self.poke(a, v); }
        }
        if w == 0x8000 && r.chance(9, 10) {
            let sp = self.reg(6);
            let (p, s) = (addr(r, m), if r.chance(9, 10) { gen_psr(r) } else { r.u16() });
            if sp != pc { self.poke(sp, p); }
            if sp.wrapping_add(1) != pc { self.poke(sp.wrapping_add(1), s); }
        }
        // coincidences: things that hold the same word
        if !m.plain && r.chance(1, 4) {
            let sp = self.reg(6);
            let k = r.below(8) as u8;
            let magic = match r.below(9) { 0 => pc, 1 => next, 2 => sp, 3 => ea, 4 => self.ssp(), 5 => w, 6 => self.sim.psr().get(), 7 => sp.wrapping_add(1), _ => self.reg(k) };
            for x in 0..8 { if r.chance(1, 3) { self.set_reg(x, magic); } }
            if r.chance(1, 3) { self.set_ssp(magic); }
            let sp = self.reg(6);
            for a in [sp, sp.wrapping_add(1), sp.wrapping_sub(1), sp.wrapping_sub(2), ea, magic, next] {
                if a != pc && a < 0xFE00 && r.chance(1, 2) { self.poke(a, magic); }
            }
        }
        if self.forgets && r.chance(1, 2) {
            let sp = self.reg(6);
            self.forget(r, &[pc, ea, sp, sp.wrapping_add(1), sp.wrapping_sub(1), sp.wrapping_sub(2), 0x100 + (w & 0xFF)]);
        }
        // devices
        let n = r.below(4);
        *self.kb.write().unwrap() = (0..n).map(|_| r.u16() as u8).collect();
        if self.has("kb") {
            let ie = r.chance(m.irq.max(8), 100);
            self.sim.device_handler.io_write(0xFE00, (ie as u16) << 14);
        }
        let mcr = r.chance(1, 2);
        self.set_mcr(mcr);
        self.ds.write().unwrap().clear();
        let mut c = self.ctl.lock().unwrap();
        c.accept = r.chance(3, 4);
        c.answers = (0..6).map(|_| if r.chance(3, 4) { Some(r.word()) } else { None }).collect();
        c.ask.clear();
        let prio = self.sim.psr().priority() as i64;
        for d in &self.devs {
            if r.chance(m.irq, 100) {
                let p = match r.below(4) { 0 => r.below(8) as i64, 1 => prio, 2 => prio + 1, _ => *r.pick(&[7, 8, 200, 4]) }.clamp(0, 255) as u8;
                let v = match r.below(4) { 0 => r.below(4) as u8, _ => r.u16() as u8 };
                c.ask.insert(d, if r.chance(1, 20) { Ask::Ext } else { Ask::Vect(v, p) });
            }
        }
    }
}
pub fn random_machine(r: &mut Rng, debug_frames: bool) -> M {
    let flags = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, debug_frames, ..Default::default() };
    let devs: Vec<(&'static str, Vec<u16>)> = match r.below(4) {
        0 => vec![],
        1 => vec![("d1", vec![0xFE10, 0xFE12])],
        _ => vec![("d1", vec![0xFE10, 0xFE12]), ("d2", vec![0xFE20, 0xFFEE]), ("d3", vec![])],
    };
    let mut m = M::new(flags, &devs);
    m.forgets = true;
    if r.chance(1, 3) { m.mmap(0xFE40, "PC"); }
    if r.chance(1, 4) { m.mmap(0xFE10, "PSR"); }
    if r.chance(1, 4) { m.mmap(0xFE02, "SSP"); }
    if r.chance(1, 8) { m.sim.device_handler.remove_device(1); m.own.retain(|o| o.1 != "kb"); }
    if r.chance(1, 8) { m.sim.device_handler.remove_device(2); m.own.retain(|o| o.1 != "ds"); }
    m
}
pub fn one_steps(cx: &Cx, stream: u64, traces: usize, per: usize, m: Mode, frames: bool) -> Vec<V> {
    let seed = cx.seed;
    par(traces, |i| {
        let mut r = Rng::new(seed, (stream << 32) + i as u64);
        let mut mach = random_machine(&mut r, frames && i % 2 == 0);
        let ev: Vec<V> = (0..per).map(|_| { mach.scramble(&mut r, &m); mach.step() }).collect();
        obj! {"name": format!("single steps {i}"), "ev": ev}
    })
}
pub fn c08(cx: &Cx) {
    let mut f = cx.file("T_C08.ndjson");
    f.put_all(one_steps(cx, 8, cx.n(96, 1200), 150, ANY, false));
    f.put_all(run_steps(cx, 88, cx.n(24, 240), 400));
    let mut r = cx.rng(80);
    let mut cs = grid::traps(&mut r);
    cs.extend(grid::interrupts(&mut r));
    cs.extend(grid::calls(&mut r));
    cs.extend(grid::alu(&mut r));
    cs.extend(grid::memory(&mut r));
    cs.extend(grid::targets(&mut r, |r| r.chance(1, 3)));
    f.put_all(grid::run_cases(cx.seed, cs, false, false));
}
pub fn c09(cx: &Cx) {
    let mut f = cx.file("T_C09.ndjson");
    f.put_all(one_steps(cx, 9, cx.n(64, 800), 150, Mode { user: 100, ign: 0, irq: 3, outside: 70, ..ANY }, false));
    f.put_all(one_steps(cx, 90, cx.n(32, 400), 150, Mode { user: 100, ign: 0, irq: 3, outside: 10, ..ANY }, false));
    let mut r = cx.rng(91);
    let mut cs = grid::targets(&mut r, |_| true);
    cs.extend(grid::traps(&mut r));
    cs.extend(grid::calls(&mut r));
    f.put_all(grid::run_cases(cx.seed, cs, false, false));
}
/// Programs run step by step, with interrupts now and then.
pub fn run_steps(cx: &Cx, stream: u64, n: usize, max: usize) -> Vec<V> {
    use crate::uprog::*;
    let seed = cx.seed;
    par(n, |i| {
        let mut r = Rng::new(seed, (stream << 32) + i as u64);
        let end = if i % 2 == 0 { End::Halt } else { *r.pick(FAULT_ENDS) };
        let mut o = UOpts::new(end);
        o.size = 3;
        let p = generate(&mut r, &o, 0x3000);
        let mut m = M::new(SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, use_real_traps: r.chance(1, 2), ..Default::default() }, &[("d1", vec![]), ("d2", vec![])]);
        crate::runs::load(&mut m, &p);
        crate::runs::feed(&m, &mut r, 40);
        m.set_mcr(true);
        let mut ev = vec![];
        for _ in 0..max {
            let mut ask = HashMap::new();
            for d in ["d1", "d2"] { if r.chance(1, 40) { ask.insert(d, Ask::Vect(0x80 + r.below(8) as u8, r.below(8) as u8)); } }
            m.ctl.lock().unwrap().ask = ask;
            let pc = m.sim.pc;
            let e = m.step();
            let stop = !matches!(&e, V::O(x) if x.iter().any(|(k, v)| *k == "res" && matches!(v, V::S(s) if s == "ok")));
            ev.push(e);
            if stop || !m.mcr() || m.sim.pc == pc && m.shadow[pc as usize].get() == 0xF025 { break; }
        }
        obj! {"name": format!("program {i}"), "ev": ev}
    })
}
// ---------------------------------------------------------------- C16
pub fn c16(cx: &Cx) {
    let mut f = cx.file("T_C16.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(256, 2500), |i| {
        let mut r = Rng::new(seed, (16 << 32) + i as u64);
        let init = match r.below(4) { 0 => MachineInitStrategy::Known { value: r.word() }, _ => MachineInitStrategy::Seeded { seed: r.seed() } };
        let fl = SimFlags { strict: r.chance(1, 2), use_real_traps: r.chance(1, 2), debug_frames: r.chance(1, 2), ignore_privilege: r.chance(1, 3), machine_init: init };
        let mut sim = Simulator::new(fl);
        let kb: Arc<RwLock<VecDeque<u8>>> = Default::default();
        let ds: Arc<RwLock<Vec<u8>>> = Default::default();
        if r.chance(3, 4) {
            sim.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
            sim.device_handler.set_display(BufferedDisplay::new(ds.clone()));
        }
        if r.chance(1, 2) {
            let lo = r.below(4) as u32;
            let mut t = lc3_ensemble::sim::device::TimerDevice::new(Some(r.seed()), lo..=lo + r.below(4) as u32, r.u16() as u8, r.u16() as u8);
            t.enabled = true;
            let _ = sim.device_handler.add_device(t, &[]);
        }
        if r.chance(1, 3) { sim.frame_stack.set_subroutine_def(r.word(), lc3_ensemble::sim::frame::ParameterList::with_calling_convention(&["a", "b", "c"])); }
        let init_all = r.chance(1, 2);
        // registers where nobody expects them, files anywhere
        for _ in 0..r.below(4) {
            let (a, n) = (if r.chance(1, 2) { *r.pick(PORTS) } else { 0xFE00 + r.below(0x200) as u16 }, *r.pick(&["PC", "PSR", "MCR", "SSP"]));
            let _ = if r.chance(3, 4) { sim.mmap_internal(a, ireg_of(n)).is_ok() } else { sim.munmap_internal(a) };
        }
        let mut alloc: Vec<u16> = vec![];
        for _ in 0..r.below(3) {
            if let Some((bs, o)) = crate::boot::build(&mut r) {
                let _ = guarded(|| format!("load {bs:?}"), || sim.load_obj_file(&o));
                for (a, b) in &bs { let n: u32 = b.iter().map(|x| x.0).sum(); alloc.extend([*a, a.wrapping_sub(1), a.wrapping_add(n as u16), a.wrapping_add(n as u16).wrapping_sub(1), a.wrapping_add(r.below(n.max(1) as usize) as u16)]); }
            }
        }
        let mut ev = vec![];
        let m = Mode { outside: 40, ..ANY };
        for k in 0..30 {
            // arbitrary state
            if init_all && k == 0 { for a in 0..=0xFFFFu16 { let v = sim.mem[a].get(); sim.mem[a].set(v); } }
            for x in 0..8 { if init_all || r.chance(1, 2) { sim.reg_file[reg(x)].set(r.word()); } }
            if r.chance(1, 2) { sim.reg_file[reg(6)].set(*r.pick(EDGES)); }
            if !alloc.is_empty() { for x in 0..8 { if r.chance(1, 4) { sim.reg_file[reg(x)].set(*r.pick(&alloc)); } } }
            sim.pc = if r.chance(1, 2) { *r.pick(EDGES) } else if !alloc.is_empty() && r.chance(1, 3) { *r.pick(&alloc) } else { r.u16() };
            let psr = if r.chance(1, 2) { r.u16() } else { 0x0002 };
            let _ = sim.write_mem(PSR_PORT, Word::new_init(psr), MemAccessCtx::omnipotent());
            for _ in 0..r.below(12) {
                let a = match r.below(4) { 0 => sim.pc.wrapping_add(r.below(8) as u16), 1 => *r.pick(EDGES), 2 => 0x100 + r.below(3) as u16, _ => r.u16() };
                let w = gen_instr(&mut r, a, &m);
                if r.chance(5, 6) { sim.mem[a].set(w) } else { sim.mem[a] = { let mut k = w; Word::new_uninit(&mut k) } }
            }
            if r.chance(1, 4) { let a = sim.pc; sim.mem[a].set(*r.pick(&[0x8000, 0xF025, 0xC1C0, 0x4FFF, 0x0FFF, 0x0E00, 0xD000, 0xAFFF])); }
            if r.chance(1, 3) { for v in [0x25u16, 0x100, 0x101, 0x102, 0x180] { let w = r.word(); sim.mem[v].set(w); } }
            kb.write().unwrap().extend([1, 2, 3]);
            let start = format!("pc x{:04X} psr x{:04X} strict {} real {} frames {} ign {}", sim.pc, sim.psr().get(), fl.strict, fl.use_real_traps, fl.debug_frames, fl.ignore_privilege);
            let mut rows = vec![];
            for s in 0..if r.chance(1, 3) { 40 } else { 3 } {
                let res = match r.below(if s == 0 { 1 } else { 8 }) {
                    6 => { let mut n = 0; guarded(|| start.clone(), || sim.run_while(|_| { n += 1; n < 60 })) }
                    7 => { let mut n = 0; let d = sim.frame_stack.len(); guarded(|| start.clone(), || sim.run_while(|s| { n += 1; n < 60 && s.frame_stack.len() >= d })) }
                    _ => guarded(|| start.clone(), || sim.step_in()),
                };
                let at = catch(|| sim.prefetch_pc()).map_or(-1, i64::from);
                let bad = res.is_err() || at < 0;
                let what = if let Err(p) = &res { format!("{start}: {p}") } else { start.clone() };
                rows.push(arr![what, res_name(&res), at]);
                if bad { break; }
            }
            ev.push(V::A(rows));
        }
        obj! {"name": format!("states {i}"), "ev": ev}
    }));
}
// ---------------------------------------------------------------- C27, C28
fn with_defs(r: &mut Rng, sim: &mut Simulator, at: &[u16]) -> Vec<V> {
    use lc3_ensemble::sim::frame::ParameterList;
    let mut defs = vec![];
    for &a in at {
        if r.chance(1, 2) {
            let n = r.below(5);
            sim.frame_stack.set_subroutine_def(a, ParameterList::with_calling_convention(&["a", "b", "c", "d", "e"][..n]));
            defs.push(arr![a, "cc", n]);
        } else {
            let rs: Vec<u8> = (0..r.below(4)).map(|_| r.below(7) as u8).collect();
            let ps: Vec<(&str, lc3_ensemble::ast::Reg)> = rs.iter().map(|&x| ("p", reg(x))).collect();
            sim.frame_stack.set_subroutine_def(a, ParameterList::with_pass_by_register(&ps, Some(reg(0))));
            defs.push(arr![a, "reg", rs]);
        }
    }
    defs
}
pub fn c27(cx: &Cx) {
    let mut f = cx.file("T_C27.ndjson");
    let seed = cx.seed;
    let mode = Mode { irq: 20, ..ANY };
    f.put_all(par(cx.n(160, 1600), |i| {
        let mut r = Rng::new(seed, (27 << 32) + i as u64);
        let tracked = i % 4 != 0;
        let mut m = random_machine(&mut r, tracked);
        let at: Vec<u16> = (0..8).map(|_| 0x3000 + r.below(0xCE00) as u16).collect::<BTreeSet<_>>().into_iter().collect();
        let defs = with_defs(&mut r, &mut m.sim, &at);
        let ev: Vec<V> = (0..60).map(|_| {
            m.scramble(&mut r, &mode);
            // more calls and returns than chance gives
            let pc = m.sim.pc;
            match r.below(6) {
                0 => { let b = r.below(8) as u8; m.poke(pc, 0x4000 | (b as u16) << 6); let t = *r.pick(&at); m.set_reg(b, t); }
                1 => m.poke(pc, 0xC1C0),
                2 => { let d = r.range(-1024, 1023) as u16; m.poke(pc, 0x4800 | d & 0x7FF); }
                3 => { let w = *r.pick(&[0xF020, 0xF021, 0xF022, 0xF023, 0xF024, 0xF025, 0xF080, 0x8000, 0xC180]); m.poke(pc, w); }
                _ => {}
            }
            if r.chance(1, 12) {   // the host calls a subroutine itself
                let t = if r.chance(1, 2) { *r.pick(&at) } else { r.u16() };
                let V::O(mut e) = m.event(|s| s.call_subroutine(t)) else { unreachable!() };
                e.push(("call", V::from(t)));
                return V::O(e);
            }
            m.step()
        }).collect();
        obj! {"name": format!("frames {i}"), "defs": defs, "tracked": tracked, "ev": ev}
    }));
    // whole programs
    f.put_all(par(cx.n(32, 320), |i| {
        use crate::uprog::*;
        let mut r = Rng::new(seed, (270 << 32) + i as u64);
        let end = if i % 2 == 0 { End::Halt } else { *r.pick(FAULT_ENDS) };
        let mut o = UOpts::new(end);
        o.size = 3;
        let p = generate(&mut r, &o, 0x3000);
        let fl = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, use_real_traps: r.chance(1, 2), debug_frames: true, ..Default::default() };
        let mut m = M::new(fl, &[("d1", vec![])]);
        crate::runs::load(&mut m, &p);
        crate::runs::feed(&m, &mut r, 40);
        let defs = with_defs(&mut r, &mut m.sim, &p.subs.clone());
        let mut ev = vec![];
        for _ in 0..200 {
            m.ctl.lock().unwrap().ask = if r.chance(1, 30) { HashMap::from([("d1", Ask::Vect(0x80, r.below(8) as u8))]) } else { HashMap::new() };
            let e = m.step();
            let stop = !matches!(&e, V::O(x) if x.iter().any(|(k, v)| *k == "res" && matches!(v, V::S(s) if s == "ok")));
            ev.push(e);
            if stop { break; }
        }
        obj! {"name": format!("program frames {i}"), "defs": defs, "tracked": true, "ev": ev}
    }));
    // deep recursion: `JSR #-1` over and over, then `RET` to itself
    f.put_all(par(cx.n(16, 64), |i| {
        let mut r = Rng::new(seed, (272 << 32) + i as u64);
        let tracked = i % 4 != 0;
        let fl = SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames: tracked, ..Default::default() };
        let mut m = M::new(fl, &[]);
        let p = 0x3000 + r.below(0xC000) as u16;
        m.poke(p, 0x4FFF);
        m.poke(p + 1, 0xC1C0);
        m.sim.pc = p;
        let most = [256, 257, 511, 1025, 4097, 33_000, 66_000, 10_001][i % 8];
        let (mut n, mut k) = (0usize, 0usize);
        let mut ev = vec![];
        for goal in [r.below(most), most, most + r.below(3), 1 + r.below(most / 2), most, most + 2] {
            let up = n < most;
            let res = guarded(|| "deep recursion".into(), || {
                if up { while n < goal { m.sim.step_in()?; n += 1; } }
                else { m.sim.pc = p + 1; while k < goal { m.sim.step_in()?; k += 1; } }
                Ok::<(), SimErr>(())
            });
            let fs = m.sim.frame_stack.frames();
            let len = fs.map_or(0, |f| f.len());
            let V::A(all) = m.frames() else { unreachable!() };
            let sample: Vec<V> = [0, 1, 254, 255, 256, len / 2, len.saturating_sub(2), len.saturating_sub(1), r.below(len + 1)].into_iter().filter_map(|j| all.get(j).cloned()).collect();
            ev.push(obj! {"deep": p, "n": n, "k": k, "fl": m.sim.frame_stack.len(), "len": len, "sample": sample, "res": res_name(&res)});
        }
        obj! {"name": format!("deep recursion {i}"), "defs": V::A(vec![]), "tracked": tracked, "ev": ev}
    }));
    let mut r = cx.rng(271);
    let mut cs = grid::traps(&mut r);
    cs.extend(grid::interrupts(&mut r));
    cs.extend(grid::calls(&mut r));
    f.put_all(grid::run_cases(cx.seed, cs, true, false));
}
/// Marks of all kinds from before a step or run.
fn mark(sim: &mut Simulator, seed: u64) {
    use lc3_ensemble::sim::observer::AccessSet;
    let mut r = Rng::new(seed, 28);
    let (a, n, ctx) = (r.u16(), *r.pick(&[1u32, 30, 1000, 5000, 65536]), sim.default_mem_ctx());
    let kinds = [AccessSet::READ, AccessSet::WRITTEN, AccessSet::WRITTEN | AccessSet::MODIFIED, AccessSet::READ | AccessSet::WRITTEN];
    for d in 0..n {
        let a = a.wrapping_add(d as u16);
        if d < 4 && a < 0xFE00 { let _ = sim.read_mem(a, ctx); } else { sim.observer.update_mem_accesses(a, *r.pick(&kinds)); }
    }
}
/// The marks of the observer, which stay in it: the next step or run has to drop them itself.
fn acc_json(sim: &mut Simulator) -> V {
    let all: Vec<_> = sim.observer.take_mem_accesses().collect();
    for &(a, s) in &all { sim.observer.update_mem_accesses(a, s); }
    let bits = |s: lc3_ensemble::sim::observer::AccessSet| s.read() as u8 + 2 * s.written() as u8 + 4 * s.modified() as u8;
    V::A(all.into_iter().flat_map(|(a, s)| {
        // the same marks, asked for by address; any difference shows as a second entry
        let g = sim.observer.get_mem_accesses(a);
        let off = if s.accessed() == (bits(s) != 0) { bits(g) ^ bits(s) } else { 7 };
        if off == 0 { vec![arr![a, bits(s)]] } else { vec![arr![a, bits(s)], arr![a, off]] }
    }).collect())
}
pub fn c28(cx: &Cx) {
    use crate::uprog::*;
    let mut f = cx.file("T_C28.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(96, 1000), |i| {
        let mut r = Rng::new(seed, (28 << 32) + i as u64);
        let mut m = random_machine(&mut r, false);
        let ev: Vec<V> = (0..150).map(|_| { m.scramble(&mut r, &ANY); m.host = if r.chance(1, 2) { Some(r.u16()) } else { None }; m.marks = if r.chance(1, 8) { r.next() } else { 0 }; m.step() }).collect();
        obj! {"name": format!("observed steps {i}"), "ev": ev}
    }));
    f.put_all(run_steps(cx, 288, cx.n(12, 120), 300));
    let mut r = cx.rng(281);
    let mut cs = grid::memory(&mut r);
    cs.extend(grid::traps(&mut r));
    cs.extend(grid::interrupts(&mut r));
    cs.extend(grid::calls(&mut r));
    cs.extend(grid::targets(&mut r, |r| r.chance(1, 2)));
    f.put_all(grid::run_cases(cx.seed, cs, false, false));
    f.put_all(par(cx.n(48, 400), |i| {
        let mut r = Rng::new(seed, (280 << 32) + i as u64);
        let end = if i % 2 == 0 { End::Halt } else { *r.pick(FAULT_ENDS) };
        let mut o = UOpts::new(end);
        o.size = 3;
        let p = generate(&mut r, &o, 0x3000);
        let (s, real, strict) = (r.next(), r.chance(1, 2), r.chance(1, 2));
        let mk = || {
            let mut m = M::new(SimFlags { machine_init: MachineInitStrategy::Seeded { seed: s }, use_real_traps: real, strict, ..Default::default() }, &[]);
            load_user(&mut m, &p);
            m.kb.write().unwrap().extend(*b"hello, world: some input for the program to read, long enough");
            m
        };
        let (mut a, mut b) = (mk(), mk());
        let mut ev = vec![];
        for _ in 0..8 {
            if r.chance(1, 3) { let s = r.next(); mark(&mut a.sim, s); }
            if r.chance(1, 2) {   // the other commands: the twin steps until it is at the same place
                let from = a.sim.instructions_run;
                let cmd = r.below(4);
                a.sim.breakpoints.clear();
                if r.chance(1, 3) {
                    a.sim.breakpoints.insert(lc3_ensemble::sim::debug::Breakpoint::PC(if r.chance(1, 2) { 0x3000 + r.below(64) as u16 } else { a.sim.pc.wrapping_add(r.below(6) as u16) }));
                }
                let res = guarded(|| "observed command".into(), || match cmd {
                    0 => a.sim.step_over(),
                    1 if a.sim.frame_stack.len() > 0 => a.sim.step_out(),
                    2 if !a.sim.breakpoints.is_empty() => a.sim.run(),
                    _ => a.sim.run_with_limit(1 + r.below(40) as u64),
                });
                a.sim.breakpoints.clear();
                if !matches!(res, Ok(Ok(()))) || a.sim.hit_halt() || a.sim.instructions_run == from { break; }
                let acc = acc_json(&mut a.sim);
                let mut steps = vec![];
                while b.sim.instructions_run < a.sim.instructions_run && steps.len() < 100_000 {
                    let _ = guarded(|| "observed step".into(), || b.sim.step_in());
                    steps.push(acc_json(&mut b.sim));
                }
                if (a.sim.pc, a.sim.instructions_run) != (b.sim.pc, b.sim.instructions_run) || steps.len() > 2000 { break; }
                ev.push(obj! {"steps": steps, "acc": acc});
                continue;
            }
            let k = 1 + r.below(60);
            let mut n = 0;
            let res = guarded(|| "observed run".into(), || a.sim.run_while(|_| { n += 1; n <= k }));
            let done = !matches!(res, Ok(Ok(()))) || a.sim.hit_halt();
            let acc = acc_json(&mut a.sim);
            let executed = if matches!(res, Ok(Ok(()))) && !a.sim.hit_halt() { n - 1 } else { n };
            let mut steps = vec![];
            for _ in 0..executed { let _ = guarded(|| "observed step".into(), || b.sim.step_in()); steps.push(acc_json(&mut b.sim)); }
            if done { if matches!(res, Ok(Ok(()))) && real { break; } }
            ev.push(obj! {"steps": steps, "acc": acc});
            if done { break; }
        }
        obj! {"name": format!("observed runs {i}"), "ev": ev}
    }));
}
use crate::runs::load as load_user;
