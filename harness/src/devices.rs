//! C32, C33, C34: devices, ports, buffers under contention, timers.
use crate::machine::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, DeviceHandler, ExternalDevice, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{MMapInternalErr, MemAccessCtx, SimFlags, Simulator};
use std::collections::VecDeque;
use crate::uprog::Code;
use std::ops::Bound;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- C34
const CAP: u32 = 2_000_000_000;
/// A range in one of its many forms: (lower, upper) bound.
fn gen_range(r: &mut Rng) -> (Bound<u32>, Bound<u32>) {
    let lo = match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 50, 4 => r.below(300) as u32, _ => r.below(12) as u32 };
    let hi = lo + match r.below(6) { 0 | 1 => 0, 2 => 1, 3 => r.below(200) as u32, _ => r.below(9) as u32 };
    match r.below(16) {
        0..=5 => (Bound::Included(lo), Bound::Included(hi)),
        6..=8 => (Bound::Included(lo), Bound::Excluded(hi + 1)),
        9 | 10 if lo > 0 => (Bound::Excluded(lo - 1), Bound::Included(hi)),
        11 if lo > 0 => (Bound::Excluded(lo - 1), Bound::Excluded(hi + 1)),
        12 => (Bound::Unbounded, Bound::Included(hi)),
        13 => (Bound::Unbounded, Bound::Excluded(hi + 1)),
        14 => match r.below(4) {
            0 => (Bound::Unbounded, Bound::Unbounded),
            1 => (Bound::Included(100_000), Bound::Unbounded),
            2 => (Bound::Included(u32::MAX), Bound::Included(u32::MAX)),
            _ => (Bound::Included(1 << 20), Bound::Excluded(u32::MAX)),
        },
        _ => (Bound::Included(lo), Bound::Included(lo)),
    }
}
fn limits(b: &(Bound<u32>, Bound<u32>)) -> (u32, u32) {
    let lo = match b.0 { Bound::Included(x) => x, Bound::Excluded(x) => x + 1, Bound::Unbounded => 0 };
    let hi = match b.1 { Bound::Included(x) => x, Bound::Excluded(x) => x - 1, Bound::Unbounded => u32::MAX };
    (lo.min(CAP), hi.min(CAP))
}
#[derive(Clone, Debug)]
enum TOp { Poll(u32), En(bool), Remain, IoReset, Range((Bound<u32>, Bound<u32>)), Exact(u32), As(u8, u8) }
fn gen_tops(r: &mut Rng, mut hi: u32, steady: bool) -> Vec<TOp> {
    let mut v = vec![];
    if r.chance(1, 8) { v.push(TOp::Poll(r.below(40) as u32)); }
    if r.chance(1, 8) { v.push(TOp::Remain); }
    v.push(TOp::En(true));
    let mut budget = 1200i64;
    while budget > 0 && v.len() < 60 {
        let few = hi.min(400);
        let n = match r.below(4) { 0 => r.below(3) as u32, 1 => few + r.below(3) as u32, 2 => few * 3 + r.below(9) as u32, _ => r.below(few as usize * 2 + 2) as u32 };
        budget -= 1 + n as i64;
        v.push(TOp::Poll(n));
        if steady { continue; }
        match r.below(14) {
            0 | 1 => v.push(TOp::Remain),
            2 | 3 => v.push(TOp::IoReset),
            4 | 5 => { v.push(TOp::En(false)); v.push(TOp::Poll(r.below(60) as u32)); if r.chance(1, 4) { v.push(TOp::IoReset); } v.push(TOp::En(true)); }
            6 => { let b = gen_range(r); hi = limits(&b).1; v.push(TOp::Range(b)); if r.chance(1, 2) { v.push(TOp::Remain); } }
            7 => { hi = r.below(30) as u32; v.push(TOp::Exact(hi)); if r.chance(1, 2) { v.push(TOp::IoReset); } }
            8 => v.push(TOp::As(r.u16() as u8, r.u16() as u8 % 12)),
            9 => v.push(TOp::En(true)),
            _ => {}
        }
    }
    v
}
/// The timer behind one of the ways it can be attached.
enum Att { Own(TimerDevice), Mutex(Arc<Mutex<TimerDevice>>, DeviceHandler), Rw(Arc<RwLock<TimerDevice>>, DeviceHandler), Sim(Arc<Mutex<TimerDevice>>, Box<Simulator>) }
impl Att {
    fn new(t: TimerDevice, how: usize) -> Att {
        match how {
            0 => Att::Own(t),
            1 => { let a = Arc::new(Mutex::new(t)); let mut h = DeviceHandler::new(); h.add_device(a.clone(), &[]).ok().unwrap(); Att::Mutex(a, h) }
            2 => { let a = Arc::new(RwLock::new(t)); let mut h = DeviceHandler::new(); h.add_device(a.clone(), &[0xFE30]).ok().unwrap(); Att::Rw(a, h) }
            _ => {
                let a = Arc::new(Mutex::new(t));
                let mut s = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() });
                s.device_handler.add_device(a.clone(), &[]).ok().unwrap();
                Att::Sim(a, Box::new(s))
            }
        }
    }
    fn with<T>(&mut self, f: impl FnOnce(&mut TimerDevice) -> T) -> T {
        match self { Att::Own(t) => f(t), Att::Mutex(a, _) => f(&mut a.lock().unwrap()), Att::Rw(a, _) => f(&mut a.write().unwrap()), Att::Sim(a, _) => f(&mut a.lock().unwrap()) }
    }
    /// One poll: vector and priority of the interrupt.
    fn poll(&mut self) -> Option<(i16, u8)> {
        let i = match self {
            Att::Own(t) => t.poll_interrupt(),
            Att::Mutex(_, h) => h.poll_interrupt(),
            Att::Rw(_, h) => h.poll_interrupt(),
            Att::Sim(a, s) => {
                // one step of `x3000 BRnzp #-1`; every vector holds a handler address of its own
                let ask = { let t = a.lock().unwrap(); (t.vect, t.priority) };
                let start = 0x3000u16;
                let put = |s: &mut Simulator, a: u16, v: u16| s.mem[a] = Word::new_init(v);
                put(s, start, 0x0FFF);
                put(s, 0x100 + ask.0 as u16, 0x1000 + ask.0 as u16);
                s.reset_regs(start);
                let _ = s.step_in();
                if s.pc == start { return None; }
                return Some((if shown() { s.pc.wrapping_sub(0x1000) as i16 } else { -1 }, s.psr().priority()));
            }
        };
        i.map(|i| { let p = i.priority().unwrap_or(99); let d = format!("{i:?}"); (vect_of(&d), p) })
    }
    fn reset(&mut self) {
        match self { Att::Own(t) => t.io_reset(), Att::Mutex(_, h) => h.io_reset(), Att::Rw(_, h) => h.io_reset(), Att::Sim(_, s) => s.reset() }
    }
}
/// The vector of an interrupt, which only its Debug form shows outside of a simulator.
fn vect_of(d: &str) -> i16 {
    d.split("vect: ").nth(1).and_then(|x| x.split([',', ' ', '}']).next()).and_then(|x| x.trim().parse().ok()).unwrap_or(-1)
}
/// Whether it does (vectors are compared only then).
fn shown() -> bool { vect_of(&format!("{:?}", lc3_ensemble::sim::device::Interrupt::vectored(123, 1))) == 123 }
trait ResetRegs { fn reset_regs(&mut self, pc: u16); }
impl ResetRegs for Simulator {
    fn reset_regs(&mut self, pc: u16) {
        self.pc = pc;
        // user mode, lowest priority, a stack that stays where it is
        let ctx = MemAccessCtx::omnipotent();
        let _ = self.write_mem(0xFFFC, Word::new_init(0x0002), ctx);
        self.reg_file[crate::isa::reg(6)].set(0x2F00);
    }
}
fn play(seed: u64, b: (Bound<u32>, Bound<u32>), as0: (u8, u8), ops: &[TOp], how: usize) -> V {
    let r = guarded(|| format!("timer {b:?} {ops:?}"), || {
        let mut a = Att::new(TimerDevice::new(Some(seed), b, as0.0, as0.1), how);
        let mut out: Vec<V> = vec![];
        let mut quiet = 0u32;
        macro_rules! flush { () => { if quiet > 0 { out.push(arr!["n", quiet]); quiet = 0; } } }
        for o in ops {
            if !matches!(o, TOp::Poll(_)) { flush!(); }
            match o.clone() {
                TOp::Poll(n) => for _ in 0..n {
                    match a.poll() { None => quiet += 1, Some((v, p)) => { flush!(); out.push(arr!["f", v, p]); } }
                },
                TOp::En(e) => { a.with(|t| t.enabled = e); out.push(arr!["en", e]); }
                TOp::Remain => { a.with(|t| t.reset_remaining()); out.push(arr!["reset"]); }
                TOp::IoReset => { a.reset(); out.push(arr!["reset"]); }
                TOp::Range(b) => { a.with(|t| { t.set_range(b); }); let (l, h) = limits(&b); out.push(arr!["range", l, h]); }
                TOp::Exact(n) => { a.with(|t| { t.set_exact(n); }); out.push(arr!["range", n, n]); }
                TOp::As(v, p) => { a.with(|t| { t.vect = v; t.priority = p; }); out.push(arr!["as", v, p]); }
            }
        }
        flush!();
        V::A(out)
    });
    r.unwrap_or_else(|_| arr![arr!["panic"]])
}
pub fn c34(cx: &Cx) {
    let mut f = cx.file("T_C34.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(160, 4000), |i| {
        let mut r = Rng::new(seed, (34 << 32) + i as u64);
        let ev: Vec<V> = (0..8).map(|_| {
            let b = gen_range(&mut r);
            let (lo, hi) = limits(&b);
            let how = *r.pick(&[0, 0, 1, 2, 3]);
            let mut ops = gen_tops(&mut r, hi, i % 3 == 0);
            // an interrupt at priority 0 is not taken by a machine at priority 0
            let pr = |r: &mut Rng| if how == 3 { 1 + r.below(9) as u8 } else { *r.pick(&[0u8, 1, 4, 7, 8, 200, 255]) };
            let as0 = (r.u16() as u8, pr(&mut r));
            if how == 3 { for o in &mut ops { if let TOp::As(_, p) = o { *p = (*p).max(1); } } }
            let s = r.seed();
            let a = play(s, b, as0, &ops, how);
            // the same timer, attached differently
            let twin = play(s, b, as0, &ops, if how == 3 { 0 } else { *r.pick(&[how, 0, 1, 2]) });
            obj! {"lo": lo, "hi": hi, "vect": as0.0, "prio": as0.1, "ops": a, "twin": twin}
        }).collect();
        obj! {"name": format!("timers {i}"), "ev": ev}
    }));
    // long intervals, around the powers of two
    f.put_all(par(cx.n(24, 96), |i| {
        let mut r = Rng::new(seed, (340 << 32) + i as u64);
        let ev: Vec<V> = (0..2).map(|_| {
            let at = (1u32 << *r.pick(&[8, 10, 12, 15, 16, 16, 16, 17, 18, 20])).wrapping_add(r.range(-2, 40) as u32);
            let b = match r.below(5) {
                0 => (Bound::Included(at), Bound::Included(at + r.below(200) as u32)),
                1 => (Bound::Included(at), Bound::Excluded(at + 1 + r.below(70_000) as u32)),
                2 => (Bound::Included(at * 3), Bound::Unbounded),
                _ => (Bound::Included(at), Bound::Included(at)),
            };
            let (lo, hi) = limits(&b);
            let mut ops = vec![TOp::En(true)];
            for _ in 0..3 {
                ops.push(TOp::Poll((hi.min(2_500_000)) + r.below(40) as u32));
                match r.below(6) { 0 => { ops.push(TOp::Remain); } 1 => { ops.push(TOp::IoReset); } 2 => { ops.push(TOp::En(false)); ops.push(TOp::Poll(1000)); ops.push(TOp::En(true)); } _ => {} }
            }
            let as0 = (r.u16() as u8, 1 + r.below(7) as u8);
            let s = r.seed();
            let how = r.below(3);
            obj! {"lo": lo, "hi": hi, "vect": as0.0, "prio": as0.1, "ops": play(s, b, as0, &ops, how), "twin": play(s, b, as0, &ops, 0)}
        }).collect();
        obj! {"name": format!("long timers {i}"), "ev": ev}
    }));
}

// ---------------------------------------------------------------- C32
const SPOTS: &[u16] = &[0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFE01, 0xFE08, 0xFE10, 0xFE11, 0xFE12, 0xFE80, 0xFEFF, 0xFF00, 0xFFF0, 0xFFFC, 0xFFFE, 0xFFFF, 0xFFFD];
const BESIDE: &[u16] = &[0, 0x3000, 0xFDFF, 0xFDFE, 0x01FF];
fn spot(r: &mut Rng, beside: usize) -> u16 {
    if r.chance(beside, 100) { *r.pick(BESIDE) } else if r.chance(1, 8) { 0xFE00 + r.below(0x200) as u16 } else { *r.pick(SPOTS) }
}
struct P {
    sim: Simulator, ctl: CtlRef, ops: Vec<V>, shadow: Vec<Word>, n: usize, ids: Vec<u16>,
    kbs: Vec<(&'static str, Arc<RwLock<VecDeque<u8>>>)>, dss: Vec<(&'static str, Arc<RwLock<Vec<u8>>>)>,
}
impl P {
    fn name(&mut self, k: &str) -> &'static str { self.n += 1; Box::leak(format!("{k}{}", self.n).into_boxed_str()) }
    fn psr(&self) -> u16 { self.sim.psr().get() }
    fn obs(&mut self, a: u16, psr: u16) -> V {
        let mut other = 0;
        for x in 0..=0xFFFFu16 {
            if self.sim.mem[x] != self.shadow[x as usize] { if x != a { other += 1; } self.shadow[x as usize] = self.sim.mem[x]; }
        }
        let mcr = (self.sim.mcr().load(std::sync::atomic::Ordering::Relaxed) as u16) << 15;
        let mut buf: Vec<V> = self.kbs.iter().map(|(n, b)| arr![*n, b.read().unwrap().iter().copied().collect::<Vec<u8>>()]).collect();
        buf.extend(self.dss.iter().map(|(n, b)| arr![*n, b.read().unwrap().clone()]));
        obj! {"m": self.sim.mem[a].get(), "other": other, "reg": vec![self.sim.pc, psr, mcr], "buf": buf}
    }
    fn calls(&mut self) -> Vec<V> {
        std::mem::take(&mut self.ctl.lock().unwrap().log).into_iter().filter(|x| !matches!(x, V::A(v) if matches!(&v[0], V::S(s) if s == "p"))).collect()
    }
    fn prepare(&mut self, r: &mut Rng) {
        let mut c = self.ctl.lock().unwrap();
        c.log.clear();
        c.answers = [if r.chance(3, 4) { Some(r.word()) } else { None }].into();
        c.accept = r.chance(3, 4);
    }
    fn ctx(&self, eff: bool) -> MemAccessCtx { MemAccessCtx { privileged: true, strict: false, io_effects: eff, track_access: eff } }
    fn read(&mut self, r: &mut Rng, a: u16, eff: bool) {
        self.prepare(r);
        let v = guarded(|| format!("read {a:04X}"), || self.sim.read_mem(a, self.ctx(eff)));
        let v = match v { Ok(Ok(w)) => w.get() as i64, _ => -1 };
        let (log, psr) = (self.calls(), self.psr());
        let o = self.obs(a, psr);
        self.ops.push(arr!["rd", a, eff, v, log, o]);
    }
    fn write(&mut self, r: &mut Rng, a: u16, v: u16) {
        self.prepare(r);
        let ok = guarded(|| format!("write {a:04X}"), || self.sim.write_mem(a, Word::new_init(v), self.ctx(true)));
        let (mut log, psr) = (self.calls(), self.psr());
        if !matches!(ok, Ok(Ok(()))) { log.push(arr!["x", "error", 0, 0]); }
        let o = self.obs(a, psr);
        self.ops.push(arr!["wr", a, v, log, o]);
    }
    /// The same by an instruction.
    fn program(&mut self, r: &mut Rng, a: u16, v: Option<u16>) {
        if self.sim.device_handler.poll_interrupt().is_some() { return; }
        self.prepare(r);
        let put = |s: &mut P, a: u16, v: u16| { s.sim.mem[a] = Word::new_init(v); s.shadow[a as usize] = s.sim.mem[a]; };
        let how = r.below(3);
        // LDI, LDR, LD (aimed from nearby) and their stores
        let op = [0xA000u16, 0x6040, 0x2000][how] + if v.is_some() { 0x1000 } else { 0 };
        let (at, op) = match how {
            0 => { put(self, 0x4001, a); (0x4000, op) }
            1 => { self.sim.reg_file[crate::isa::reg(1)].set(a); (0x4000, op) }
            _ => { let d = 3 + r.below(200) as u16; let at = a.wrapping_sub(d + 1); (at, op | d) }
        };
        if at >= 0xFE00 || (how == 2 && a == 0x4000) { return; }
        put(self, at, op);
        self.sim.pc = at;
        if let Some(v) = v { self.sim.reg_file[crate::isa::reg(0)].set(v); }
        self.ops.push(arr!["reg", "PC", at.wrapping_add(1)]);
        let psr0 = self.psr();
        let res = guarded(|| format!("program at {a:04X}"), || self.sim.step_in());
        let mut log = self.calls();
        if !matches!(res, Ok(Ok(()))) { log.push(arr!["x", "error", 0, 0]); }
        let psr = self.psr();
        match v {
            None => {
                let got = self.sim.reg_file[crate::isa::reg(0)].get();
                let o = self.obs(a, psr & !7 | psr0 & 7);
                self.ops.push(arr!["rd", a, true, got, log, o]);
                self.ops.push(arr!["reg", "PSR", psr]);
            }
            Some(v) => { let o = self.obs(a, psr); self.ops.push(arr!["wr", a, v, log, o]); }
        }
    }
}
fn ports_history(r: &mut Rng, len: usize) -> V {
    let flags = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, ignore_privilege: true, ..Default::default() };
    let mut p = P { sim: Simulator::new(flags), ctl: Default::default(), ops: vec![], shadow: vec![], n: 0, ids: vec![], kbs: vec![], dss: vec![] };
    p.shadow = (0..=0xFFFFu16).map(|a| p.sim.mem[a]).collect();
    let mcr = (p.sim.mcr().load(std::sync::atomic::Ordering::Relaxed) as u16) << 15;
    let (pc, psr) = (p.sim.pc, p.psr());
    for (n, v) in [("PC", pc), ("PSR", psr), ("MCR", mcr)] { p.ops.push(arr!["reg", n, v]); }
    // the words below the page, as they are
    let res = p.sim.mmap_internal(0xFFF0, ireg_of("SSP")).is_ok();
    p.ops.push(arr!["map", 0xFFF0, "SSP", if res { "ok" } else { "mapped" }]);
    p.write(r, 0xFFF0, 0x2F00);
    for &a in BESIDE { p.write(r, a, 0x1111); }
    for _ in 0..len {
        match r.below(32) {
            0..=4 => {
                let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 8, _ => 1 + r.below(3) };
                let beside = if r.chance(1, 4) { 25 } else { 0 };
                let mut ports: Vec<u16> = (0..n).map(|_| spot(r, beside)).collect();
                if n > 0 && r.chance(1, 8) { ports.push(ports[0]); }
                if r.chance(1, 2) { ports.retain(|p| !(0xFE00..=0xFE06).contains(p)); }
                let name = p.name("d");
                let rec = Recorder { name, ctl: p.ctl.clone() };
                let id = match r.below(3) {
                    0 => p.sim.device_handler.add_device(Arc::new(Mutex::new(rec)), &ports).map_err(|_| ()),
                    1 => p.sim.device_handler.add_device(Arc::new(RwLock::new(rec)), &ports).map_err(|_| ()),
                    _ => p.sim.device_handler.add_device(rec, &ports).map_err(|_| ()),
                };
                let id = id.map_or(-1, |x| x as i64);
                if id >= 0 { p.ids.push(id as u16); }
                p.ops.push(arr!["add", name, ports, id]);
            }
            5 | 6 => {
                let id = match r.below(8) { 0 => r.below(3) as u16, 1 => r.u16(), _ if !p.ids.is_empty() => *r.pick(&p.ids), _ => 3 };
                p.sim.device_handler.remove_device(id);
                p.ops.push(arr!["rem", id]);
            }
            7 | 8 => {
                let kb = r.chance(1, 2);
                let rec = r.chance(1, 3);
                let name = p.name(if rec { "d" } else { "b" });
                let bytes: Vec<u8> = if kb && !rec { (0..r.below(5)).map(|_| r.u16() as u8).collect() } else { vec![] };
                let c = p.ctl.clone();
                match (kb, rec) {
                    (true, true) => p.sim.device_handler.set_keyboard(Recorder { name, ctl: c }),
                    (false, true) => p.sim.device_handler.set_display(Recorder { name, ctl: c }),
                    (true, false) => { let b = Arc::new(RwLock::new(VecDeque::from(bytes.clone()))); p.sim.device_handler.set_keyboard(BufferedKeyboard::new(b.clone())); p.kbs.push((name, b)); }
                    (false, false) => { let b = Arc::new(RwLock::new(vec![])); p.sim.device_handler.set_display(BufferedDisplay::new(b.clone())); p.dss.push((name, b)); }
                }
                p.ops.push(arr!["fix", if kb { 1 } else { 2 }, if rec { "rec" } else { "buf" }, name, bytes]);
            }
            9 | 10 => {
                let (a, n) = (spot(r, 10), *r.pick(&["PC", "PSR", "MCR", "SSP"]));
                let res = match p.sim.mmap_internal(a, ireg_of(n)) { Ok(()) => "ok", Err(MMapInternalErr::NotInIORange) => "range", Err(MMapInternalErr::AddrAlreadyMapped) => "mapped" };
                p.ops.push(arr!["map", a, n, res]);
            }
            11 | 12 => { let a = if r.chance(1, 2) { *r.pick(&[0xFFF0, 0xFFFC, 0xFFFE]) } else { spot(r, 10) }; let res = p.sim.munmap_internal(a); p.ops.push(arr!["unmap", a, res]); }
            13 => {
                if r.chance(1, 6) {
                    let ids: Vec<u16> = (0..40 + r.below(300)).filter_map(|_| p.sim.device_handler.add_device(lc3_ensemble::sim::device::NullDevice, &[]).ok()).collect();
                    p.ops.push(arr!["bulk", ids]);
                }
            }
            14 => {
                p.ctl.lock().unwrap().log.clear();
                let _ = p.sim.device_handler.poll_interrupt();
                let names: Vec<V> = std::mem::take(&mut p.ctl.lock().unwrap().log).into_iter().filter_map(|x| match x { V::A(v) => Some(v[1].clone()), _ => None }).collect();
                p.ops.push(arr!["poll", names]);
            }
            15 => { let b = r.chance(1, 2); p.sim.mcr().store(b, std::sync::atomic::Ordering::Relaxed); p.ops.push(arr!["reg", "MCR", (b as u16) << 15]); }
            16..=20 => { let a = spot(r, 3); let eff = r.chance(2, 3); p.read(r, a, eff) }
            21..=25 => { let (a, v) = (spot(r, 3), r.word()); p.write(r, a, v) }
            26..=28 => { let a = spot(r, 0); p.program(r, a, None) }
            _ => { let (a, v) = (spot(r, 0), r.word()); p.program(r, a, Some(v)) }
        }
    }
    V::A(p.ops)
}
pub fn c32(cx: &Cx) {
    let mut f = cx.file("T_C32.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(120, 3000), |i| {
        let mut r = Rng::new(seed, (32 << 32) + i as u64);
        obj! {"name": format!("histories of ports {i}"), "ev": (0..3).map(|_| { let n = 20 + r.below(80); obj! {"ops": ports_history(&mut r, n)} }).collect::<Vec<_>>()}
    }));
}

// ---------------------------------------------------------------- C33
/// Another thread that holds a buffer.  It lets go when told to, or soon by itself: an access
/// that has to wait for it waits.
struct Other<T> { b: Arc<RwLock<T>>, th: Option<(std::thread::JoinHandle<()>, Arc<AtomicBool>)> }
impl<T: Send + Sync + 'static> Other<T> {
    fn new(b: Arc<RwLock<T>>) -> Other<T> { Other { b, th: None } }
    fn held(&self) -> bool { self.th.is_some() }
    fn hold(&mut self, read: bool, poison: bool, f: impl FnOnce(&mut T) + Send + 'static) {
        #[allow(dead_code)]
        enum G<'a, T> { R(RwLockReadGuard<'a, T>), W(RwLockWriteGuard<'a, T>) }
        if self.held() { return; }
        let (b, go, (tx, rx)) = (self.b.clone(), Arc::new(AtomicBool::new(false)), channel());
        let go2 = go.clone();
        let th = std::thread::spawn(move || {
            f(&mut b.write().unwrap_or_else(|e| e.into_inner()));
            let _g = if read { G::R(b.read().unwrap_or_else(|e| e.into_inner())) } else { G::W(b.write().unwrap_or_else(|e| e.into_inner())) };
            let _ = tx.send(());
            let t0 = Instant::now();
            while !go2.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_millis(2) { std::thread::park_timeout(Duration::from_millis(2)); }
            if poison { panic!("dies holding the buffer"); }
        });
        rx.recv().unwrap();
        self.th = Some((th, go));
    }
    fn release(&mut self) {
        if let Some((th, go)) = self.th.take() {
            go.store(true, Ordering::Relaxed);
            th.thread().unpark();
            let _ = th.join();
        }
    }
    fn get(&self) -> RwLockWriteGuard<'_, T> { self.b.write().unwrap_or_else(|e| e.into_inner()) }
}
type Kb = VecDeque<u8>;
fn all(q: &Kb) -> Vec<u8> { q.iter().copied().collect() }
fn some_bytes(r: &mut Rng, n: usize) -> Vec<u8> { (0..r.below(n + 1)).map(|_| if r.chance(1, 6) { *r.pick(&[0, 10, 255, 128]) } else { r.u16() as u8 }).collect() }

/// Accesses to the devices, one at a time.
fn contended_ops(r: &mut Rng, len: usize, poison: bool) -> V {
    let (kb, ds): (Arc<RwLock<Kb>>, Arc<RwLock<Vec<u8>>>) = Default::default();
    let mut h = DeviceHandler::new();
    h.set_keyboard(BufferedKeyboard::new(kb.clone()));
    h.set_display(BufferedDisplay::new(ds.clone()));
    let (mut ok, mut od) = (Other::new(kb), Other::new(ds));
    let mut ops = vec![];
    for _ in 0..len {
        match r.below(14) {
            0 | 1 if !ok.held() => {
                let f = some_bytes(r, 2);
                let g = f.clone();
                ok.hold(r.chance(1, 2), poison && r.chance(1, 3), move |q| q.extend(g));
                ops.push(arr!["feed", f]);
                ops.push(arr!["hold", "kb", true]);
            }
            0..=2 if ok.held() => { ok.release(); ops.push(arr!["hold", "kb", false]); }
            3 if !od.held() => { od.hold(r.chance(1, 2), poison && r.chance(1, 3), |_| ()); ops.push(arr!["hold", "ds", true]); }
            3 | 4 if od.held() => { od.release(); ops.push(arr!["hold", "ds", false]); }
            5 if !ok.held() => { let f = some_bytes(r, 3); ok.get().extend(&f); ops.push(arr!["feed", f]); }
            6..=8 => { let v = h.io_read(0xFE00, r.chance(1, 2)); ops.push(arr!["kbsr", v.is_some_and(|v| v & 0x8000 != 0)]); }
            9 | 10 => {
                let v = guarded(|| "KBDR".into(), || h.io_read(0xFE02, true)).unwrap_or(Some(999));
                let left = all(&ok.get());
                ops.push(arr!["kbdr", v.map_or(-1, |v| v as i64), left]);
            }
            11 => { let v = h.io_read(0xFE04, r.chance(1, 2)); ops.push(arr!["dsr", v.is_some_and(|v| v & 0x8000 != 0)]); }
            12 => {
                let v = r.u16() & if r.chance(1, 2) { 0xFF } else { 0xFFFF };
                let _ = guarded(|| "DDR".into(), || h.io_write(0xFE06, v));
                let out = od.get().clone();
                ops.push(arr!["ddr", v & 0xFF, out]);
            }
            _ => {
                // looking does not take; neither does the interrupt line
                match r.below(4) { 0 => { let _ = h.poll_interrupt(); }, 1 => { let _ = h.io_read(0xFE02, false); }, 2 => { let _ = h.io_read(0xFE06, true); }, _ => { let _ = h.io_write(0xFE02, 65); } }
                let (q, o) = (all(&ok.get()), od.get().clone());
                ops.push(arr!["quiet", q, o]);
            }
        }
    }
    ok.release();
    od.release();
    let (q, o) = (all(&ok.get()), od.get().clone());
    ops.push(arr!["quiet", q, o]);
    V::A(ops)
}
/// A program that does its input and output by waiting for readiness.
fn polite(r: &mut Rng) -> (Vec<u16>, V, usize, bool) {
    let mut c = Code::new(0x3000);
    let (mut script, mut need) = (vec![], 0);
    let [kbsr, kbdr, dsr, ddr, buf] = [0; 5].map(|_| c.label());
    let traps = r.chance(1, 2);
    let mut texts: Vec<(usize, Vec<u8>, bool)> = vec![];
    c.to(0x2000 | 5 << 9, buf, 9);
    for _ in 0..1 + r.below(4) {
        let n = 1 + r.below(3);
        match r.below(3) {
            0 | 1 => {
                let echo = r.chance(3, 4);
                for _ in 0..n {
                    if traps { c.w(0xF020); } else {
                        c.to(0xA000 | 1 << 9, kbsr, 9);
                        c.w(0x0600 | 0x1FE);           // BRzp back
                        c.to(0xA000, kbdr, 9);
                    }
                    c.w(0x7140);                        // STR R0, R5, #0
                    c.add_i(5, 5, 1);
                    if echo { if traps { c.w(0xF021); } else {
                        c.to(0xA000 | 1 << 9, dsr, 9);
                        c.w(0x0600 | 0x1FE);
                        c.to(0xB000, ddr, 9);
                    } }
                }
                need += n;
                script.push(arr![if echo { "echo" } else { "take" }, n]);
            }
            _ => {
                let t: Vec<u8> = (0..r.below(6)).map(|_| 1 + r.below(255) as u8).collect();
                if traps {
                    let l = c.label();
                    let packed = r.chance(1, 2);
                    c.to(0xE000, l, 9);
                    c.w(if packed { 0xF024 } else { 0xF022 });
                    texts.push((l, t.clone(), packed));
                } else {
                    for &b in &t {
                        let l = c.label();
                        c.to(0x2000, l, 9);
                        c.to(0xA000 | 1 << 9, dsr, 9);
                        c.w(0x0600 | 0x1FE);
                        c.to(0xB000, ddr, 9);
                        texts.push((l, vec![b], true));
                    }
                }
                script.push(arr!["put", t]);
            }
        }
    }
    c.w(0xF025);
    for (l, a) in [(kbsr, 0xFE00), (kbdr, 0xFE02), (dsr, 0xFE04), (ddr, 0xFE06), (buf, 0x4000)] { c.bind(l); c.w(a); }
    for (l, t, packed) in texts {
        c.bind(l);
        if packed { for p in t.chunks(2) { c.w(p[0] as u16 | (*p.get(1).unwrap_or(&0) as u16) << 8); } if t.len() % 2 == 0 { c.w(0); } }
        else { for b in t { c.w(b as u16); } c.w(0); }
    }
    (c.finish().unwrap().words, V::A(script), need, traps)
}
/// The same for a lot of input, which is all waiting already: `n` bytes taken and echoed in a loop.
fn bulk(r: &mut Rng, n: usize) -> (Vec<u16>, V, usize, bool) {
    let mut c = Code::new(0x3000);
    let [kbsr, kbdr, dsr, ddr, buf, num, top] = [0; 7].map(|_| c.label());
    let traps = r.chance(1, 2);
    let echo = r.chance(3, 4);
    c.to(0x2000 | 5 << 9, buf, 9);
    c.to(0x2000 | 4 << 9, num, 9);
    c.bind(top);
    if traps { c.w(0xF020); } else { c.to(0xA000 | 1 << 9, kbsr, 9); c.w(0x0600 | 0x1FE); c.to(0xA000, kbdr, 9); }
    c.w(0x7140);
    c.add_i(5, 5, 1);
    if echo { if traps { c.w(0xF021); } else { c.to(0xA000 | 1 << 9, dsr, 9); c.w(0x0600 | 0x1FE); c.to(0xB000, ddr, 9); } }
    c.add_i(4, 4, -1);
    c.to(0x0200, top, 9);
    c.w(0xF025);
    for (l, a) in [(kbsr, 0xFE00), (kbdr, 0xFE02), (dsr, 0xFE04), (ddr, 0xFE06), (buf, 0x4000), (num, n as u16)] { c.bind(l); c.w(a); }
    (c.finish().unwrap().words, arr![arr![if echo { "echo" } else { "take" }, n]], n, traps)
}
fn contended_prog(r: &mut Rng, poison: bool, many: usize) -> V {
    let (words, script, need, traps) = if many > 0 { bulk(r, many) } else { polite(r) };
    let flags = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, ignore_privilege: !traps, ..Default::default() };
    let mut s = Simulator::new(flags);
    let (kb, ds): (Arc<RwLock<Kb>>, Arc<RwLock<Vec<u8>>>) = Default::default();
    s.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
    s.device_handler.set_display(BufferedDisplay::new(ds.clone()));
    for (i, w) in words.iter().enumerate() { s.mem[0x3000 + i as u16] = Word::new_init(*w); }
    let (mut ok, mut od) = (Other::new(kb), Other::new(ds));
    let extra = r.below(3);
    let mut todo: Vec<u8> = (0..need + extra).map(|_| if r.chance(1, 5) { 0 } else { r.u16() as u8 }).collect();
    let fed = todo.clone();
    todo.reverse();
    let mut steps = 0;
    let rate = if many > 0 { *r.pick(&[50, 500]) } else { *r.pick(&[3, 6, 12]) };
    let mut res = "limit".to_string();
    if many > 0 { let mut b = ok.get(); while let Some(x) = todo.pop() { b.push_back(x); } }
    while steps < 4000 + many * 150 {
        steps += 1;
        if ok.held() { if r.chance(1, 3) { ok.release(); } }
        else if r.chance(1, rate) {
            let n = r.below(3).min(todo.len());
            let f: Vec<u8> = (0..n).map(|_| todo.pop().unwrap()).collect();
            ok.hold(r.chance(1, 2), poison && r.chance(1, 8), move |q| q.extend(f));
        } else if !todo.is_empty() && r.chance(1, 12) { let b = todo.pop().unwrap(); ok.get().push_back(b); }
        if od.held() { if r.chance(1, 3) { od.release(); } }
        else if r.chance(1, rate) { od.hold(r.chance(1, 2), poison && r.chance(1, 8), |_| ()); }
        let x = guarded(|| "contended step".into(), || s.step_in());
        if !matches!(x, Ok(Ok(()))) { res = res_name(&x); break; }
        if s.hit_halt() || s.mem[s.pc].get() == 0xF025 && s.pc < 0x4000 { res = "halt".into(); break; }
    }
    ok.release();
    od.release();
    let mut left = all(&ok.get());
    left.extend(todo.iter().rev());
    let got: Vec<u16> = (0..need as u16).map(|i| s.mem[0x4000 + i].get()).collect();
    let out = od.get().clone();
    obj! {"fed": fed, "got": got, "left": left, "out": out, "res": res, "script": script}
}
pub fn c33(cx: &Cx) {
    let mut f = cx.file("T_C33.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(160, 3000), |i| {
        let mut r = Rng::new(seed, (33 << 32) + i as u64);
        let poison = i % 8 == 7;
        let ev: Vec<V> = (0..6).map(|k| { let n = 40 + r.below(100); if k < 2 { obj! {"ops": contended_ops(&mut r, n, poison)} } else { contended_prog(&mut r, poison, 0) } }).collect();
        obj! {"name": format!("contention {i}"), "ev": ev}
    }));
    f.put_all(par(cx.n(16, 160), |i| {
        let mut r = Rng::new(seed, (330 << 32) + i as u64);
        let many = [256, 255, 257, 512, 1024, 1025, 2000, 4097, 300, 8200][i % 10];
        obj! {"name": format!("a lot of input {i}"), "ev": vec![contended_prog(&mut r, false, many)]}
    }));
}
