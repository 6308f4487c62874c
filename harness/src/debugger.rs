//! C13: running, stepping over and out, pausing, against single steps.
use crate::isa::reg;
use crate::machine::*;
use crate::runs::load;
use crate::uprog::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{Interrupt, InterruptFromFn};
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::SimFlags;
use std::sync::atomic::Ordering::Relaxed;

pub fn digest(m: &mut M) -> String {
    let mut h = 0xcbf29ce484222325u64;
    let mut add = |v: u64| { h ^= v; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; };
    for x in 0..8 { let w = m.sim.reg_file[reg(x)]; add(w.get() as u64 | (w.is_init() as u64) << 16); }
    let ssp = m.ssp();
    add(ssp as u64);
    add(m.sim.pc as u64);
    add(m.sim.psr().get() as u64);
    add(m.sim.frame_stack.len());
    // (the saved stack pointer was just read through its port, and MCR's port may be read too: skip the I/O page)
    for a in 0..0xFE00u16 { let w = m.sim.mem[a]; add(w.get() as u64 | (w.is_init() as u64) << 16); }
    for &b in m.kb.read().unwrap().iter() { add(b as u64); }
    add(999);
    for &b in m.ds.read().unwrap().iter() { add(b as u64); }
    format!("{h:016x}")
}
#[derive(Clone, Copy)]
pub enum Bp { Pc(u16), Reg(u8, usize, u16), Mem(u16, usize, u16) }
const CMP: [&str; 8] = ["never", "lt", "eq", "le", "gt", "ne", "ge", "always"];
fn cmp(k: usize, v: u16) -> Comparator {
    match k { 0 => Comparator::Never, 1 => Comparator::Lt(v), 2 => Comparator::Eq(v), 3 => Comparator::Le(v), 4 => Comparator::Gt(v), 5 => Comparator::Ne(v), 6 => Comparator::Ge(v), _ => Comparator::Always }
}
impl Bp {
    pub fn real(self) -> Breakpoint {
        match self { Bp::Pc(a) => Breakpoint::PC(a), Bp::Reg(x, k, v) => Breakpoint::Reg { reg: reg(x), value: cmp(k, v) }, Bp::Mem(a, k, v) => Breakpoint::Mem { addr: a, value: cmp(k, v) } }
    }
    fn json(self) -> V {
        match self { Bp::Pc(a) => arr!["pc", a, "eq", a], Bp::Reg(x, k, v) => arr!["reg", x, CMP[k], v], Bp::Mem(a, k, v) => arr!["mem", a, CMP[k], v] }
    }
}
struct Row { pc: u16, r: Vec<u16>, mem: Vec<u16>, d: u64, n: u64, dig: String, res: String, off: bool, halted: bool }

pub fn c13(cx: &Cx) {
    let mut f = cx.file("T_C13.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(160, 1600), |i| {
        let mut r = Rng::new(seed, (13 << 32) + i as u64);
        let mut o = UOpts::new(match r.below(6) { 0 => End::Mcr, 1 | 2 => *r.pick(FAULT_ENDS), 3 => End::BadTrap, _ => End::Halt });
        o.size = 2 + r.below(3);
        o.uninit = r.chance(1, 4);
        // (sometimes elsewhere, also in place of the operating system)
        let sys = r.chance(1, 8);
        let org = if sys { *r.pick(&[0x200, 0x200, 0x1FE, 0x100, 0x0, 0x2F0]) } else if r.chance(1, 5) { 0x3000 + r.below(0xB000) as u16 } else { 0x3000 };
        let p = generate(&mut r, &o, org);
        let fl = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, use_real_traps: !sys && r.chance(1, 2), strict: r.chance(1, 5), debug_frames: r.chance(1, 3),
            ignore_privilege: sys || o.end == End::Mcr || r.chance(1, 8), ..Default::default() };
        let input: Vec<u8> = (0..60).map(|_| r.u16() as u8).collect();
        let irqs: Vec<(u64, u8, u8)> = (0..if r.chance(1, 2) { 0 } else { r.below(6) }).map(|_| (r.below(200) as u64, 0x80 + r.below(3) as u8, r.below(8) as u8)).collect();
        let ext = if r.chance(1, 8) { Some(r.below(200) as u64) } else { None };
        // the count of instructions may start anywhere (and wraps)
        let base = if r.chance(1, 2) { 0 } else { r.pick(&[u64::MAX, u64::MAX, u32::MAX as u64, i64::MAX as u64, 0xFFFF, u64::MAX >> 16]).wrapping_sub(r.below(100) as u64) };
        // sometimes the program gets stuck on the spot, or between two
        let stuck = r.chance(1, 6).then(|| (org.wrapping_add(r.below(24) as u16), *r.pick(&[0x0FFF, 0x0FFF, 0x03FF, 0x0DFF, 0x07FF, 0x0FFE, 0x4FFF, 0x4FFE])));
        let make = || {
            let mut m = M::new(fl, &[]);
            load(&mut m, &p);
            if let Some((a, w)) = stuck { m.poke(a, w); }
            m.sim.instructions_run = base;
            m.kb.write().unwrap().extend(&input);
            let irqs = irqs.clone();
            let mut n = 0u64;
            let _ = m.sim.device_handler.add_device(InterruptFromFn::new(move || {
                n += 1;
                if Some(n - 1) == ext { return Some(Interrupt::external(std::fmt::Error)); }
                irqs.iter().find(|q| q.0 == n - 1).map(|q| Interrupt::vectored(q.1, q.2))
            }), &[]);
            m
        };
        // where breakpoints may look
        let watch: Vec<u16> = (0..3).map(|_| p.blkw[0].0.wrapping_sub(r.below(40) as u16)).collect();
        // --- single steps
        let mut h = make();
        let max = 60 + r.below(160);
        let mut rows: Vec<Row> = vec![];
        let mut row = |m: &mut M, res: String, halted: bool| {
            let off = !m.mcr();
            let x = Row { pc: m.sim.pc, r: (0..8).map(|x| m.reg(x)).collect(), mem: watch.iter().map(|&a| m.sim.mem[a].get()).collect(), d: m.sim.frame_stack.len(), n: m.sim.instructions_run.wrapping_sub(base),
                dig: digest(m), res, off, halted };
            rows.push(x);
        };
        h.set_mcr(true);
        row(&mut h, "ok".into(), false);
        let mut bad = 0;
        for _ in 0..max {
            h.set_mcr(true);
            let (pc, n) = (h.sim.pc, h.sim.instructions_run);
            let q = guarded(|| format!("single step in {i}"), || h.sim.step_in());
            let res = res_name(&q);
            let halted = res == "ok" && !fl.use_real_traps && h.sim.pc == pc && h.sim.instructions_run == n && h.sim.mem[pc].get() == 0xF025;
            if res != "ok" || halted { bad += 1 }
            let stop = res == "panic" || bad > 2;
            row(&mut h, res, halted);
            if stop { break; }
        }
        let last = rows.len() - 1;
        // --- the same in segments, several ways
        let mut ways = vec![];
        for way in 0..4 {
            let mut m = make();
            let mut ops = vec![];
            let mut kept: Vec<Bp> = vec![];
            let mut from = 0;   // only to choose interesting parameters; the specification finds out for itself
            for _ in 0..if way == 0 { 1 } else { 12 } {
                let mut bps = vec![];
                m.sim.breakpoints.clear();
                if !r.chance(1, 3) { kept.clear(); }
                for &b in &kept { m.sim.breakpoints.insert(b.real()); bps.push(b.json()); }
                for _ in 0..if kept.is_empty() { *r.pick(&[0, 0, 1, 1, 2]) } else { 0 } {
                    let at = if r.chance(1, 3) { (from + 1 + r.below(4)).min(last) } else { r.below(last + 1) };
                    let b = match r.below(4) {
                        0 | 1 => Bp::Pc(rows[at].pc),
                        2 => { let x = r.below(8); Bp::Reg(x as u8, r.below(8), rows[at].r[x]) }
                        _ => { let x = r.below(3); Bp::Mem(watch[x], r.below(8), rows[at].mem[x]) }
                    };
                    m.sim.breakpoints.insert(b.real());
                    bps.push(b.json());
                    kept.push(b);
                }
                // sometimes many that stand elsewhere
                if r.chance(1, 8) {
                    for k in 0..1 + r.below(40) {
                        let b = match r.below(4) { 0 => Bp::Reg(r.below(8) as u8, 0, r.u16()), 1 => Bp::Mem(watch[r.below(3)], 0, r.u16()), _ => Bp::Pc(0xE000 + k as u16) };
                        m.sim.breakpoints.insert(b.real());
                        bps.push(b.json());
                    }
                }
                let lim = match r.below(6) { 0 => 0, 1 => 1, 2 => u64::MAX, _ => r.below(60) as u64 };
                let cap = (last - from).saturating_sub(3);
                let desc = || format!("run in {i}");
                let mcr = m.sim.mcr().clone();
                let n0 = m.sim.instructions_run;
                let (kind, arg, res) = match r.below(if way == 0 { 2 } else { 9 }) {
                    0 => ("limit", lim.min(1 << 30), guarded(desc, || { let k = lim; bounded(&mut m.sim, cap, |s| s.run_with_limit(k)) })),
                    1 => ("run", 0, guarded(desc, || bounded(&mut m.sim, cap, |s| s.run()))),
                    2 => ("over", 0, guarded(desc, || bounded(&mut m.sim, cap, |s| s.step_over()))),
                    3 => ("out", 0, guarded(desc, || bounded(&mut m.sim, cap, |s| s.step_out()))),
                    4 => ("in", 0, guarded(desc, || { m.sim.mcr().store(true, Relaxed); m.sim.step_in() })),
                    5 => { let k = r.below(40); let mut c = 0; ("while", k as u64, guarded(desc, || m.sim.run_while(|_| { c += 1; c <= k }))) }
                    6 => { let d = r.below(4) as u64; let mut c = 0; ("depth", d, guarded(desc, || m.sim.run_while(|s| { c += 1; c <= cap && s.frame_stack.len() <= d }))) }
                    7 => { let k = r.below(30); let mut c = 0; ("off", k as u64, guarded(desc, || m.sim.run_while(|_| { if c == k { mcr.store(false, Relaxed) } c += 1; c <= cap }))) }
                    _ => { let k = r.below(30) as u64; ("count", k, guarded(desc, || m.sim.run_while(|s| s.instructions_run.wrapping_sub(n0) < k && s.instructions_run.wrapping_sub(n0) < 60))) }
                };
                // (a program that reads the MCR itself sees that the host cleared it)
                if kind == "off" && m.sim.observer.get_mem_accesses(0xFFFE).read() { break; }
                let res = res_name(&res);
                let dig = digest(&mut m);
                let n = m.sim.instructions_run.wrapping_sub(base);
                // where that probably is
                from = (from..=last).find(|&j| rows[j].dig == dig && rows[j].n == n).unwrap_or(from);
                let stop = res == "panic" || res == "Interrupt" || from + 4 >= last;
                ops.push(obj! {"op": kind, "arg": arg, "bps": bps, "res": res, "dig": dig, "n": n, "hb": m.sim.hit_breakpoint(), "hh": m.sim.hit_halt(), "cap": cap});
                if stop { break; }
            }
            ways.push(obj! {"ops": ops});
        }
        let h: Vec<V> = rows.iter().map(|x| obj! {"pc": x.pc, "r": x.r.clone(), "mem": x.mem.clone(), "d": x.d, "n": x.n, "dig": x.dig.clone(), "res": x.res.clone(), "off": x.off, "halted": x.halted}).collect();
        obj! {"name": format!("history {i}"), "h": h, "watch": watch, "ev": ways}
    }));
}
/// run, step_over and step_out cannot be limited from outside: an external interrupt after
/// `cap` more steps (the end of the recorded history) stops them.
fn bounded(sim: &mut lc3_ensemble::sim::Simulator, cap: usize, go: impl FnOnce(&mut lc3_ensemble::sim::Simulator) -> Result<(), lc3_ensemble::sim::SimErr>) -> Result<(), lc3_ensemble::sim::SimErr> {
    let mut n = 0;
    let id = sim.device_handler.add_device(InterruptFromFn::new(move || { n += 1; (n > cap).then(|| Interrupt::external(std::fmt::Error)) }), &[]).unwrap();
    let r = go(sim);
    sim.device_handler.remove_device(id);
    r
}
