//! C11: calls of the built-in OS routines; C12: programs under real and virtual traps.
use crate::machine::*;
use crate::runs::*;
use crate::uprog::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt};
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::SimFlags;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

/// A keyboard and a display that are only ready after some polls, and forgive nothing.
#[derive(Default)]
struct Slow { ie: bool, kb: VecDeque<u8>, out: Vec<u8>, kwait: usize, dwait: usize, waits: VecDeque<usize>, early: usize }
impl Slow { fn next(&mut self) -> usize { let w = self.waits.pop_front().unwrap_or(0); self.waits.push_back(w); w } }
#[derive(Clone)]
struct SlowDev(Arc<Mutex<Slow>>);
impl ExternalDevice for SlowDev {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        let mut s = self.0.lock().unwrap();
        match addr {
            0xFE00 => {
                if s.kwait > 0 { s.kwait -= effectful as usize; return Some((s.ie as u16) << 14) }
                Some(if s.kb.is_empty() { 0 } else { 0x8000 } | (s.ie as u16) << 14)
            }
            0xFE02 => {
                if s.kwait > 0 || s.kb.is_empty() { s.early += 1; return None; }
                let v = *s.kb.front().unwrap() as u16;
                if effectful { s.kb.pop_front(); s.kwait = s.next(); }
                Some(v)
            }
            0xFE04 => {
                if s.dwait > 0 { s.dwait -= effectful as usize; return Some(0) }
                Some(0x8000)
            }
            _ => None,
        }
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        let mut s = self.0.lock().unwrap();
        if addr != 0xFE06 { return false; }
        if s.dwait > 0 { s.early += 1; return false; }
        s.out.push(data as u8);
        s.dwait = s.next();
        true
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> { None }
}

fn text(r: &mut Rng, packed: bool) -> Vec<u16> {
    let n = if r.chance(1, 40) { *r.pick(&[254usize, 255, 256, 257, 511, 512, 1023, 1024, 1030, 2100, 4096, 4500]) + r.below(3) } else { match r.below(6) { 0 => 0, 1 => 1, 2 => 40 + r.below(80), _ => r.below(12) } };
    let mut v = vec![];
    if r.chance(1, 12) {
        // every byte
        let mut all: Vec<u16> = (1..256).collect();
        for j in 0..all.len() { let k = r.below(j + 1); all.swap(j, k); }
        for j in 0..all.len() { v.push(if packed { all[j] | all[(j + 100) % 255] << 8 } else { all[j] }); }
    } else { for _ in 0..n {
        let (a, b) = (1 + r.below(255) as u16, 1 + r.below(255) as u16);
        v.push(if packed { a | b << 8 } else { a | if r.chance(1, 6) { b << 8 } else { 0 } });
    } }
    if packed {
        match r.below(4) { 0 => v.push(0), 1 => v.push((1 + r.below(255) as u16) << 8), _ => v.push(1 + r.below(255) as u16) }
        v.push(r.u16());
    } else {
        v.push(0);
        v.push(0x41);
    }
    v
}
pub fn c11(cx: &Cx) {
    let mut f = cx.file("T_C11.ndjson");
    let seed = cx.seed;
    // every byte for GETC, OUT and IN in two traces each; strings
    f.put_all(par(cx.n(96, 640), |i| {
        let mut r = Rng::new(seed, (11 << 32) + i as u64);
        let fl = SimFlags { use_real_traps: r.chance(1, 2), debug_frames: r.chance(1, 4), ignore_privilege: r.chance(1, 8), strict: r.chance(1, 4), machine_init: MachineInitStrategy::Seeded { seed: r.seed() } };
        let mut ev = vec![];
        let mut m = M::new(fl, &[]);
        if fl.strict { for a in 0..=0xFFFFu16 { let v = m.sim.mem[a].get(); m.sim.mem[a].set(v); } m.resync(); }
        let slow = SlowDev(Default::default());
        let is_slow = i % 3 == 2;
        if is_slow {
            m.sim.device_handler.set_keyboard(slow.clone());
            m.sim.device_handler.set_display(slow.clone());
        }
        for k in 0..32 {
            let byte = (i * 32 + k) as u8;   // eight traces go through all bytes
            let (trap, both) = match (i / 8 + k) % 6 { 0 => (0x20, true), 1 => (0x21, true), 2 => (0x23, true), 3 => (0x22, false), 4 => (0x24, false), _ => (if k % 12 == 5 { 0x25 } else { *r.pick(&[0x20, 0x21, 0x22, 0x24]) }, true) };
            let _ = both;
            let user = r.chance(2, 3);
            let at = if user { 0x3000 + r.below(0xC000) as u16 } else { 0x1000 + r.below(0xE000) as u16 };
            m.poke(at, 0xF000 | trap);
            for x in 0..8 { let v = r.word(); m.set_reg(x, v); }
            let (us, ss) = (r.u16(), 0x0900 + r.below(0x0600) as u16);
            m.set_reg(6, if user { us } else { ss });
            m.set_ssp(if user { ss } else { us });
            let mut psr = (gen_psr(&mut r) & 0x7FFF) | (user as u16) << 15;
            // keyboard interrupts on, but held back by the priority
            let ie = r.chance(1, 2);
            if ie { psr |= 0x0400; }
            if is_slow { slow.0.lock().unwrap().ie = ie; } else { let _ = m.sim.device_handler.io_write(0xFE00, (ie as u16) << 14); }
            m.set_psr(psr);
            m.sim.pc = at;
            let mut len = 0;
            if trap == 0x22 || trap == 0x24 {
                let ws = text(&mut r, trap == 0x24);
                let mut base;
                loop {
                    base = if r.chance(1, 8) { 0xFDFF - ws.len() as u16 } else { 0x3000 + r.below(0xCE00 - ws.len()) as u16 };
                    let d = at.wrapping_sub(base) as usize;
                    if d >= ws.len() && base as usize + ws.len() <= 0xFE00 { break; }
                }
                for (j, &w) in ws.iter().enumerate() { m.poke(base + j as u16, w); }
                m.set_reg(0, base);
                len = ws.len() as u16 + 2;
            } else if trap == 0x21 { let hi = if r.chance(1, 2) { r.u16() & 0xFF00 } else { 0 }; m.set_reg(0, hi | byte as u16); }
            let mut input: Vec<u8> = (0..r.below(4)).map(|_| r.u16() as u8).collect();
            if trap == 0x20 || trap == 0x23 { input.insert(0, byte); }
            if r.chance(1, 24) { let n = *r.pick(&[255, 256, 257, 512, 1024, 2000]); while input.len() < n { input.push(r.u16() as u8); } }
            if is_slow {
                let mut s = slow.0.lock().unwrap();
                s.kb = input.iter().copied().collect();
                s.out.clear();
                s.waits = (0..5).map(|_| r.below(6)).collect();
                s.kwait = r.below(5);
                s.dwait = r.below(5);
                s.early = 0;
            } else {
                *m.kb.write().unwrap() = input.iter().copied().collect();
                m.ds.write().unwrap().clear();
            }
            let view: Vec<u16> = (0..len.max(260)).map(|j| m.sim.mem[m.reg(0).wrapping_add(j)].get()).collect();
            let view: Vec<u16> = if trap == 0x22 || trap == 0x24 { view } else { vec![] };
            let pre = snapshot(&m.sim);
            let mut s0 = m.state();
            let depth = m.sim.frame_stack.len();
            m.set_mcr(true);
            let mut end = "limit".to_string();
            let desc = || format!("trap x{trap:02X} {fl:?}");
            if trap == 0x25 {
                end = String::new();
                for _ in 0..3 {    // once stopped, it stays stopped
                    let q = guarded(desc, || m.sim.run_while({ let mut n = 0; move |_| { n += 1; n < 5000 } }));
                    end += &match q { Ok(Ok(())) if m.sim.hit_halt() => "halt ".to_string(), q => res_name(&q) };
                }
            } else {
                let late = input.clone();
                // half of the time the input only arrives while the routine is waiting
                let when = if !is_slow && r.chance(1, 2) { m.kb.write().unwrap().clear(); r.below(40) } else { usize::MAX };
                for n in 0..1_500_000 {
                    if n == when { m.kb.write().unwrap().extend(&late); }
                    let q = guarded(desc, || m.sim.step_in());
                    if !matches!(q, Ok(Ok(()))) { end = res_name(&q); break; }
                    if m.sim.frame_stack.len() == depth && m.sim.pc == at.wrapping_add(1) { end = "ret".into(); break; }
                    if !m.mcr() { end = "halt".into(); break; }
                }
                if when != usize::MAX && end == "ret" && m.kb.read().unwrap().is_empty() && !matches!(trap, 0x20 | 0x23) { m.kb.write().unwrap().extend(&late); }
            }
            if let V::O(x) = &mut s0 { for (k, v) in x { if *k == "kb" { *v = V::from(input.clone()); } } }
            let s1 = m.state();
            let diff: Vec<V> = (0..=0xFFFFu16).filter(|&a| m.sim.mem[a].get() != pre[a as usize].get()).map(|a| arr![a, m.sim.mem[a].get()]).collect();
            let (kb2, out, early) = if is_slow {
                let s = slow.0.lock().unwrap();
                (s.kb.iter().copied().collect::<Vec<u8>>(), s.out.clone(), s.early)
            } else { (m.kb.read().unwrap().iter().copied().collect(), m.ds.read().unwrap().clone(), 0) };
            let stop = !(end == "ret" || end.starts_with("halt"));
            ev.push(obj! {"trap": trap, "user": user, "pre": s0, "post": s1, "str": view, "kb2": kb2, "out": out, "early": early, "end": end,
                "diff": diff, "real": fl.use_real_traps, "slow": is_slow});
            m.resync();
            if stop { break; }
        }
        obj! {"name": format!("os calls {i}"), "ev": ev}
    }));
    // the OS image itself, for the specification's machine to run
    let sim = lc3_ensemble::sim::Simulator::new(SimFlags::default());
    let top = (0..0x3000u16).filter(|&a| sim.mem[a].is_init()).max().unwrap_or(0);
    let image: Vec<u16> = (0..=top).map(|a| sim.mem[a].get()).collect();
    f.put_all((0..16).map(|i| {
        let mut r = Rng::new(seed, (111 << 32) + i as u64);
        let mut ev = vec![];
        for k in 0..cx.n(6, 24) {
            let trap = [0x20, 0x21, 0x23, 0x22, 0x24, 0x20][k % 6];
            let byte = if k < 3 { [0u8, 0xFF, 0x80][k] } else { r.u16() as u8 };
            let ws = match trap { 0x22 | 0x24 => loop { let t = text(&mut r, trap == 0x24); if t.len() < 8 { break t; } }, _ => vec![] };
            let mut regs: Vec<u16> = (0..8).map(|_| r.word()).collect();
            let user = r.chance(1, 2);
            if !ws.is_empty() { regs[0] = 0x4000; } else if trap == 0x21 { regs[0] = byte as u16 | (r.u16() & 0xFF00); }
            regs[6] = if user { r.u16() } else { 0x3000 };
            ev.push(obj! {"image": true, "trap": trap, "r": regs, "user": user, "cc": *r.pick(&[1u16, 2, 4]), "kb": vec![byte, 7], "str": ws, "real": r.chance(1, 2)});
        }
        obj! {"name": format!("os image {i}"), "mem": image.clone(), "ev": ev}
    }).collect());
}

// ---------------------------------------------------------------- C12
/// Random words as a program: what runs, runs until it halts or faults.
fn soup(r: &mut Rng) -> UProg {
    let mode = Mode { outside: 4, ..ANY };
    let n = 60 + r.below(120);
    let ws = (0..n).map(|j| {
        let pc = 0x3000 + j as u16;
        match r.below(12) {
            0 => *r.pick(&[0xF021, 0xF022, 0xF024, 0xF020, 0xF023, 0xF025, 0xF022, 0xF021]),
            1 => 0xE000 | (r.below(8) as u16) << 9 | (r.below(64) as u16),
            2 => 0x0E00 | r.below(9) as u16,
            _ => loop {
                let w = gen_instr(r, pc, &mode);
                match w >> 12 { 8 | 13 => if r.chance(1, 10) { break w }, 12 | 4 => if r.chance(1, 4) { break w }, 15 => if r.chance(1, 3) { break w }, _ => break w }
            },
        }
    }).collect();
    UProg { code: vec![(0x3000, ws)], entry: 0x3000, subs: vec![], blkw: vec![] }
}
pub fn c12(cx: &Cx) {
    let mut f = cx.file("T_C12.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(192, 2400), |i| {
        let mut r = Rng::new(seed, (12 << 32) + i as u64);
        let mut ev = vec![];
        for k in 0..8 {
            let p = if k % 2 == 0 {
                let end = match r.below(6) { 0 | 1 => End::Halt, 2 => End::BadTrap, _ => *r.pick(FAULT_ENDS) };
                let mut o = UOpts::new(end);
                o.size = 4;
                o.uninit = r.chance(1, 3);
                generate(&mut r, &o, 0x3000)
            } else { soup(&mut r) };
            let s = r.next();
            let input: Vec<u8> = (0..300).map(|_| r.u16() as u8).collect();
            let regs: Vec<u16> = (0..8).map(|_| r.word()).collect();
            let (strict, frames) = (false, r.chance(1, 4));
            let run = |real: bool| {
                let fl = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: s }, use_real_traps: real, strict, debug_frames: frames, ..Default::default() };
                let mut m = M::new(fl, &[]);
                load(&mut m, &p);
                for x in 0..8 { m.set_reg(x, regs[x as usize]); }
                m.kb.write().unwrap().extend(&input);
                let start = snapshot(&m.sim);
                let mut n = 0;
                let res = guarded(|| format!("program {i}.{k} real traps {real}"), || m.sim.run_while(|_| { n += 1; n < if real { 60000 } else { 15000 } }));
                summary(&mut m, &start, &res)
            };
            let (a, b) = (run(false), run(true));
            ev.push(obj! {"a": a, "b": b});
        }
        obj! {"name": format!("programs {i}"), "ev": ev}
    }));
}
