//! C29, C30, C31: new machines, loading, resetting, reproducing.
use crate::isa::reg;
use crate::machine::*;
use crate::uprog::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, NullDevice, TimerDevice};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{MemAccessCtx, SimFlags, Simulator};
use std::collections::{BTreeSet, VecDeque};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, RwLock};

fn regs(s: &Simulator) -> Vec<u16> { (0..8).map(|i| s.reg_file[reg(i)].get()).collect() }
fn snap(s: &Simulator) -> Vec<Word> { (0..=0xFFFFu16).map(|a| s.mem[a]).collect() }
/// Maximal runs of addresses with the same key.
fn runs_of<K: PartialEq + Copy>(it: impl Iterator<Item = (u16, K)>) -> Vec<(u16, u16, K)> {
    let mut v: Vec<(u16, u16, K)> = vec![];
    for (a, k) in it {
        match v.last_mut() { Some((_, h, x)) if *x == k && *h as u32 + 1 == a as u32 => *h = a, _ => v.push((a, a, k)) }
    }
    v
}

// ---------------------------------------------------------------- C29
/// Blocks of a file: start, and its words as runs <<how many, word or -1>>.
type Blocks = Vec<(u16, Vec<(u32, i64)>)>;
fn len(b: &[(u32, i64)]) -> u32 { b.iter().map(|r| r.0).sum() }
fn gen_run(r: &mut Rng) -> (u32, i64) {
    match r.below(6) {
        0 => (1 + r.below(4) as u32, -1),
        1 => { let m = if r.chance(1, 5) { 3000 } else { 40 }; (1 + r.below(m) as u32, -1) }
        _ => (1, r.word() as i64),
    }
}
/// Blocks that fit between lo and hi (exclusive), in some order.
fn gen_blocks(r: &mut Rng, lo: u32, hi: u32, n: usize) -> Blocks {
    let mut v: Blocks = vec![];
    let mut at = lo;
    for k in 0..n {
        let b: Vec<(u32, i64)> = (0..match r.below(6) { 0 => 1, 1 => 30, _ => 1 + r.below(9) }).map(|_| gen_run(r)).collect();
        let n = len(&b);
        if at + n > hi { break; }
        let room = hi - at - n;
        let gap = match r.below(6) { 0 => 0, 1 if k == 0 => 0, 2 => room, 3 => r.below(5).min(room as usize) as u32, _ => r.below((room / 3 + 1) as usize) as u32 };
        v.push(((at + gap) as u16, b));
        at += gap + n;
    }
    if r.chance(1, 2) { v.reverse(); }
    v
}
fn source(r: &mut Rng, bs: &Blocks, tag: &str) -> String {
    let mut s = String::new();
    let mut l = 0;
    for (a, b) in bs {
        s += &format!(".orig x{a:04X}\n");
        let mut i = 0;
        while i < b.len() {
            if r.chance(1, 10) { s += &format!("{tag}{l} "); l += 1; }
            // a string, where the words happen to make one
            let t: Vec<i64> = b[i..].iter().take_while(|x| x.0 == 1 && (32..127).contains(&x.1) && x.1 != 34 && x.1 != 92).map(|x| x.1).collect();
            if b.get(i + t.len()).is_some_and(|x| x.0 == 1 && x.1 == 0) && !t.is_empty() {
                s += &format!(".stringz \"{}\"\n", t.iter().map(|&c| c as u8 as char).collect::<String>());
                i += t.len() + 1;
                continue;
            }
            match b[i] { (n, -1) => s += &format!(".blkw {n}\n"), (_, w) => s += &format!(".fill x{w:04X}\n") }
            i += 1;
        }
        s += ".end\n";
    }
    s
}
/// A binary object file written by hand: blocks anywhere.
fn binary(bs: &Blocks) -> Vec<u8> {
    let mut v = b"obj\x21\x10\x00\x01".to_vec();
    for (a, b) in bs {
        v.push(0);
        v.extend(a.to_le_bytes());
        v.extend((len(b) as u16).to_le_bytes());
        for &(n, w) in b { for _ in 0..n { if w < 0 { v.extend([0, 0, 0]); } else { v.push(0xFF); v.extend((w as u16).to_le_bytes()); } } }
    }
    v
}
pub fn build(r: &mut Rng) -> Option<(Blocks, ObjectFile)> {
    let one = |r: &mut Rng, bs: &Blocks, tag: &str| -> Option<ObjectFile> {
        let s = source(r, bs, tag);
        let ast = parse_ast(&s).ok()?;
        if r.chance(1, 2) { assemble(ast).ok() } else { assemble_debug(ast, &s).ok() }
    };
    let whole = r.chance(1, 6);
    let (bs, o) = match r.below(10) {
        0 | 1 => {
            // two files linked; one needs the other
            let cut = 0x3000 + r.below(0x4000) as u32;
            let (n1, n2) = (1 + r.below(3), 1 + r.below(3));
            let a = gen_blocks(r, if whole { 0 } else { 0x3000 }, cut, n1);
            let mut b = gen_blocks(r, cut, 0xFE00, n2);
            if a.is_empty() || b.is_empty() { return None; }
            let x = ObjectFile::link(one(r, &a, "A")?, one(r, &b, "B")?).ok()?;
            b.extend(a);
            (b, x)
        }
        2 | 3 => {
            // by hand, with blocks up to and over the end of memory
            let mut bs = { let n = r.below(3); gen_blocks(r, 0x3000, 0xF000, n) };
            let b: Vec<(u32, i64)> = (0..2 + r.below(12)).map(|_| if r.chance(1, 3) { (1 + r.below(200) as u32, -1) } else { (1, r.word() as i64) }).collect();
            let n = len(&b);
            let start = 0x10000 - match r.below(4) { 0 => n, 1 => n.saturating_sub(1).max(1), _ => 1 + r.below(n as usize) as u32 };
            if start < 0xF000 { return None; }
            bs.push((start as u16, b));
            let o = catch(|| BinaryFormat::deserialize(&binary(&bs))).ok()??;
            (bs, o)
        }
        k => {
            let n = 1 + r.below(5);
            let bs = gen_blocks(r, if whole { 0 } else { 0x3000 }, 0xFE00, n);
            let o = one(r, &bs, "L")?;
            let o = match k { 4 => BinaryFormat::deserialize(&BinaryFormat::serialize(&o))?, 5 => TextFormat::deserialize(&TextFormat::serialize(&o))?, _ => o };
            (bs, o)
        }
    };
    Some((bs, o))
}
fn strategy(r: &mut Rng) -> MachineInitStrategy {
    match r.below(4) { 0 => MachineInitStrategy::Unseeded, 1 => MachineInitStrategy::Known { value: r.word() }, _ => MachineInitStrategy::Seeded { seed: r.seed() } }
}
fn any_flags(r: &mut Rng) -> SimFlags {
    SimFlags { strict: r.chance(1, 3), use_real_traps: r.chance(1, 2), machine_init: strategy(r), debug_frames: r.chance(1, 2), ignore_privilege: r.chance(1, 3) }
}
/// What happened to the machine before a load does not matter.
fn disturb(s: &mut Simulator, r: &mut Rng) {
    match r.below(5) {
        0 => { for i in 0..8 { s.reg_file[reg(i)].set(r.word()); } s.pc = r.word(); }
        1 => { let _ = guarded(|| "disturbing run".into(), || s.run_with_limit(r.below(50) as u64)); }
        2 => for _ in 0..40 { let a = r.u16(); if a < 0xFE00 { crate::strict::fog(r, &mut s.mem[a]); } },
        3 => for _ in 0..40 { let a = r.u16(); s.mem[a] = Word::new_init(r.word()); },
        _ => s.reset(),
    }
}
fn load_event(s: &mut Simulator, bs: &Blocks, o: &ObjectFile) -> V {
    let before = snap(s);
    let ctx = MemAccessCtx::omnipotent();
    let state = |s: &mut Simulator| arr![regs(s), (0..8).map(|i| s.reg_file[reg(i)].is_init()).collect::<Vec<_>>(), s.pc, s.psr().get()];
    let _ = ctx;
    let pre = state(s);
    let x = guarded(|| format!("load {bs:?}"), || s.load_obj_file(o));
    let post = state(s);
    let diff = runs_of((0..=0xFFFFu16).filter(|&a| s.mem[a] != before[a as usize]).map(|a| (a, ())));
    let cells: Vec<V> = bs.iter().map(|(a, b)| {
        let mut v: Vec<(u32, i64)> = vec![];
        for j in 0..len(b) {
            let w = s.mem[a.wrapping_add(j as u16)];
            let k = if w.is_init() { w.get() as i64 } else { -1 };
            match v.last_mut() { Some((n, y)) if *y == k => *n += 1, _ => v.push((1, k)) }
        }
        V::A(v.into_iter().map(|(n, k)| arr![n, k]).collect())
    }).collect();
    let blocks: Vec<V> = bs.iter().map(|(a, b)| arr![*a, b.iter().map(|&(n, w)| arr![n, w]).collect::<Vec<_>>()]).collect();
    obj! {"blocks": blocks, "cells": cells, "diff": diff.iter().map(|d| arr![d.0, d.1]).collect::<Vec<_>>(), "pre": pre, "post": post,
        "res": match x { Ok(Ok(())) => "ok".to_string(), Ok(Err(e)) => err_name(&e), Err(_) => "panic".into() }}
}
fn os_addrs() -> BTreeSet<u16> { lc3_ensemble::sim::_os_obj_file().addr_iter().map(|x| x.0).collect() }
pub fn c29(cx: &Cx) {
    let mut f = cx.file("T_C29.ndjson");
    let seed = cx.seed;
    // new machines
    let text = std::fs::read_to_string("/repo/src/os.asm").unwrap_or_default();
    let addrs = os_addrs();
    let mut r = cx.rng(29);
    let mut mems: Vec<V> = vec![];
    for i in 0..24 {
        let mut s = Simulator::new(any_flags(&mut r));
        if i % 3 == 2 {
            // a used one, reset
            for a in 0..=0xFFFFu16 { if r.chance(1, 3) { s.mem[a] = Word::new_init(r.u16()); } }
            s.reset();
        }
        let ws: Vec<V> = addrs.iter().map(|&a| arr![a, s.mem[a].get()]).collect();
        let io = runs_of((0xFE00..=0xFFFFu16).map(|a| (a, s.mem[a].get())));
        mems.push(obj! {"ws": ws, "io": io.iter().map(|x| arr![x.0, x.1, x.2]).collect::<Vec<_>>()});
    }
    // the words the image leaves open, when the assembler's source can be read
    f.put(&obj! {"name": "new machines", "ev": vec![obj! {"text": bytes(&text), "mems": mems}]});
    f.put_all(par(cx.n(240, 6000), |i| {
        let mut r = Rng::new(seed, (2900 << 32) + i as u64);
        let mut s = Simulator::new(any_flags(&mut r));
        let mut ev = vec![];
        for _ in 0..6 {
            if r.chance(2, 3) { disturb(&mut s, &mut r); }
            if let Some((bs, o)) = build(&mut r) { ev.push(load_event(&mut s, &bs, &o)); }
        }
        obj! {"name": format!("loads {i}"), "ev": ev}
    }));
    // long runs of words and of reserved words, around every power of two
    f.put_all(par(cx.n(48, 400), |i| {
        let mut r = Rng::new(seed, (2901 << 32) + i as u64);
        let mut s = Simulator::new(any_flags(&mut r));
        let mut ev = vec![];
        for _ in 0..3 {
            if r.chance(1, 2) { disturb(&mut s, &mut r); }
            let start = match r.below(6) { 0 => 0u32, 1 => 1, 2 => 0x3000, 3 => 0x7FFF, 4 => 0x8000, _ => r.below(0xFE00) as u32 };
            let hand = r.chance(1, 4);
            let mut room = if hand { 0xFFFF } else { 0xFE00 - start };
            let mut b: Vec<(u32, i64)> = vec![];
            for _ in 0..1 + r.below(4) {
                if room == 0 { break; }
                let n = match r.below(4) { 0 => 1 + r.below(300) as u32, 1 => room, 2 => r.below(0x10000) as u32, _ => (1u32 << (4 + r.below(12))) + r.below(4) as u32 - 2 }.clamp(1, room);
                let prev = b.last().map(|x| x.1);
                let w = if r.chance(1, 3) { -1 } else { r.word() as i64 };
                if prev == Some(w) || n == 0 { continue; }
                b.push((n, w));
                room -= n;
            }
            let bs: Blocks = vec![(start as u16, b)];
            let o = if hand { catch(|| BinaryFormat::deserialize(&binary(&bs))).ok().flatten() } else {
                let mut t = format!(".orig x{start:X}\n");
                for &(n, w) in &bs[0].1 { if w < 0 { t += &format!(".blkw {n}\n"); } else { t += &format!(".fill x{w:X}\n").repeat(n as usize); } }
                t += ".end";
                parse_ast(&t).ok().and_then(|a| if r.chance(1, 2) { assemble(a).ok() } else { assemble_debug(a, &t).ok() })
            };
            if let Some(o) = o { ev.push(load_event(&mut s, &bs, &o)); }
        }
        obj! {"name": format!("long runs {i}"), "ev": ev}
    }));
    // a word of its own at every address
    let mut ev = vec![];
    for (k, c) in [(1u16, 0u16), (40503, 7), (0, 0x8000), (257, 0xFF00)] {
        let mut s = Simulator::new(any_flags(&mut r));
        let t = format!(".orig x0\n{}.end", (0..0xFE00u32).map(|a| format!(".fill x{:X}\n", (a as u16).wrapping_mul(k).wrapping_add(c))).collect::<String>());
        let Some(o) = parse_ast(&t).ok().and_then(|a| assemble(a).ok()) else { continue };
        let x = guarded(|| "load of a whole memory".into(), || s.load_obj_file(&o));
        let off = runs_of((0..0xFE00u16).map(|a| { let w = s.mem[a]; (a, if w.is_init() { w.get().wrapping_sub(a.wrapping_mul(k).wrapping_add(c)) as i64 } else { -1 }) }));
        ev.push(obj! {"res": match x { Ok(Ok(())) => "ok".to_string(), Ok(Err(e)) => err_name(&e), Err(_) => "panic".into() }, "k": k, "c": c,
            "off": off.iter().take(20).map(|x| arr![x.0, x.1, x.2]).collect::<Vec<_>>()});
    }
    f.put(&obj! {"name": "every word", "ev": ev});
}

// ---------------------------------------------------------------- C30
const BPS: usize = 12 + 3 * 65536;
/// A few where programs run, then every address (PC, memory, registers).
fn bp(k: usize) -> Breakpoint {
    let c = |j: usize, v: u16| match j % 8 { 0 => Comparator::Eq(v), 1 => Comparator::Never, 2 => Comparator::Lt(v), 3 => Comparator::Ge(v), 4 => Comparator::Le(v), 5 => Comparator::Gt(v), 6 => Comparator::Ne(v), _ => Comparator::Always };
    if k >= 12 {
        let (a, x) = (((k - 12) % 65536) as u16, (k - 12) / 65536);
        return match x { 0 => Breakpoint::PC(a), 1 => Breakpoint::Mem { addr: a, value: c(a as usize / 3, a ^ 0x5555) }, _ => Breakpoint::Reg { reg: reg((a % 8) as u8), value: c(a as usize / 8 % 6, a) } };
    }
    match k % 3 { 0 => Breakpoint::PC(0x3000 + k as u16 * 5), 1 => Breakpoint::Reg { reg: reg((k % 8) as u8), value: c(k % 4, 0x5555) }, _ => Breakpoint::Mem { addr: 0x4000 + k as u16, value: c(k % 4, 0x7777) } }
}
fn any_bp(r: &mut Rng) -> usize { match r.below(3) { 0 => 12 + *r.pick(&[0usize, 1, 0xFF, 0x100, 0x1FF, 0x200, 0x2FFF, 0x3000, 0xFDFF, 0xFE00, 0xFFFC, 0xFFFE, 0xFFFF]) + 65536 * r.below(3), 1 => r.below(12), _ => r.below(BPS) } }
fn any_io(r: &mut Rng, some: &[u16]) -> u16 { loop { let a = if r.chance(1, 2) { *r.pick(some) } else { 0xFE10 + r.below(0x1F0) as u16 }; if a != 0xFEAB { return a; } } }
struct Life { bps: std::collections::BTreeSet<usize>, s: Simulator, ctl: CtlRef, ids: Vec<u16>, n: usize, ireg: Vec<(u16, &'static str)>, shared: Arc<std::sync::atomic::AtomicBool> }
impl Life {
    fn new(fl: SimFlags) -> Life {
        let s = Simulator::new(fl);
        let shared = s.mcr().clone();
        let ctl = CtlRef::default();
        Life { bps: Default::default(), s, ctl, ids: vec![], n: 0, ireg: vec![(PSR_PORT, "PSR"), (0xFFFE, "MCR")], shared }
    }
    fn rec(&mut self) -> Recorder { self.n += 1; Recorder { name: Box::leak(format!("d{}", self.n).into_boxed_str()), ctl: self.ctl.clone() } }
    fn act(&mut self, r: &mut Rng) {
        let lim = r.below(60) as u64;
        match r.below(24) {
            0 | 1 => {
                let end = *r.pick(&[End::Halt, End::AcvLoad, End::IllOp, End::Rti, End::BadTrap]);
                let mut o = UOpts::new(end);
                o.uninit = r.chance(1, 2);
                o.input = false;
                let p = generate(r, &o, 0x3000);
                let ob = crate::strict::object(r, Some(&p));
                let _ = self.s.load_obj_file(&ob);
                self.s.pc = p.entry;
            }
            2 => { let ob = crate::strict::object(r, None); let _ = self.s.load_obj_file(&ob); }
            3 | 4 => { let _ = guarded(|| "history: run".into(), || self.s.run_with_limit(lim)); }
            7 => { let _ = guarded(|| "history: step over".into(), || { let _ = self.s.step_over_limited(lim); }); }
            5 | 6 | 8 => for _ in 0..lim { let _ = guarded(|| "history: step".into(), || self.s.step_in()); },
            9 => { let (a, v) = (r.u16(), r.word()); self.s.mem[a] = Word::new_init(v); }
            10 => for i in 0..8 { let v = r.word(); self.s.reg_file[reg(i)].set(v); },
            11 => { self.s.pc = 0x3000 + r.below(0x100) as u16; self.s.instructions_run = r.below(1000) as u64; }
            12 | 13 => for _ in 0..1 + r.below(12) { let k = any_bp(r); if r.chance(3, 4) { self.s.breakpoints.insert(bp(k)); self.bps.insert(k); } else { self.s.breakpoints.remove(&bp(k)); self.bps.remove(&k); } }
            14 | 15 => { let (a, n) = (any_io(r, &[0xFE20u16, 0xFE21, 0xFFF0, 0xFFFC, 0xFFFE, 0xFF80]), *r.pick(&["PC", "PSR", "MCR", "SSP"])); if self.s.mmap_internal(a, ireg_of(n)).is_ok() { self.ireg.push((a, n)); } }
            16 => { let a = if self.ireg.is_empty() || r.chance(1, 2) { *r.pick(&[0xFE20u16, 0xFFF0, 0xFFFC, 0xFFFE]) } else { r.pick(&self.ireg).0 }; if self.s.munmap_internal(a) { self.ireg.retain(|x| x.0 != a); } }
            17 | 18 => {
                let d = self.rec();
                let ports: Vec<u16> = (0..r.below(4)).map(|_| any_io(r, &[0xFE40, 0xFE41, 0xFE7F])).collect();
                if let Ok(id) = self.s.device_handler.add_device(d, &ports) { self.ids.push(id); }
            }
            19 => { if !self.ids.is_empty() { let id = *r.pick(&self.ids); self.s.device_handler.remove_device(id); } }
            20 => match r.below(4) {
                0 => { let d = self.rec(); self.s.device_handler.set_keyboard(d) }
                1 => { let d = self.rec(); self.s.device_handler.set_display(d) }
                2 => self.s.device_handler.remove_device(1),
                _ => self.s.device_handler.remove_device(2),
            },
            21 => { let st = self.s.flags.machine_init; self.s.flags = any_flags(r); if r.chance(1, 2) || self.s.flags.machine_init == MachineInitStrategy::Unseeded { self.s.flags.machine_init = if st == MachineInitStrategy::Unseeded { MachineInitStrategy::Known { value: 7 } } else { st }; } }
            22 => { let b = r.chance(1, 2); self.shared.store(b, Relaxed); }
            _ => {
                let ctx = MemAccessCtx::omnipotent();
                let (psr, ssp) = (gen_psr(r), r.word());
                let a = self.ireg.iter().find(|x| x.1 == "PSR").map(|x| x.0);
                if let Some(a) = a { let _ = self.s.write_mem(a, Word::new_init(psr), ctx); }
                let a = self.ireg.iter().find(|x| x.1 == "SSP").map(|x| x.0);
                if let Some(a) = a { let _ = self.s.write_mem(a, Word::new_init(ssp), ctx); }
            }
        }
        // requests for interrupts come and go
        let mut c = self.ctl.lock().unwrap();
        c.ask.clear();
        c.log.clear();
        if r.chance(1, 4) && self.n > 0 { let k = 1 + r.below(self.n); let nm: &'static str = Box::leak(format!("d{k}").into_boxed_str()); c.ask.insert(nm, Ask::Vect(0x81, r.below(8) as u8)); }
    }
}
trait StepLimited { fn step_over_limited(&mut self, n: u64) -> u64; }
impl StepLimited for Simulator {
    fn step_over_limited(&mut self, n: u64) -> u64 {
        // step_over may never come back: bound it through a run with a tripwire of its own
        let d = self.frame_stack.len();
        let mut k = 0;
        let _ = self.run_while(|s| { k += 1; k <= n.max(1) && (k == 1 || s.frame_stack.len() > d) });
        k
    }
}
/// Flags, breakpoints, what answers at every I/O address, who is polled.
fn conf(l: &mut Life) -> V {
    let s = &mut l.s;
    let fl = s.flags;
    let bps: Vec<usize> = l.bps.iter().copied().filter(|&k| s.breakpoints.contains(&bp(k))).collect();
    let nbps = s.breakpoints.len();
    let mcr = Arc::ptr_eq(s.mcr(), &l.shared);
    // devices: a read that only looks names the device it reaches
    let mut dev: Vec<V> = vec![];
    for a in 0xFE00..=0xFFFFu16 {
        { let mut c = l.ctl.lock().unwrap(); c.log.clear(); c.answers.clear(); }
        let _ = s.device_handler.io_read(a, false);
        for x in std::mem::take(&mut l.ctl.lock().unwrap().log) { if let V::A(x) = x { dev.push(arr![a, x[1].clone()]); } }
    }
    l.ctl.lock().unwrap().ask.clear();
    let _ = s.device_handler.poll_interrupt();
    let polled: Vec<V> = std::mem::take(&mut l.ctl.lock().unwrap().log).into_iter().filter_map(|x| match x { V::A(v) => Some(v[1].clone()), _ => None }).collect();
    obj! {"flags": format!("{fl:?}"), "bps": bps, "nbps": nbps, "mcr": mcr, "dev": dev, "polled": polled}
}
/// Which registers are mapped where (changes registers and memory to find out).
fn probe(s: &mut Simulator, shared: &std::sync::atomic::AtomicBool) -> V {
    let ctx = MemAccessCtx::omnipotent();
    let mut out: Vec<V> = vec![];
    // give every register a value of its own
    let tmp = 0xFEABu16;
    let set = |s: &mut Simulator, n: &'static str, v: u16| {
        if s.mmap_internal(tmp, ireg_of(n)).is_ok() { let _ = s.write_mem(tmp, Word::new_init(v), ctx); s.munmap_internal(tmp); }
    };
    set(s, "PSR", 0x0304);
    set(s, "SSP", 0x4321);
    s.pc = 0x1234;
    shared.store(true, Relaxed);
    for a in 0xFE00..=0xFFFFu16 {
        if s.mmap_internal(a, ireg_of("PC")).is_ok() { s.munmap_internal(a); continue; }
        let v = s.read_mem(a, ctx).map(|w| w.get()).unwrap_or(1);
        out.push(arr![a, match v { 0x1234 => "PC", 0x0304 => "PSR", 0x4321 => "SSP", 0x8000 => "MCR", _ => "?" }]);
    }
    V::A(out)
}
fn ssp_of(s: &mut Simulator) -> u16 {
    let ctx = MemAccessCtx::omnipotent();
    let tmp = 0xFEABu16;
    let old = s.mem[tmp];
    let _ = s.mmap_internal(tmp, ireg_of("SSP"));
    let v = s.read_mem(tmp, ctx).map(|w| w.get()).unwrap_or(0);
    s.munmap_internal(tmp);
    s.mem[tmp] = old;
    v
}
fn mach(s: &mut Simulator) -> V {
    let ri: Vec<bool> = (0..8).map(|i| s.reg_file[reg(i)].is_init()).collect();
    obj! {"r": regs(s), "ri": ri, "pc": s.pc, "psr": s.psr().get(), "ssp": ssp_of(s), "depth": s.frame_stack.len(), "frames": s.frame_stack.frames().map_or(-1, |f| f.len() as i64),
        "n": s.instructions_run, "halt": s.hit_halt(), "bp": s.hit_breakpoint()}
}
/// The same program run on a machine with fresh keyboard and display.
fn after(s: &mut Simulator, o: &ObjectFile, entry: u16, input: &[u8]) -> V {
    let (kb, ds): (Arc<RwLock<VecDeque<u8>>>, Arc<RwLock<Vec<u8>>>) = Default::default();
    kb.write().unwrap().extend(input);
    s.device_handler.set_keyboard(BufferedKeyboard::new(kb.clone()));
    s.device_handler.set_display(BufferedDisplay::new(ds.clone()));
    s.breakpoints.clear();
    let _ = s.load_obj_file(o);
    s.pc = entry;
    let x = guarded(|| "run after reset".into(), || s.run_with_limit(1500));
    let mut h = 0xcbf29ce484222325u64;
    for a in 0..0xFE00u16 { let w = s.mem[a]; h = (h ^ (w.get() as u64 | (w.is_init() as u64) << 16)).wrapping_mul(0x100000001b3); }
    let m = mach(s);
    obj! {"res": res_name(&x), "m": m, "mem": format!("{h:016x}"), "out": ds.read().unwrap().clone(), "kb": kb.read().unwrap().len(), "at": catch(|| s.prefetch_pc()).map_or(-1, |a| a as i64)}
}
pub fn c30(cx: &Cx) {
    let mut f = cx.file("T_C30.ndjson");
    let seed = cx.seed;
    f.put_all(par(cx.n(400, 8000), |i| {
        let mut r = Rng::new(seed, (30 << 32) + i as u64);
        let mut fl = any_flags(&mut r);
        if fl.machine_init == MachineInitStrategy::Unseeded { fl.machine_init = MachineInitStrategy::Seeded { seed: r.seed() }; }
        let mut l = Life::new(fl);
        let mut ev = vec![];
        for _ in 0..1 + r.below(3) {
            for _ in 0..r.below(25) { l.act(&mut r); }
            let before = conf(&mut l);
            if guarded(|| "reset".into(), || l.s.reset()).is_err() { ev.push(obj! {"panic": true}); break; }
            let mut fresh = Simulator::new(l.s.flags);
            let mdiff = runs_of((0..=0xFFFFu16).filter(|&a| l.s.mem[a] != fresh.mem[a]).map(|a| (a, ())));
            let (a, b) = (mach(&mut fresh), mach(&mut l.s));
            let aft = conf(&mut l);
            let new = l.s.device_handler.add_device(NullDevice, &[]).map_or(-1, |x| x as i64);
            let ids = l.ids.clone();
            if new >= 0 { l.ids.push(new as u16); }
            let mut e = vec![("before", before), ("after", aft), ("fresh", a), ("reset", b),
                ("mem", V::A(mdiff.iter().map(|d| arr![d.0, d.1]).collect())), ("newid", new.into()), ("ids", ids.into()),
                ("want", V::A({ let mut v = l.ireg.clone(); v.sort(); v.into_iter().map(|(a, n)| arr![a, n]).collect() }))];
            // does the reset machine go on like a new one?
            let go_on = r.chance(1, 2);
            if go_on {
                for (a, _) in [(PSR_PORT, 0), (0xFFFE, 0)] { fresh.munmap_internal(a); }
                for &(a, n) in &l.ireg { let _ = fresh.mmap_internal(a, ireg_of(n)); }
                let mut o = UOpts::new(*r.pick(&[End::Halt, End::Halt, End::AcvLoad, End::IllOp, End::AcvJump]));
                o.uninit = r.chance(1, 2);
                let p = generate(&mut r, &o, 0x3000);
                let ob = crate::strict::object(&mut r, Some(&p));
                let input: Vec<u8> = (0..40).map(|_| r.u16() as u8).collect();
                let saved = std::mem::take(&mut l.s.breakpoints);
                l.ctl.lock().unwrap().ask.clear();
                let (x, y) = (after(&mut fresh, &ob, p.entry, &input), after(&mut l.s, &ob, p.entry, &input));
                l.s.breakpoints = saved;
                e.push(("go", arr![x, y]));
            }
            let sh = l.shared.clone();
            e.push(("map", probe(&mut l.s, &sh)));
            ev.push(V::O(e));
        }
        obj! {"name": format!("lives {i}"), "ev": ev}
    }));
}

// ---------------------------------------------------------------- C31
#[derive(Clone)]
struct Setup { fl: SimFlags, prog: Option<(Vec<(u16, Vec<u16>)>, u16)>, obj: bool, input: Vec<(usize, Vec<u8>)>, timers: Vec<(u64, u32, u32, u8, u8)>, regs: Vec<(u8, u16)>, steps: usize, reset: usize }
struct Twin { m: M, n: usize }
impl Twin {
    fn new(t: &Setup, ob: Option<&ObjectFile>) -> Twin {
        let mut m = M::new(t.fl, &[]);
        for (i, &(s, lo, hi, v, p)) in t.timers.iter().enumerate() {
            let mut d = TimerDevice::new(Some(s), lo..=hi, v, p);
            d.enabled = true;
            let _ = m.sim.device_handler.add_device(d, &[]);
            // a handler of a few steps
            let base = 0x1000 + 0x40 * i as u16;
            m.poke(0x100 + v as u16, base);
            for (k, w) in [0x1DBFu16, 0x7180, 0x2004, 0x1021, 0x3002, 0x6180, 0x1DA1, 0x8000].into_iter().enumerate() {
                // push R0; count; pop R0; RTI
                let w = match k { 2 => 0x2006, 4 => 0x3004, _ => w };
                m.poke(base + k as u16, w);
            }
            m.poke(base + 9, 0);
        }
        if let Some((code, entry)) = &t.prog {
            if let (true, Some(o)) = (t.obj, ob) { let _ = m.sim.load_obj_file(o); }
            else { for (a, ws) in code { for (k, &w) in ws.iter().enumerate() { m.poke(a.wrapping_add(k as u16), w); } } }
            m.sim.pc = *entry;
        }
        for &(x, v) in &t.regs { m.set_reg(x, v); }
        m.resync();
        Twin { m, n: 0 }
    }
    fn step(&mut self, t: &Setup) -> V {
        if self.n == t.reset {
            self.m.sim.reset();
            if let Some((code, entry)) = &t.prog {
                for (a, ws) in code { for (k, &w) in ws.iter().enumerate() { self.m.poke(a.wrapping_add(k as u16), w); } }
                self.m.sim.pc = *entry;
            }
        }
        for (k, b) in &t.input { if *k == self.n { self.m.kb.write().unwrap().extend(b); } }
        self.n += 1;
        let x = guarded(|| "twin step".into(), || self.m.sim.step_in());
        let res = res_name(&x);
        let m = &mut self.m;
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |v: u64| { h = (h ^ v).wrapping_mul(0x100000001b3); h ^= h >> 31; };
        for i in 0..8 { let w = m.sim.reg_file[reg(i)]; add(w.get() as u64 | (w.is_init() as u64) << 16); }
        for a in 0..=0xFFFFu16 {
            let w = m.sim.mem[a];
            if w != m.shadow[a as usize] { add((a as u64) << 32 | w.get() as u64 | (w.is_init() as u64) << 16); m.shadow[a as usize] = w; }
        }
        let ssp = m.ssp();
        add(ssp as u64);
        add(m.sim.frame_stack.len());
        add(m.sim.instructions_run);
        add(m.mcr() as u64);
        let out: Vec<u8> = std::mem::take(&mut *m.ds.write().unwrap());
        arr![m.sim.pc, m.sim.psr().get(), (h & 0x3FFF_FFFF) as i64, res, out]
    }
    fn full(&mut self) -> V { let d = crate::debugger::digest(&mut self.m); V::S(d) }
}
pub fn c31(cx: &Cx) {
    let mut f = cx.file("T_C31.ndjson");
    let seed = cx.seed;
    let addrs = os_addrs();
    let os = runs_of(addrs.iter().map(|&a| (a, ())));
    let os: Vec<V> = os.iter().map(|x| arr![x.0, x.1]).collect();
    // known fills
    f.put_all(par(cx.n(40, 400), |i| {
        let mut r = Rng::new(seed, (3100 << 32) + i as u64);
        let ev: Vec<V> = (0..4).map(|_| {
            let v = r.word();
            let mut fl = any_flags(&mut r);
            fl.machine_init = MachineInitStrategy::Known { value: v };
            let mut s = Simulator::new(fl);
            if r.chance(1, 3) { disturb(&mut s, &mut r); s.reset(); }
            let rows = runs_of((0..=0xFFFFu16).filter(|a| !addrs.contains(a)).map(|a| (a, s.mem[a].get())));
            obj! {"known": v, "regs": regs(&s), "rows": rows.iter().map(|x| arr![x.0, x.1, x.2]).collect::<Vec<_>>(), "os": os.clone()}
        }).collect();
        obj! {"name": format!("known {i}"), "ev": ev}
    }));
    f.put_all(par(cx.n(160, 3000), |i| {
        let (t, ob, mut r) = setup(seed, i);
        // one by one, and side by side
        let (mut a, mut b) = (Twin::new(&t, ob.as_ref()), None);
        let (a0, mut sa, mut sb) = (a.full(), vec![], vec![]);
        if i % 2 == 0 {
            for _ in 0..t.steps { sa.push(a.step(&t)); }
            // other simulators in between
            let mut other = Simulator::new(any_flags(&mut r));
            let _ = guarded(|| "other".into(), || other.run_with_limit(50));
        }
        let x = b.get_or_insert_with(|| Twin::new(&t, ob.as_ref()));
        let b0 = x.full();
        if i % 2 == 0 { for _ in 0..t.steps { sb.push(x.step(&t)); } }
        else { for _ in 0..t.steps { sa.push(a.step(&t)); sb.push(x.step(&t)); } }
        let (a1, b1) = (a.full(), x.full());
        obj! {"name": format!("twins {i}"), "ev": vec![obj! {"a": sa, "b": sb, "first": vec![a0, b0], "last": vec![a1, b1]}]}
    }));
    // the same in another process
    let n = cx.n(40, 400);
    let here = elsewhere_rows(seed, n);
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    let there = cmd.arg("C31elsewhere").arg(&cx.out).arg(n.to_string()).env("VERIF_SEED", seed.to_string()).output();
    let there: Vec<String> = there.map(|o| String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect()).unwrap_or_default();
    f.put(&obj! {"name": "another process", "ev": vec![obj! {"here": here, "there": there}]});
}
fn setup(seed: u64, i: usize) -> (Setup, Option<ObjectFile>, Rng) {
    let mut r = Rng::new(seed, (31 << 32) + i as u64);
    let mut fl = any_flags(&mut r);
    fl.machine_init = if r.chance(1, 4) { MachineInitStrategy::Known { value: r.word() } } else { MachineInitStrategy::Seeded { seed: r.seed() } };
    let p = if i % 3 == 0 { None } else {
        let mut o = UOpts::new(*r.pick(&[End::Halt, End::AcvStore, End::IllOp, End::BadTrap, End::Rti]));
        o.uninit = true;
        Some(generate(&mut r, &o, 0x3000))
    };
    let ob = p.as_ref().map(|p| crate::strict::object(&mut r, Some(p)));
    let nt = r.below(3);
    let t = Setup {
        fl, prog: p.as_ref().map(|p| (p.code.clone(), p.entry)), obj: r.chance(1, 2),
        input: (0..r.below(6)).map(|_| (r.below(200), (0..r.below(5)).map(|_| r.u16() as u8).collect())).collect(),
        timers: (0..nt).map(|k| { let lo = match r.below(6) { 0 => 0, 1 => 1, _ => 5 + r.below(40) as u32 }; (r.seed(), lo, match r.below(5) { 0 => lo, 1 => lo + 1, 2 => u32::MAX, _ => lo + r.below(60) as u32 }, 0x90 + k as u8, 1 + r.below(7) as u8) }).collect(),
        regs: vec![], steps: 300, reset: if r.chance(1, 4) { 100 + r.below(100) } else { usize::MAX },
    };
    (t, ob, r)
}
/// One line for each of the first n settings: the machine to begin with, its history, and how it ended.
fn elsewhere_rows(seed: u64, n: usize) -> Vec<String> {
    par(n, |i| {
        let (t, ob, _) = setup(seed, i);
        let mut a = Twin::new(&t, ob.as_ref());
        let mut s = format!("{}", a.full());
        let mut h = 0xcbf29ce484222325u64;
        for _ in 0..t.steps { for b in a.step(&t).to_string().bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } }
        s += &format!(" {h:016x} {}", a.full());
        s
    })
}
pub fn c31_elsewhere(cx: &Cx) {
    let n = cx.args.first().and_then(|n| n.parse().ok()).unwrap_or(0);
    for l in elsewhere_rows(cx.seed, n) { println!("{l}"); }
}
