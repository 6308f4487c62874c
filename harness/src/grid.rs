//! Systematic single steps: every trap and interrupt vector, every priority pair, every register
//! field, offset and condition code, every port and boundary as a target.
use crate::machine::*;
use crate::util::*;
use crate::obj;
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::SimFlags;
use lc3_ensemble::sim::device::ExternalDevice;
use std::collections::HashMap;

#[derive(Clone)]
pub struct Case {
    pub w: u16,
    pub pc: u16,
    pub psr: u16,
    pub real: bool,
    pub ign: bool,
    pub regs: Vec<(u8, u16)>,
    pub poke: Vec<(u16, u16)>,
    pub ask: Vec<(&'static str, u8, u8)>,
    pub kb: Option<bool>, // a key is waiting; interrupts enabled?
    pub ssp: u16,
}
const USER: u16 = 0x8000;
fn base(r: &mut Rng, w: u16, user: bool) -> Case {
    let cc = *r.pick(&[1u16, 2, 4]);
    Case { w, pc: 0x3000 + 0x100 * (1 + r.below(0xC0) as u16) + r.below(256) as u16, psr: (user as u16) << 15 | (r.below(8) as u16) << 8 | cc,
        real: r.chance(1, 2), ign: false, regs: vec![], poke: vec![], ask: vec![], kb: None, ssp: 0x1000 + r.below(0x1000) as u16 }
}
fn sx(v: u16, bits: u32) -> u16 { ((v << (16 - bits)) as i16 >> (16 - bits)) as u16 }
fn offs(bits: u32) -> Vec<u16> { (0..1u16 << bits).collect() }

pub fn traps(r: &mut Rng) -> Vec<Case> {
    let mut v = vec![];
    for t in 0..256u16 { for user in [false, true] { for real in [false, true] {
        let mut c = base(r, 0xF000 | t, user);
        c.real = real;
        if r.chance(1, 2) { c.poke.push((t, r.word())); }
        if t == 0x21 || r.chance(1, 4) { c.regs.push((0, r.word())); }
        v.push(c);
    } } }
    v
}
pub fn interrupts(r: &mut Rng) -> Vec<Case> {
    let mut v = vec![];
    for t in 0..256u16 { for real in [false, true] {
        let user = r.chance(1, 2);
        let mut c = base(r, 0x1020, user);
        c.real = real;
        c.psr = c.psr & 0xF8FF | (r.below(7) as u16) << 8;
        c.ask = vec![("d1", t as u8, 7)];
        c.poke.push((0x100 + t, r.word()));
        v.push(c);
    } }
    for prio in 0..8u16 { for p in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 128, 200, 254, 255] { for user in [false, true] {
        let mut c = base(r, 0x1020, user);
        c.psr = c.psr & 0xF8FF | prio << 8;
        let vect = r.u16() as u8;
        c.ask = vec![("d1", vect, p)];
        c.poke.push((0x100 + vect as u16, r.word()));
        v.push(c);
    } } }
    // two and three requests at once
    for p in 0..9u8 { for q in 0..9u8 { for prio in [0u16, 3, 6] {
        let user = r.chance(1, 2);
        let mut c = base(r, 0x1020, user);
        c.psr = c.psr & 0xF8FF | prio << 8;
        let (a, b) = (r.u16() as u8, r.u16() as u8);
        c.ask = vec![("d1", a, p), ("d2", b, q)];
        if r.chance(1, 3) { c.ask.push(("d3", r.u16() as u8, r.below(9) as u8)); }
        v.push(c);
    } } }
    // the keyboard, alone and against a device
    for prio in 0..8u16 { for ie in [false, true] { for p in [None, Some(3u8), Some(4), Some(5)] {
        let user = r.chance(1, 2);
        let mut c = base(r, 0x1020, user);
        c.psr = c.psr & 0xF8FF | prio << 8;
        c.kb = Some(ie);
        c.poke.push((0x180, r.word()));
        if let Some(p) = p { c.ask = vec![("d1", 0x33, p)]; }
        v.push(c);
    } } }
    v
}
pub fn calls(r: &mut Rng) -> Vec<Case> {
    let mut v = vec![];
    for o in offs(11) { if o % 5 == 0 || o < 8 || o > 2040 || (1016..1032).contains(&o) || o.is_power_of_two() { let u = r.chance(1, 2); v.push(base(r, 0x4800 | o, u)); } }
    for b in 0..8u16 { for op in [0x4000u16, 0xC000] { for u in [false, true] { for t in [r.word(), 0x3000, 0xFDFF, 0xFE00, 0, 0xFFFF, 0x200] {
        let mut c = base(r, op | b << 6, u);
        c.regs.push((b as u8, t));
        v.push(c);
    } } } }
    for user in [false, true] { for prio in 0..8u16 { for cc in [1u16, 2, 4] { for (pu, ign) in [(false, false), (false, true), (true, true), (true, false)] {
        let mut c = base(r, 0x8000, pu);
        c.ign = ign;
        let sp = 0x1000 + r.below(0x1000) as u16;
        c.regs.push((6, sp));
        c.poke = vec![(sp, r.word()), (sp + 1, (user as u16) << 15 | prio << 8 | cc)];
        v.push(c);
    } } } }
    v
}
pub fn alu(r: &mut Rng) -> Vec<Case> {
    const B: [u16; 11] = [0, 1, 2, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x5555, 0xAAAA];
    let mut v = vec![];
    for op in [0x1000u16, 0x5000] {
        for a in B { for b in B { let mut c = base(r, op | 0o123, true); c.w = op | 2 << 9 | 3 << 6 | 4; c.regs = vec![(3, a), (4, b)]; v.push(c); } }
        for i in 0..32u16 { for a in [0u16, 1, 0x7FFF, 0x8000, 0xFFFF, 0xF00F] { let mut c = base(r, 0, true); c.w = op | 5 << 9 | 1 << 6 | 0x20 | i; c.regs = vec![(1, a)]; v.push(c); } }
        for d in 0..8u16 { for a in 0..8u16 { for b in 0..8u16 { if (d + a + b) % 2 == 0 || a == b || d == a || d == b {
            let u = r.chance(1, 2);
            let mut c = base(r, op | d << 9 | a << 6 | b, u);
            c.regs = (0..8).map(|x| (x, r.word())).collect();
            v.push(c);
        } } } }
    }
    for d in 0..8u16 { for a in 0..8u16 { let mut c = base(r, 0x903F | d << 9 | a << 6, true); c.regs = (0..8).map(|x| (x, r.word())).collect(); v.push(c); } }
    for a in B { let mut c = base(r, 0x903F | 1 << 9 | 2 << 6, true); c.regs = vec![(2, a)]; v.push(c); }
    for n in 0..8u16 { for cc in [1u16, 2, 4] { for o in [0u16, 1, 0x1FF, 0x100, 0xFF, 2, 0x80] {
        let u = r.chance(1, 2);
        let mut c = base(r, n << 9 | o, u);
        c.psr = c.psr & !7 | cc;
        v.push(c);
    } } }
    for o in offs(9) { v.push(base(r, 0x0E00 | o, true)); if o % 2 == 0 { let d = r.below(8) as u16; v.push(base(r, 0xE000 | d << 9 | o, true)); } }
    v
}
/// Loads and stores: every offset, every register, words of every sign.
pub fn memory(r: &mut Rng) -> Vec<Case> {
    const OPS: [u16; 7] = [0x2000, 0x3000, 0x6000, 0x7000, 0xA000, 0xB000, 0xE000];
    let mut v = vec![];
    for op in OPS {
        let bits = if op == 0x6000 || op == 0x7000 { 6 } else { 9 };
        for o in offs(bits) {
            if bits == 9 && o % 4 != 1 && !o.is_power_of_two() && o > 3 && o < 508 && !(250..260).contains(&o) { continue; }
            let (d, b) = (r.below(8) as u16, r.below(8) as u16);
            let u = r.chance(1, 2);
            let mut c = base(r, op | d << 9 | if bits == 6 { b << 6 } else { 0 } | o, u);
            let p = 0x3000 + r.below(0xCE00) as u16;
            let ea = if bits == 6 { c.regs.push((b as u8, p.clamp(0x3040, 0xFDC0))); p.clamp(0x3040, 0xFDC0).wrapping_add(sx(o, 6)) } else { c.pc.wrapping_add(1).wrapping_add(sx(o, 9)) };
            if ea == c.pc { continue; }
            let w = if op == 0xA000 || op == 0xB000 { 0x3000 + r.below(0xCE00) as u16 } else { r.word() };
            c.poke.push((ea, w));
            if op == 0xA000 && w != c.pc && w != ea { c.poke.push((w, r.word())); }
            v.push(c);
        }
        for d in 0..8u16 { for b in 0..8u16 { if bits == 6 || b < 2 {
            let u = r.chance(1, 2);
            let mut c = base(r, op | d << 9 | if bits == 6 { b << 6 } else { 0 } | 3, u);
            c.regs = (0..8).map(|x| (x, 0x3000 + r.below(0xCD00) as u16)).collect();
            if op & 0xE000 == 0xA000 { c.poke.push((c.pc.wrapping_add(4), 0x3000 + r.below(0xCE00) as u16)); }
            v.push(c);
        } } }
        for w in [0u16, 1, 0x7FFF, 0x8000, 0xFFFF, 0x00FF, 0xFF00] {
            let mut c = base(r, op | 1 << 9 | if bits == 6 { 2 << 6 } else { 0 } | 5, true);
            let a = 0x8123u16;
            if bits == 6 { c.regs.push((2, a - 5)); c.poke.push((a, w)); }
            else if op & 0xE000 == 0xA000 { c.pc = 0x7000; c.poke.push((0x7006, a)); c.poke.push((a, w)); }
            else { c.pc = 0x7000; c.poke.push((0x7006, w)); }
            c.regs.push((1, w));
            v.push(c);
        }
    }
    v
}
/// Loads, stores and jumps aimed at every port and every boundary.
pub fn targets(r: &mut Rng, user: impl Fn(&mut Rng) -> bool) -> Vec<Case> {
    let mut ts: Vec<u16> = (0xFE00..=0xFFFF).collect();
    for e in [0u16, 0x20, 0x25, 0x100, 0x180, 0x200, 0x1FF, 0x2FF0, 0x3000, 0xFDF8, 0x8000] { ts.extend((0..14).map(|k| e.wrapping_add(k).wrapping_sub(4))); }
    let mut v = vec![];
    for t in ts { for op in 0..8 {
        let io = t >= 0xFE40 && t < 0xFFE0;
        if io && t % 8 != 5 && r.chance(5, 6) { continue; }
        let u = user(r);
        let mut c = base(r, 0, u);
        let d = r.below(6) as u16;
        match op {
            0 | 1 => { let o = r.below(64) as u16; c.w = [0x6000, 0x7000][op] | d << 9 | 6 << 6 | o; c.regs.push((6, t.wrapping_sub(sx(o, 6)))); }
            2 | 3 => { c.w = [0xA000, 0xB000][op - 2] | d << 9 | 7; c.poke.push((c.pc.wrapping_add(8), t)); }
            4 | 5 => { // from next door
                let o = r.below(512) as u16;
                c.pc = t.wrapping_sub(sx(o, 9)).wrapping_sub(1);
                if !(0x3000..0xFE00).contains(&c.pc) { continue; }
                c.w = [0x2000, 0x3000][op - 4] | d << 9 | o;
            }
            6 => { // the pointer itself is there
                let o = r.below(512) as u16;
                c.pc = t.wrapping_sub(sx(o, 9)).wrapping_sub(1);
                if !(0x3000..0xFE00).contains(&c.pc) || t == c.pc { continue; }
                c.w = *r.pick(&[0xA000, 0xB000]) | d << 9 | o;
                if t < 0xFE00 { c.poke.push((t, *r.pick(&[0x3000, 0xFDFF, 0xFE00, 0x2FFF, 0x4321]))); }
            }
            _ => { c.w = 0x1020; c.pc = t; } // execution there
        }
        if r.chance(1, 2) { c.kb = Some(r.chance(1, 2)); }
        v.push(c);
    } }
    v
}
pub fn run_cases(seed: u64, cases: Vec<Case>, frames: bool, strict: bool) -> Vec<V> {
    let chunks: Vec<&[Case]> = cases.chunks(250).collect();
    par(chunks.len(), |i| {
        let mut r = Rng::new(seed, (77 << 32) + i as u64);
        let flags = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, debug_frames: frames, strict, ..Default::default() };
        let mut m = M::new(flags, &[("d1", vec![0xFE10, 0xFE12]), ("d2", vec![0xFE20]), ("d3", vec![])]);
        let ev: Vec<V> = chunks[i].iter().map(|c| {
            m.sim.flags.use_real_traps = c.real;
            m.sim.flags.ignore_privilege = c.ign;
            m.set_psr(c.psr);
            for x in 0..8 { let v = 0x3000 + r.below(0xCE00) as u16; m.set_reg(x, v); }
            let (us, ss) = (0x4000 + r.below(0xB000) as u16, c.ssp);
            let user = c.psr & USER != 0;
            m.set_reg(6, if user { us } else { ss });
            m.set_ssp(if user { ss } else { us });
            for &(x, v) in &c.regs { m.set_reg(x, v); }
            m.sim.pc = c.pc;
            for &(a, v) in &c.poke { if a != c.pc { m.poke(a, v); } }
            m.poke(c.pc, c.w);
            if !strict && r.chance(1, 3) { let mut ws: Vec<u16> = c.poke.iter().map(|p| p.0).collect(); ws.push(c.pc); m.forget(&mut r, &ws); }
            *m.kb.write().unwrap() = if c.kb.is_some() { [r.u16() as u8, 7].into() } else { Default::default() };
            m.sim.device_handler.io_write(0xFE00, if c.kb == Some(true) { 0x4000 } else { 0 });
            m.set_mcr(true);
            m.ds.write().unwrap().clear();
            {
                let mut k = m.ctl.lock().unwrap();
                k.accept = r.chance(3, 4);
                k.answers = (0..6).map(|_| if r.chance(3, 4) { Some(r.word()) } else { None }).collect();
                k.ask = c.ask.iter().map(|&(d, v, p)| (d, Ask::Vect(v, p))).collect::<HashMap<_, _>>();
            }
            m.step()
        }).collect();
        obj! {"name": format!("systematic steps {i}"), "defs": V::A(vec![]), "tracked": frames, "ev": ev}
    })
}
