//! C14: the same machine with and without strict mode.
use crate::isa::reg;
use crate::machine::*;
use crate::runs::{feed, load};
use crate::uprog::*;
use crate::util::*;
use crate::obj;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::SimFlags;

/// Makes some words unknown, wholly or in part.
pub fn fog(r: &mut Rng, w: &mut Word) {
    let mut k = w.get();
    let u = Word::new_uninit(&mut k);
    *w = match r.below(3) {
        0 => u & Word::new_init(r.u16()),
        1 => u + Word::new_init(0),
        _ => u,
    };
}
fn same_words(a: &M, b: &M) -> bool {
    (0..8).all(|x| a.sim.reg_file[reg(x)] == b.sim.reg_file[reg(x)]) && (0..=0xFFFFu16).all(|x| a.sim.mem[x] == b.sim.mem[x])
}
fn all_init(m: &mut M) {
    for a in 0..=0xFFFFu16 { let v = m.sim.mem[a].get(); m.sim.mem[a].set(v); }
    for x in 0..8 { let v = m.reg(x); m.set_reg(x, v); }
    m.resync();
}
fn ok(e: &V) -> bool { matches!(e, V::O(x) if x.iter().any(|(k, v)| *k == "res" && matches!(v, V::S(s) if s == "ok"))) }
/// Keeps what is compared.
fn brief(e: V) -> V {
    match e { V::O(x) => V::O(x.into_iter().filter(|(k, _)| matches!(*k, "post" | "diff" | "out" | "log" | "res" | "at" | "acc" | "fs")).collect()), e => e }
}
/// A file with some reserved words, so that allocated blocks exist.
pub fn object(r: &mut Rng, p: Option<&UProg>) -> lc3_ensemble::asm::ObjectFile {
    let mut s = String::new();
    if let Some(p) = p {
        for (a, ws) in &p.code {
            s += &format!(".orig x{a:04X}\n");
            for w in ws { s += &format!(".fill x{w:04X}\n"); }
            for (_, n) in &p.blkw { s += &format!(".blkw {n}\n"); }
            s += ".end\n";
        }
    } else {
        let mut a = 0x3000u32;
        for _ in 0..1 + r.below(4) {
            a += r.below(0x2000) as u32;
            let n = 1 + r.below(0x800);
            s += &format!(".orig x{a:04X}\n.fill {}\n.blkw {n}\n.fill 1\n.end\n", r.below(99));
            a += n as u32 + 2;
        }
    }
    lc3_ensemble::asm::assemble(lc3_ensemble::parse::parse_ast(&s).unwrap()).unwrap()
}
pub fn c14(cx: &Cx) {
    let mut f = cx.file("T_C14.ndjson");
    let seed = cx.seed;
    // single steps
    f.put_all(par(cx.n(96, 1200), |i| {
        let init = i % 4 == 0;
        let frames = i % 3 == 0;
        let mut r = Rng::new(seed, (14 << 32) + i as u64);
        let file = if i % 2 == 0 { Some(object(&mut r, None)) } else { None };
        let ms = r.next();
        let make = || {
            let mut q = Rng(ms);
            let mut m = random_machine(&mut q, frames);
            m.forgets = false;
            if let Some(o) = &file { m.sim.load_obj_file(o).unwrap(); }
            if init { all_init(&mut m) } else { m.resync() }
            m
        };
        let (mut s, mut n) = (make(), make());
        let mut ev = vec![];
        for _ in 0..120 {
            let step_seed = r.next();
            for (m, strict) in [(&mut s, true), (&mut n, false)] {
                let mut q = Rng(step_seed);
                m.scramble(&mut q, &ANY);
                m.sim.flags.strict = strict;
                if !init {
                    let (pc, sp, ssp) = (m.sim.pc, m.reg(6), m.ssp());
                    let w = m.shadow[pc as usize].get();
                    let ea = pc.wrapping_add(1).wrapping_add(((w << 7) as i16 >> 7) as u16);
                    let ea6 = m.reg((w >> 6 & 7) as u8).wrapping_add(((w << 10) as i16 >> 10) as u16);
                    let ind = m.shadow[ea as usize].get();
                    for x in 0..8 { if q.chance(1, 5) { let mut w = m.sim.reg_file[reg(x)]; fog(&mut q, &mut w); m.sim.reg_file[reg(x)] = w; } }
                    for a in [pc, pc.wrapping_add(1), ea, ea6, ind, sp, sp.wrapping_add(1), ssp, ssp.wrapping_sub(1), w & 0xFF, 0x100, 0x101, 0x102, 0x180] {
                        if q.chance(1, if a == pc { 25 } else { 4 }) { let mut w = m.sim.mem[a]; fog(&mut q, &mut w); m.sim.mem[a] = w; m.shadow[a as usize] = w; }
                        else if q.chance(1, 2) { let v = m.sim.mem[a].get(); m.poke(a, v); }
                    }
                }
            }
            let (a, b) = (s.step(), n.step());
            let same = same_words(&s, &n);
            let go_on = ok(&a) && ok(&b);
            ev.push(obj! {"s": brief(a), "n": brief(b), "init": init, "same": same});
            if !go_on || !same { (s, n) = (make(), make()); }
        }
        obj! {"name": format!("strict steps {i}"), "ev": ev}
    }));
    // programs, until strict mode rejects something
    f.put_all(par(cx.n(96, 960), |i| {
        let mut r = Rng::new(seed, (140 << 32) + i as u64);
        let init = i % 4 == 0;
        let mut o = UOpts::new(if r.chance(1, 2) { End::Halt } else { *r.pick(FAULT_ENDS) });
        o.size = 4;
        o.uninit = !init && r.chance(1, 2);
        let p = generate(&mut r, &o, 0x3000);
        let file = object(&mut r, Some(&p));
        let (ms, is, real) = (r.next(), r.next(), r.chance(1, 2));
        let make = |strict: bool| {
            let fl = SimFlags { machine_init: MachineInitStrategy::Seeded { seed: ms }, use_real_traps: real, strict, ..Default::default() };
            let mut m = M::new(fl, &[("d1", vec![])]);
            if i % 3 == 0 { load(&mut m, &p) } else { m.sim.load_obj_file(&file).unwrap(); m.sim.pc = p.entry; m.resync(); }
            if init { all_init(&mut m) }
            feed(&m, &mut Rng(is), 60);
            m.set_mcr(true);
            m
        };
        let (mut s, mut n) = (make(true), make(false));
        let mut ev = vec![];
        for _ in 0..400 {
            let ask = if r.chance(1, 40) { Some(Ask::Vect(0x80 + r.below(4) as u8, r.below(8) as u8)) } else { None };
            for m in [&mut s, &mut n] { let mut c = m.ctl.lock().unwrap(); c.ask.clear(); if let Some(a) = ask { c.ask.insert("d1", a); } }
            let pc = n.sim.pc;
            let (a, b) = (s.step(), n.step());
            let same = same_words(&s, &n);
            let go_on = ok(&a) && ok(&b) && same;
            ev.push(obj! {"s": brief(a), "n": brief(b), "init": init, "same": same});
            if !go_on || !n.mcr() || n.sim.pc == pc { break; }
        }
        obj! {"name": format!("strict program {i}"), "ev": ev}
    }));
}
