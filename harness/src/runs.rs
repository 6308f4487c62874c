//! C10, C11, C12, C14: whole runs of programs.
use crate::machine::*;
use crate::uprog::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{SimErr, SimFlags, Simulator};

pub fn flags(r: &mut Rng) -> SimFlags {
    SimFlags { machine_init: MachineInitStrategy::Seeded { seed: r.seed() }, ..Default::default() }
}
pub fn load(m: &mut M, p: &UProg) {
    for (a, ws) in &p.code { for (i, &w) in ws.iter().enumerate() { m.poke(a.wrapping_add(i as u16), w); } }
    m.sim.pc = p.entry;
}
pub fn feed(m: &M, r: &mut Rng, n: usize) { m.kb.write().unwrap().extend((0..n).map(|_| r.u16() as u8)); }
/// What a finished run left behind.
pub fn summary(m: &mut M, start: &[Word], res: &Result<Result<(), SimErr>, String>) -> V {
    let end = match res {
        Ok(Ok(())) if m.sim.hit_halt() => "halt".to_string(),
        Ok(Ok(())) => "stopped".into(),
        r => res_name(r),
    };
    let mem: Vec<V> = (0x3000..0xFE00u16).filter(|&a| m.sim.mem[a].get() != start[a as usize].get()).map(|a| arr![a, m.sim.mem[a].get()]).collect();
    let ssp = m.ssp();
    obj! {"end": end, "r": (0..8).map(|i| m.reg(i)).collect::<Vec<_>>(), "psr": m.sim.psr().get(), "ssp": ssp, "pc": m.sim.pc, "mem": mem,
        "out": m.ds.read().unwrap().clone(), "kb": m.kb.read().unwrap().iter().copied().collect::<Vec<u8>>()}
}
pub fn snapshot(s: &Simulator) -> Vec<Word> { (0..=0xFFFFu16).map(|a| s.mem[a]).collect() }

// ---------------------------------------------------------------- C10
/// A handler that saves and restores what it uses.
fn handler(r: &mut Rng, base: u16) -> Vec<u16> {
    let mut c = Code::new(base);
    let used: Vec<u16> = (0..8).filter(|&x| x != 6 && r.chance(1, 2)).collect();
    for &x in &used { c.push(x); }
    let cell = c.label();
    for _ in 0..r.below(6) {
        if used.is_empty() { break; }
        let d = *r.pick(&used);
        match r.below(5) {
            0 => c.w(0x903F | d << 9 | (r.below(8) as u16) << 6),
            1 => c.w(0x5020 | d << 9 | d << 6 | r.below(32) as u16),
            2 => c.to(0x2000 | d << 9, cell, 9),
            3 => { c.to(0x2000 | d << 9, cell, 9); c.add_i(d, d, 1); c.to(0x3000 | d << 9, cell, 9); }
            _ => c.add_i(d, d, r.range(-16, 15) as i16),
        }
    }
    for &x in used.iter().rev() { c.pop(x); }
    c.w(0x8000);
    c.bind(cell);
    c.w(r.u16());
    c.finish().unwrap().words
}
pub const VECTS: [(&str, u8); 2] = [("d1", 0x90), ("d2", 0x55)];
fn irq_machine(seed: u64, real: bool, p: &UProg, input: &[u8], handlers: &[Vec<u16>]) -> M {
    let fl = SimFlags { machine_init: MachineInitStrategy::Seeded { seed }, use_real_traps: real, ..Default::default() };
    let mut m = M::new(fl, &[("d1", vec![]), ("d2", vec![])]);
    load(&mut m, p);
    m.kb.write().unwrap().extend(input);
    for (i, h) in handlers.iter().enumerate() {
        let base = 0x1000 + 0x100 * i as u16;
        m.poke(0x100 + VECTS[i].1 as u16, base);
        for (k, &w) in h.iter().enumerate() { m.poke(base + k as u16, w); }
    }
    m
}
/// Runs with the interrupt requests given by (step, device, priority); a request stays until taken.
fn run_irq(m: &mut M, reqs: &[(usize, usize, u8)], limit: usize) -> (Result<Result<(), SimErr>, String>, usize, usize) {
    let (ctl, mut n, mut taken) = (m.ctl.clone(), 0, 0);
    let mut pend: Vec<Option<u8>> = vec![None; 2];
    let r = guarded(|| "interrupted run".into(), || m.sim.run_while(|s| {
        // did the last step enter a handler?
        for d in 0..2 {
            if pend[d].is_some() && s.pc == 0x1000 + 0x100 * d as u16 { pend[d] = None; taken += 1; }
        }
        for &(t, d, p) in reqs { if t == n { pend[d] = Some(p); } }
        let mut c = ctl.lock().unwrap();
        c.log.clear();
        c.ask.clear();
        for d in 0..2 { if let Some(p) = pend[d] { c.ask.insert(VECTS[d].0, Ask::Vect(VECTS[d].1, p)); } }
        n += 1;
        n <= limit
    }));
    (r, n, taken)
}
pub fn c10(cx: &Cx) {
    let mut f = cx.file("T_C10.ndjson");
    let seed = cx.seed;
    f.put_all(one_steps(cx, 10, cx.n(24, 300), 150, Mode { user: 50, ign: 10, real: 50, irq: 60, plain: true, outside: 10 }, false));
    f.put_all(one_steps(cx, 11, cx.n(24, 300), 150, Mode { irq: 70, ..ANY }, false));
    let mut r = cx.rng(101);
    let cs = crate::grid::interrupts(&mut r);
    f.put_all(crate::grid::run_cases(seed, cs, false, false));
    f.put_all(par(cx.n(48, 480), |i| {
        let mut r = Rng::new(seed, (1010 << 32) + i as u64);
        let mut o = UOpts::new(*r.pick(&[End::Halt, End::Halt, End::Halt, End::BadTrap, End::IllOp]));
        o.size = 4;
        let real = r.chance(1, 2);
        let p = generate(&mut r, &o, 0x3000);
        let input: Vec<u8> = (0..600).map(|_| r.u16() as u8).collect();
        let hs: Vec<Vec<u16>> = (0..2).map(|k| handler(&mut r, 0x1000 + 0x100 * k)).collect();
        let s = r.next();
        let mut ev = vec![];
        let (base, len) = {
            let mut m = irq_machine(s, real, &p, &input, &hs);
            let start = snapshot(&m.sim);
            let (res, n, _) = run_irq(&mut m, &[], 30000);
            (summary(&mut m, &start, &res), n)
        };
        for k in 0..10 {
            let nreq = if k == 0 { 1 } else { 1 + r.below(12) };
            let reqs: Vec<(usize, usize, u8)> = (0..nreq).map(|_| (r.below(len), r.below(2), 1 + r.below(9) as u8)).collect();
            let mut m = irq_machine(s, real, &p, &input, &hs);
            let start = snapshot(&m.sim);
            let (res, n, taken) = run_irq(&mut m, &reqs, 60000 + len);
            let fin = summary(&mut m, &start, &res);
            let _ = n;
            ev.push(obj! {"pair": true, "a": base.clone(), "b": fin, "taken": taken, "reqs": reqs.iter().map(|q| arr![q.0, q.1, q.2]).collect::<Vec<_>>()});
        }
        obj! {"name": format!("interrupted runs {i}"), "ev": ev}
    }));
}
