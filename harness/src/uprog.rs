//! Random machine-code programs that always end, with a small assembler of their own
//! (these checks must not depend on the assembler under test).
use crate::util::*;

pub struct Code { pub base: u16, pub words: Vec<u16>, labels: Vec<Option<u16>>, fix: Vec<(usize, usize, u32)> }
impl Code {
    pub fn new(base: u16) -> Code { Code { base, words: vec![], labels: vec![], fix: vec![] } }
    pub fn here(&self) -> u16 { self.base.wrapping_add(self.words.len() as u16) }
    pub fn label(&mut self) -> usize { self.labels.push(None); self.labels.len() - 1 }
    pub fn bind(&mut self, l: usize) { self.labels[l] = Some(self.here()); }
    pub fn w(&mut self, w: u16) { self.words.push(w); }
    /// word with a PC-relative field of `bits` bits (16: the address itself)
    pub fn to(&mut self, w: u16, l: usize, bits: u32) { self.fix.push((self.words.len(), l, bits)); self.words.push(w); }
    pub fn addr(&self, l: usize) -> u16 { self.labels[l].unwrap() }
    pub fn finish(mut self) -> Option<Code> {
        for &(i, l, bits) in &self.fix {
            let a = self.labels[l].expect("label");
            if bits == 16 { self.words[i] = a; continue; }
            let d = a.wrapping_sub(self.base.wrapping_add(i as u16 + 1)) as i16 as i32;
            if !(-(1 << (bits - 1))..1 << (bits - 1)).contains(&d) { return None; }
            self.words[i] |= d as u16 & ((1 << bits) - 1) as u16;
        }
        self.fix.clear();
        Some(self)
    }
    pub fn add_i(&mut self, d: u16, s: u16, i: i16) { self.w(0x1020 | d << 9 | s << 6 | (i as u16 & 31)); }
    pub fn push(&mut self, x: u16) { self.add_i(6, 6, -1); self.w(0x7000 | x << 9 | 6 << 6); }
    pub fn pop(&mut self, x: u16) { self.w(0x6000 | x << 9 | 6 << 6); self.add_i(6, 6, 1); }
    pub fn br(&mut self, nzp: u16, l: usize) { self.to(nzp << 9, l, 9); }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End { Halt, AcvLoad, AcvStore, AcvJump, Rti, IllOp, Format, BadTrap, Mcr }
pub const FAULT_ENDS: &[End] = &[End::AcvLoad, End::AcvStore, End::AcvJump, End::Rti, End::IllOp, End::Format];
pub struct UOpts {
    pub io: bool,        // OUT/PUTS/PUTSP
    pub input: bool,     // GETC/IN
    pub calls: bool,
    pub uninit: bool,    // read words nobody wrote
    pub stray: bool,     // jumps through registers, stores into the code now and then
    pub end: End,
    pub size: usize,
}
impl UOpts { pub fn new(end: End) -> UOpts { UOpts { io: true, input: true, calls: true, uninit: false, stray: false, end, size: 5 } } }
pub struct UProg { pub code: Vec<(u16, Vec<u16>)>, pub entry: u16, pub subs: Vec<u16>, pub blkw: Vec<(u16, u16)> }

struct Gen<'a> { c: Code, r: &'a mut Rng, o: &'a UOpts, subs: Vec<usize>, data: Vec<usize>, ptrs: Vec<usize>, strs: Vec<usize>, pstrs: Vec<usize>, blk: usize }
impl Gen<'_> {
    fn alu(&mut self) {
        let r = &mut *self.r;
        let (d, s, t) = (r.below(4) as u16, r.below(5) as u16, r.below(4) as u16);
        let w = match r.below(5) {
            0 => 0x1000 | d << 9 | s << 6 | t,
            1 => 0x1020 | d << 9 | s << 6 | r.below(32) as u16,
            2 => 0x5000 | d << 9 | s << 6 | t,
            3 => 0x5020 | d << 9 | s << 6 | r.below(32) as u16,
            _ => 0x903F | d << 9 | s << 6,
        };
        self.c.w(w);
    }
    fn mem(&mut self) {
        let d = self.r.below(4) as u16;
        let l = *self.r.pick(&self.data);
        let p = *self.r.pick(&self.ptrs);
        let off = self.r.below(4) as u16;
        match self.r.below(if self.o.uninit { 9 } else { 7 }) {
            0 => self.c.to(0x2000 | d << 9, l, 9),
            1 => self.c.to(0x3000 | d << 9, l, 9),
            2 => self.c.to(0xA000 | d << 9, p, 9),
            3 => self.c.to(0xB000 | d << 9, p, 9),
            4 => self.c.w(0x6000 | d << 9 | 4 << 6 | off),
            5 => self.c.w(0x7000 | d << 9 | 4 << 6 | off),
            6 => self.c.to(0xE000 | d << 9, l, 9),
            7 => { let b = self.blk; self.c.to(0x2000 | d << 9, b, 9) }
            _ => { self.c.w(0x6000 | d << 9 | 6 << 6 | (self.r.range(-4, 4) as u16 & 63)) }
        }
    }
    fn block(&mut self, depth: usize) {
        for _ in 0..1 + self.r.below(self.o.size) {
            match self.r.below(12) {
                0..=3 => self.alu(),
                4..=6 => self.mem(),
                7 if depth < 2 => {
                    // counted loop on R5
                    let n = 1 + self.r.below(3) as i16;
                    self.c.push(5);
                    self.c.w(0x5B60);
                    self.c.add_i(5, 5, n);
                    let top = self.c.label();
                    self.c.bind(top);
                    self.block(depth + 1);
                    self.c.add_i(5, 5, -1);
                    self.c.br(1, top);
                    self.c.pop(5);
                }
                8 => {
                    let (els, end) = (self.c.label(), self.c.label());
                    let nzp = 1 + self.r.below(6) as u16;
                    self.alu();
                    self.c.br(nzp, els);
                    self.alu();
                    self.c.br(7, end);
                    self.c.bind(els);
                    self.mem();
                    self.c.bind(end);
                }
                9 if self.o.calls && !self.subs.is_empty() => {
                    let s = *self.r.pick(&self.subs);
                    if self.r.chance(1, 2) { self.c.to(0x4800, s, 11); } else { self.c.to(0xE600, s, 9); self.c.w(0x40C0); }
                }
                10 if self.o.io => match self.r.below(4) {
                    0 => { let s = *self.r.pick(&self.strs); self.c.to(0xE000, s, 9); self.c.w(0xF022); }
                    1 => { let s = *self.r.pick(&self.pstrs); self.c.to(0xE000, s, 9); self.c.w(0xF024); }
                    _ => self.c.w(0xF021),
                },
                11 if self.o.input => { let t = if self.r.chance(4, 5) { 0xF020 } else { 0xF023 }; self.c.w(t); }
                _ => self.alu(),
            }
        }
    }
}
/// A program at x3000.. (or `base`) for user mode; R6 is its stack.
pub fn generate(r: &mut Rng, o: &UOpts, base: u16) -> UProg {
    loop { if let Some(p) = attempt(r, o, base) { return p; } }
}
fn attempt(r: &mut Rng, o: &UOpts, base: u16) -> Option<UProg> {
    let mut g = Gen { c: Code::new(base), r, o, subs: vec![], data: vec![], ptrs: vec![], strs: vec![], pstrs: vec![], blk: 0 };
    for _ in 0..3 { let l = g.c.label(); g.data.push(l); let l = g.c.label(); g.ptrs.push(l); let l = g.c.label(); g.strs.push(l); let l = g.c.label(); g.pstrs.push(l); }
    g.blk = g.c.label();
    let sp = g.c.label();
    let bad = g.c.label();
    let nsub = if o.calls { g.r.below(4) } else { 0 };
    let subs: Vec<usize> = (0..nsub).map(|_| g.c.label()).collect();
    // registers
    let init = |g: &mut Gen| {
        for d in 0..6u16 { let l = g.data[d as usize % 3]; if d != 4 { if g.o.uninit && g.r.chance(1, 4) { continue; } g.c.to(0x2000 | d << 9, l, 9); } }
        let l = g.data[0];
        g.c.to(0xE800, l, 9);
        g.c.to(0x2C00, sp, 9);
    };
    init(&mut g);
    g.subs = subs.clone();
    g.block(0);
    match o.end {
        End::Halt => g.c.w(0xF025),
        End::AcvLoad => { let d = g.r.below(4) as u16; g.c.to(0xA000 | d << 9, bad, 9); }
        End::AcvStore => { let d = g.r.below(4) as u16; if g.r.chance(1, 2) { g.c.to(0xB000 | d << 9, bad, 9) } else { g.c.to(0x2600, bad, 9); g.c.w(0x7000 | d << 9 | 3 << 6) } }
        End::AcvJump => { g.c.to(0x2600, bad, 9); g.c.w(0xC0C0); }
        End::Rti => g.c.w(0x8000),
        End::IllOp => { let x = g.r.below(0x1000) as u16; g.c.w(0xD000 | x) }
        End::Format => { let x = *g.r.pick(&[0x1008, 0x5010, 0x903E, 0x8001, 0xF125, 0xC1C1, 0x4001, 0x4200, 0xC9C0]); g.c.w(x) }
        End::BadTrap => { let v = *g.r.pick(&[0u16, 0x1F, 0x26, 0x80, 0xFF]); g.c.w(0xF000 | v) }
        End::Mcr => { let (m, l) = (g.c.label(), g.c.label()); g.c.br(7, l); g.c.bind(m); g.c.w(0xFFFE); g.c.bind(l); g.c.w(0x56E0); g.c.to(0xB600, m, 9); g.c.w(0xF025); }
    }
    let mut starts = vec![];
    for (i, &s) in subs.iter().enumerate() {
        g.c.bind(s);
        starts.push(s);
        g.subs = subs[i + 1..].to_vec();
        let save = !g.subs.is_empty() || o.io || o.input;
        if save { g.c.push(7); }
        g.block(2);
        if save { g.c.pop(7); }
        g.c.w(0xC1C0);
    }
    // data
    for i in 0..3 {
        let l = g.data[i]; g.c.bind(l); let w = g.r.word(); g.c.w(w);
        let w = g.r.word(); g.c.w(w);
    }
    for i in 0..3 { let (l, d) = (g.ptrs[i], *g.r.pick(&g.data)); g.c.bind(l); g.c.to(0, d, 16); }
    for i in 0..3 {
        let l = g.strs[i]; g.c.bind(l);
        for _ in 0..g.r.below(4) { let w = 1 + g.r.below(0xFF) as u16 | if g.r.chance(1, 4) { g.r.u16() & 0xFF00 } else { 0 }; g.c.w(w); }
        g.c.w(0);
    }
    for i in 0..3 {
        let l = g.pstrs[i]; g.c.bind(l);
        for _ in 0..g.r.below(3) { let w = (1 + g.r.below(0xFF) as u16) | (1 + g.r.below(0xFF) as u16) << 8; g.c.w(w); }
        let w = if g.r.chance(1, 2) { 0 } else { 1 + g.r.below(0xFF) as u16 };
        g.c.w(w);
        if w != 0 { let t = g.r.below(2) as u16; g.c.w(if t == 0 { 0 } else { 0x4100 }); }
    }
    g.c.bind(sp);
    let s = 0xF000 + g.r.below(0xD00) as u16; g.c.w(s);
    g.c.bind(bad);
    let b = *g.r.pick(&[0u16, 0x2FFF, 0x200, 0xFE00, 0xFE02, 0xFE06, 0xFFFC, 0xFFFE, 0xFFFF, 0x100]); g.c.w(b);
    let end = g.c.here();
    g.c.bind(g.blk);
    let c = g.c.finish()?;
    Some(UProg { entry: base, subs: starts.iter().map(|&l| c.addr(l)).collect(), blkw: vec![(end, 4)], code: vec![(c.base, c.words)] })
}
