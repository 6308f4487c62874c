//! C06, C07, C35: instruction words and bounded offsets.
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::asm::assemble;
use lc3_ensemble::ast::asm::disassemble_line;
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::ast::{IOffset, ImmOrReg, Offset, OffsetNewErr, Reg, TrapVect8};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::SimErr;

pub fn reg(n: u8) -> Reg { Reg::try_from(n).unwrap() }
fn ir<const N: u32>(v: &ImmOrReg<N>) -> (i64, i64) {
    match v {
        ImmOrReg::Imm(i) => (1, i.get() as i64),
        ImmOrReg::Reg(r) => (0, r.reg_no() as i64),
    }
}
pub fn instr_json(i: &SimInstr) -> V {
    match i {
        SimInstr::BR(cc, o) => arr!["BR", *cc, o.get()],
        SimInstr::ADD(d, s, v) => { let (m, x) = ir(v); arr!["ADD", d.reg_no(), s.reg_no(), m, x] }
        SimInstr::AND(d, s, v) => { let (m, x) = ir(v); arr!["AND", d.reg_no(), s.reg_no(), m, x] }
        SimInstr::LD(r, o) => arr!["LD", r.reg_no(), o.get()],
        SimInstr::ST(r, o) => arr!["ST", r.reg_no(), o.get()],
        SimInstr::JSR(v) => { let (m, x) = ir(v); arr!["JSR", m, x] }
        SimInstr::LDR(r, b, o) => arr!["LDR", r.reg_no(), b.reg_no(), o.get()],
        SimInstr::STR(r, b, o) => arr!["STR", r.reg_no(), b.reg_no(), o.get()],
        SimInstr::RTI => arr!["RTI"],
        SimInstr::NOT(d, s) => arr!["NOT", d.reg_no(), s.reg_no()],
        SimInstr::LDI(r, o) => arr!["LDI", r.reg_no(), o.get()],
        SimInstr::STI(r, o) => arr!["STI", r.reg_no(), o.get()],
        SimInstr::JMP(b) => arr!["JMP", b.reg_no()],
        SimInstr::LEA(r, o) => arr!["LEA", r.reg_no(), o.get()],
        SimInstr::TRAP(v) => arr!["TRAP", v.get()],
    }
}
pub fn all_instrs() -> Vec<SimInstr> {
    let mut v = vec![];
    let r8: Vec<Reg> = (0..8).map(reg).collect();
    for cc in 0..8u8 { for o in -256..256 { v.push(SimInstr::BR(cc, IOffset::new_trunc(o))); } }
    for &d in &r8 { for &s in &r8 {
        for &x in &r8 { v.push(SimInstr::ADD(d, s, ImmOrReg::Reg(x))); v.push(SimInstr::AND(d, s, ImmOrReg::Reg(x))); }
        for i in -16..16 { v.push(SimInstr::ADD(d, s, ImmOrReg::Imm(IOffset::new_trunc(i)))); v.push(SimInstr::AND(d, s, ImmOrReg::Imm(IOffset::new_trunc(i)))); }
        for i in -32..32 { v.push(SimInstr::LDR(d, s, IOffset::new_trunc(i))); v.push(SimInstr::STR(d, s, IOffset::new_trunc(i))); }
        v.push(SimInstr::NOT(d, s));
    } }
    for &r in &r8 { for o in -256..256 {
        let o = IOffset::new_trunc(o);
        v.extend([SimInstr::LD(r, o), SimInstr::LDI(r, o), SimInstr::LEA(r, o), SimInstr::ST(r, o), SimInstr::STI(r, o)]);
    } }
    for o in -1024..1024 { v.push(SimInstr::JSR(ImmOrReg::Imm(IOffset::new_trunc(o)))); }
    for &r in &r8 { v.push(SimInstr::JSR(ImmOrReg::Reg(r))); v.push(SimInstr::JMP(r)); }
    v.push(SimInstr::RTI);
    for t in 0..256 { v.push(SimInstr::TRAP(TrapVect8::new_trunc(t))); }
    v
}
fn decode_json(w: u16) -> V {
    match catch(|| SimInstr::decode(w)) {
        Ok(Ok(i)) => match catch(|| i.encode()) {
            Ok(e) => arr!["ok", instr_json(&i), e],
            Err(p) => arr!["panic", p],
        },
        Ok(Err(SimErr::IllegalOpcode)) => arr!["ill"],
        Ok(Err(SimErr::InvalidInstrFormat)) => arr!["fmt"],
        Ok(Err(e)) => arr!["err", format!("{e:?}")],
        Err(p) => arr!["panic", p],
    }
}
pub fn c06(cx: &Cx) {
    let mut f = cx.file("T_C06.ndjson");
    for c in 0..256u32 {
        let ev: Vec<V> = (c * 256..(c + 1) * 256).map(|w| arr!["D", w, decode_json(w as u16)]).collect();
        f.put(&obj! {"name": format!("decode {:02X}xx", c), "ev": ev});
    }
    for (n, ch) in all_instrs().chunks(256).enumerate() {
        let ev: Vec<V> = ch.iter().map(|i| {
            let (e, d) = match catch(|| i.encode()) {
                Ok(e) => (e as i64, decode_json(e)),
                Err(p) => (-1, arr!["panic", p]),
            };
            arr!["E", instr_json(i), e, d]
        }).collect();
        f.put(&obj! {"name": format!("encode {n}"), "ev": ev});
    }
}

/// The single word that `text` assembles to at address `addr`; negative: parse error, assembly
/// error, not exactly that one word, panic.
pub fn asm_word(text: &str, addr: u16) -> i64 {
    let src = format!(".orig x{addr:04X}\n{text}\n.end\n");
    match catch(|| {
        let Ok(ast) = parse_ast(&src) else { return -1 };
        let Ok(obj) = assemble(ast) else { return -2 };
        let ws: Vec<_> = obj.addr_iter().collect();
        match ws[..] { [(a, Some(w))] if a == addr => w as i64, _ => -3 }
    }) { Ok(v) => v, Err(_) => -4 }
}
pub fn c07(cx: &Cx) {
    let mut f = cx.file("T_C07.ndjson");
    let seed = cx.seed;
    let per = cx.n(3, 8);
    f.put_all(par(256, |c| {
        let mut rng = Rng::new(seed, 700 + c as u64);
        let ev: Vec<V> = (c * 256..(c + 1) * 256).map(|w| {
            let text = match catch(|| disassemble_line(w as u16).to_string()) { Ok(t) => t, Err(_) => "panic".into() };
            let mn = text.split_whitespace().next().unwrap_or("").to_uppercase();
            let mut addrs = vec![0x3000u16, *rng.pick(&[0u16, 1, 0xFDFF, 0xFDFE, 0x7FFF, 0x8000])];
            while addrs.len() < per { addrs.push(rng.below(0xFE00) as u16); }
            let ws: Vec<i64> = addrs.iter().map(|&a| asm_word(&text, a)).collect();
            arr![w, mn, ws, cps(&text)]
        }).collect();
        obj! {"name": format!("disassemble {c:02X}xx"), "ev": ev}
    }));
}

/// Results of `f` on lo..=hi, compressed into maximal runs with the same (status, held - value).
fn runs(lo: i64, hi: i64, f: impl Fn(i64) -> (i64, i64)) -> Vec<(i64, i64, i64, i64)> {
    let mut out: Vec<(i64, i64, i64, i64)> = vec![];
    for v in lo..=hi {
        let (s, held) = f(v);
        let d = if s == 1 { held - v } else { held };
        match out.last_mut() {
            Some((_, b, s0, d0)) if *s0 == s && *d0 == d => *b = v,
            _ => out.push((v, v, s, d)),
        }
    }
    out
}
fn errcode(e: OffsetNewErr) -> i64 {
    match e { OffsetNewErr::CannotFitUnsigned(n) => n as i64, OffsetNewErr::CannotFitSigned(n) => 100 + n as i64 }
}
// status: 1 held, 0 rejected, 2 panic
fn off_new<const N: u32>(signed: bool, v: i64) -> (i64, i64) {
    match catch(|| if signed { Offset::<i16, N>::new(v as i16).map(|o| o.get() as i64) } else { Offset::<u16, N>::new(v as u16).map(|o| o.get() as i64) }) {
        Ok(Ok(h)) => (1, h), Ok(Err(e)) => (0, errcode(e)), Err(_) => (2, 0),
    }
}
fn off_trunc<const N: u32>(signed: bool, v: i64) -> (i64, i64) {
    match catch(|| if signed { Offset::<i16, N>::new_trunc(v as i16).get() as i64 } else { Offset::<u16, N>::new_trunc(v as u16).get() as i64 }) {
        Ok(h) => (1, h), Err(_) => (2, 0),
    }
}
fn c35_n<const N: u32>(out: &mut Vec<V>) {
    for signed in [true, false] {
        let (lo, hi) = if signed { (-32768, 32767) } else { (0, 65535) };
        for (k, rs) in [("new", runs(lo, hi, |v| off_new::<N>(signed, v))), ("trunc", runs(lo, hi, |v| off_trunc::<N>(signed, v)))] {
            for ch in rs.chunks(1024) {
                let ev: Vec<V> = ch.iter().map(|&(a, b, s, d)| arr![a, b, s, d]).collect();
                out.push(obj! {"name": format!("{k} N={N} signed={signed} from {}", ch[0].0), "kind": k, "n": N, "signed": signed,
                    "lo": lo, "hi": hi, "ev": ev});
            }
        }
    }
}
pub fn c35(cx: &Cx) {
    let mut out = vec![];
    macro_rules! all { ($($n:literal)*) => { $(c35_n::<$n>(&mut out);)* } }
    all!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    let mut f = cx.file("T_C35.ndjson");
    f.put_all(out);
}
