//! Random assembly programs: abstract statements, rendered to text in random layouts.
use crate::sweep::sp;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::asm::{AsmErr, ObjectFile};
use lc3_ensemble::ast::asm::{AsmInstr, Directive, Stmt, StmtKind};
use lc3_ensemble::ast::{ImmOrReg, PCOffset};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Arg { R(u8), N(i64), L(String), S(String) }
/// A statement; `op` is canonical ("ADD", "BR3", ".FILL", ...: BRn carries its condition mask).
#[derive(Clone, Debug, PartialEq)]
pub struct St { pub labels: Vec<String>, pub op: String, pub args: Vec<Arg> }
impl St {
    pub fn new(op: &str, args: Vec<Arg>) -> St { St { labels: vec![], op: op.into(), args } }
    pub fn size(&self) -> u32 {
        match (self.op.as_str(), self.args.first()) {
            (".ORIG" | ".END" | ".EXTERNAL", _) => 0,
            (".BLKW", Some(Arg::N(n))) => *n as u32,
            (".STRINGZ", Some(Arg::S(s))) => s.len() as u32 + 1,
            _ => 1,
        }
    }
}
pub const OPS: &[&str] = &["ADD", "AND", "NOT", "BR", "JMP", "JSR", "JSRR", "LD", "LDI", "LDR", "LEA", "ST", "STI", "STR",
    "TRAP", "NOP", "RET", "RTI", "GETC", "OUT", "PUTC", "PUTS", "IN", "PUTSP", "HALT", ".FILL", ".BLKW", ".STRINGZ"];

// ------------------------------------------------------------ names, literals
const KW: &[&str] = &["ADD","AND","NOT","BR","BRP","BRZ","BRZP","BRN","BRNP","BRNZ","BRNZP","JMP","JSR","JSRR","LD","LDI","LDR",
    "LEA","ST","STI","STR","TRAP","NOP","RET","RTI","GETC","OUT","PUTC","PUTS","IN","PUTSP","HALT"];
/// Whether the text is a label by the grammar (not a keyword, register or hex literal).
pub fn is_label(s: &str) -> bool {
    let b = s.as_bytes();
    if b.is_empty() || !(b[0].is_ascii_alphabetic() || b[0] == b'_') { return false; }
    if !s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || is_latin(c)) { return false; }
    if KW.contains(&s.to_ascii_uppercase().as_str()) { return false; }
    if (b[0] | 32) == b'x' && b.len() > 1 && b[1].is_ascii_hexdigit() { return false; }
    if (b[0] | 32) == b'r' && b.len() > 1 && b[1..].iter().all(u8::is_ascii_digit) { return false; }
    true
}
/// Latin-1 letters with a one-to-one case pair in Latin-1.
pub fn is_latin(c: char) -> bool { matches!(c, 'À'..='Þ' | 'à'..='þ') && c != '×' && c != '÷' }
pub fn gen_label(r: &mut Rng) -> String {
    loop {
        let s = match r.below(10) {
            9 => { let n = 1 + r.below(5); (0..n).map(|k| if k > 0 && r.chance(1, 2) { *r.pick(&['é', 'É', 'ñ', 'Ñ', 'À', 'þ', 'ö', 'Ø']) } else { *r.pick(&['a', 'L', '_', 'x', 'q']) }).collect() }
            0 => r.pick(&["X", "R", "_", "xg1", "Xyz", "R1A", "r_7", "ADDX", "BRNPZ", "fill", "orig", "LDX", "x_1", "RR0", "Rx", "HALT_", "L", "END", "STRINGZ", "_0", "loop", "LOOP1"]).to_string(),
            1 => { let n = 1 + r.below(40); (0..n).map(|_| *r.pick(&[b'A', b'z', b'_', b'q', b'0', b'9', b'm', b'x']) as char).collect() }
            2 => format!("{}{}", r.pick(KW), r.below(10)),
            _ => { let n = 1 + r.below(6); (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") as char).collect() }
        };
        if is_label(&s) { return s; }
    }
}
/// Upper/lower case; keywords and the like are ASCII, labels may have Latin-1 letters.
pub fn upper(c: char) -> char { if is_latin(c) { c.to_uppercase().next().unwrap() } else { c.to_ascii_uppercase() } }
pub fn lower(c: char) -> char { if is_latin(c) { c.to_lowercase().next().unwrap() } else { c.to_ascii_lowercase() } }
pub fn uppercase(s: &str) -> String { s.chars().map(upper).collect() }
pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => uppercase(s),
        1 => s.chars().map(lower).collect(),
        2 => s.chars().map(|c| if r.chance(1, 2) { upper(c) } else { lower(c) }).collect(),
        _ => s.to_string(),
    }
}
pub fn gen_str(r: &mut Rng, max: usize, wild: bool) -> String {
    let n = match r.below(6) { 0 => 0, 1 => 1, _ => r.below(max + 1) };
    (0..n).map(|_| match r.below(if wild { 14 } else { 11 }) {
        0 => '\n', 1 => '\t', 2 => '\\', 3 => '"', 4 => '\0', 5 => '\r', 6 => *r.pick(&[';', ':', ',', '.', '\'', '#', '{', '}', '~', ' ']),
        7..=10 => (32 + r.below(95)) as u8 as char,
        11 => *r.pick(&['é', 'ß', '→', '😀', '\u{301}', 'İ', '\u{7f}', '\u{85}']),
        12 => *r.pick(&['\u{1}', '\u{8}', '\u{1b}', '\u{b}', '\u{c}']),
        _ => char::from_u32(0x80 + r.below(0x700) as u32).unwrap(),
    }).collect()
}
/// One statement of the given kind; `lab` supplies label operands (None: numeric).
pub fn gen_op(r: &mut Rng, op: &str, lab: &mut dyn FnMut(&mut Rng, &str) -> Option<String>, wild: bool) -> St {
    let reg = |r: &mut Rng| Arg::R(r.below(8) as u8);
    let sig = |r: &mut Rng, n: u32| { let lo = -(1i64 << (n - 1)); let hi = -lo - 1;
        Arg::N(match r.below(5) { 0 => lo, 1 => hi, 2 => *r.pick(&[-1i64, 0, 1]), _ => r.range(lo, hi) }) };
    let mut pc = |r: &mut Rng, n: u32| match lab(r, op) { Some(l) => Arg::L(l), None => sig(r, n) };
    let a = match op {
        "ADD" | "AND" => { let x = reg(r); let y = reg(r); let z = if r.chance(1, 2) { reg(r) } else { sig(r, 5) }; vec![x, y, z] }
        "NOT" => vec![reg(r), reg(r)],
        "BR" => { let k = 1 + r.below(7); return St::new(&format!("BR{k}"), vec![pc(r, 9)]); }
        "NOP" => vec![if r.chance(1, 3) { Arg::N(0) } else { pc(r, 9) }],
        "JSR" => vec![pc(r, 11)],
        "JMP" | "JSRR" => vec![reg(r)],
        "LD" | "LDI" | "LEA" | "ST" | "STI" => { let x = reg(r); vec![x, pc(r, 9)] }
        "LDR" | "STR" => vec![reg(r), reg(r), sig(r, 6)],
        "TRAP" => vec![Arg::N(match r.below(3) { 0 => 0x20 + r.below(7) as i64, 1 => *r.pick(&[0, 255, 1]), _ => r.below(256) as i64 })],
        ".FILL" => vec![match lab(r, op) { Some(l) => Arg::L(l), None => Arg::N(match r.below(4) { 0 => *r.pick(&[0, 65535, -32768, -1, 32767, 32768, 1]), 1 => r.range(-32768, -1), _ => r.range(0, 65535) }) }],
        ".BLKW" => vec![Arg::N(if r.chance(1, 6) { r.range(1, 300) } else { r.range(1, 6) })],
        ".STRINGZ" => vec![Arg::S(gen_str(r, 12, wild))],
        ".ORIG" => vec![Arg::N(r.range(0, 65535))],
        ".EXTERNAL" => vec![Arg::L(match lab(r, op) { Some(l) => l, None => gen_label(r) })],
        _ => vec![],
    };
    St::new(op, a)
}

// ------------------------------------------------------------ whole programs
/// How a generated program may be wrong.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { None, LabelOutside, StmtOutside, Unclosed, Unopened, Nested, DupLabel, DupExternal, Undefined, FarLabel, ExternalOperand, Overlap, Wrap, Io }
pub const FAULTS: &[Fault] = &[Fault::LabelOutside, Fault::StmtOutside, Fault::Unclosed, Fault::Unopened, Fault::Nested, Fault::DupLabel,
    Fault::DupExternal, Fault::Undefined, Fault::FarLabel, Fault::ExternalOperand, Fault::Overlap, Fault::Wrap, Fault::Io];
#[derive(Clone)]
pub struct Opts { pub blocks: usize, pub stmts: usize, pub wild: bool, pub externals: bool, pub origins: Vec<i64>, pub extra: Vec<String> }
impl Opts { pub fn small() -> Opts { Opts { blocks: 3, stmts: 7, wild: false, externals: true, origins: vec![], extra: vec![] } } }

fn pc_bits(op: &str) -> i64 { if op == "JSR" { 11 } else { 9 } }

/// A program that is well-formed except for the given fault (best effort: the specification decides).
pub fn gen_prog(r: &mut Rng, o: &Opts, fault: Fault) -> Vec<St> {
    let nb = if r.chance(1, 12) { 0 } else { 1 + r.below(o.blocks) };
    let mut used: BTreeMap<String, ()> = BTreeMap::new();
    let mut fresh = |r: &mut Rng| loop { let l = gen_label(r); if used.insert(uppercase(&l), ()).is_none() { return l; } };
    // externals (may be declared anywhere)
    let exts: Vec<String> = if o.externals && r.chance(1, 2) { (0..1 + r.below(3)).map(|_| if !o.extra.is_empty() && r.chance(1, 2) { r.pick(&o.extra).clone() } else { fresh(r) }).collect() } else { vec![] };
    // skeleton: statements without label operands, labels, addresses
    struct Slot { st: St, addr: i64 }
    let mut blocks: Vec<Vec<Slot>> = vec![];
    let mut origins: Vec<i64> = vec![];
    let mut ranges: Vec<(i64, i64)> = vec![];
    for b in 0..nb {
        let n = if r.chance(1, 10) { 0 } else { 1 + r.below(o.stmts) };
        let mut sts: Vec<St> = vec![];
        for _ in 0..n {
            let op = *r.pick(OPS);
            let mut s = gen_op(r, op, &mut |_, _| None, o.wild);
            let k = match r.below(8) { 0..=3 => 1, 4 => 2, _ => 0 };
            for _ in 0..k { s.labels.push(fresh(r)); }
            sts.push(s);
        }
        let size: i64 = sts.iter().map(|s| s.size() as i64).sum();
        let mut orig;
        let mut tries = 0;
        loop {
            orig = if let Some(x) = o.origins.get(b) { *x } else { match r.below(8) {
                0 if !ranges.is_empty() => r.pick(&ranges).1,                 // directly after another block
                1 if !ranges.is_empty() => r.pick(&ranges).0 - size,          // directly before another block
                2 => 0xFE00 - size,                                           // up to the I/O page
                3 => r.range(0, 0x40),
                4 => r.range(1, 0xFD00),
                _ => 0x3000 + r.range(0, 0x60),
            } };
            tries += 1;
            let ok = orig >= 0 && orig + size <= 0xFE00 && (size == 0 || ranges.iter().all(|(a, z)| a == z || orig + size <= *a || orig >= *z));
            if ok || tries > 60 || o.origins.get(b).is_some() { break; }
        }
        match fault {
            Fault::Overlap if b + 1 == nb && !ranges.is_empty() => { let t = *r.pick(&ranges); orig = (t.0 - size + 1 + r.range(0, (t.1 - t.0 + size - 2).max(0))).max(0); }
            Fault::Wrap if b + 1 == nb => { orig = 0x10000 - r.range(0, size.max(1)); if orig > 0xFFFF { orig = 0xFFFF; } }
            Fault::Io if b + 1 == nb => { orig = if r.chance(1, 2) { 0xFE00 - size + r.range(1, size.max(1)) } else { r.range(0xFE00, 0xFFFF) }; orig = orig.clamp(0, 0xFFFF); }
            _ => {}
        }
        ranges.push((orig, orig + size));
        origins.push(orig);
        let mut at = orig;
        blocks.push(sts.into_iter().map(|st| { let a = at; at += st.size() as i64; Slot { st, addr: a } }).collect());
    }
    let defined: Vec<(String, i64)> = blocks.iter().flatten().flat_map(|s| s.st.labels.iter().map(move |l| (l.clone(), s.addr))).collect();
    // label operands
    for s in blocks.iter_mut().flatten() {
        let op = s.st.op.clone();
        let pcop = op.starts_with("BR") && op.len() == 3 || ["LD", "LDI", "LEA", "ST", "STI", "JSR", "NOP"].contains(&op.as_str());
        if !(pcop || op == ".FILL") || !r.chance(3, 5) { continue; }
        let l = if op == ".FILL" {
            if !exts.is_empty() && r.chance(1, 2) { Some(r.pick(&exts).clone()) } else if defined.is_empty() { None } else { Some(r.pick(&defined).0.clone()) }
        } else {
            let h = 1i64 << (pc_bits(&op) - 1);
            let near: Vec<&(String, i64)> = defined.iter().filter(|(_, a)| { let d = a - (s.addr + 1); -h <= d && d < h }).collect();
            if near.is_empty() { None } else { Some(r.pick(&near).0.clone()) }
        };
        if let Some(l) = l { let l = recase(r, &l); *s.st.args.last_mut().unwrap() = Arg::L(l); }
    }
    // lay the blocks out in source order (shuffled)
    let mut prog: Vec<St> = vec![];
    let mut ext_left: Vec<String> = exts.clone();
    for (b, sl) in blocks.into_iter().enumerate() {
        if !ext_left.is_empty() && r.chance(1, 3) { let e = ext_left.pop().unwrap(); prog.push(St::new(".EXTERNAL", vec![Arg::L(e)])); }
        prog.push(St::new(".ORIG", vec![Arg::N(origins[b])]));
        for s in sl {
            if !ext_left.is_empty() && r.chance(1, 6) { let e = ext_left.pop().unwrap(); prog.push(St::new(".EXTERNAL", vec![Arg::L(e)])); }
            prog.push(s.st);
        }
        let mut e = St::new(".END", vec![]);
        if r.chance(1, 8) { e.labels.push(fresh(r)); }        // a label at the end of a block
        prog.push(e);
    }
    for e in ext_left { prog.push(St::new(".EXTERNAL", vec![Arg::L(e)])); }
    // the fault
    let i = r.below(prog.len() + 1);
    let inside = |p: &Vec<St>, i: usize| p[..i].iter().filter(|s| s.op == ".ORIG").count() > p[..i].iter().filter(|s| s.op == ".END").count();
    let ins: Vec<usize> = (0..=prog.len()).filter(|i| inside(&prog, *i)).collect();
    let outs: Vec<usize> = (0..=prog.len()).filter(|i| !inside(&prog, *i)).collect();
    match fault {
        Fault::LabelOutside => {
            let l = fresh(r);
            let at = *r.pick(&outs);
            if at < prog.len() { prog[at].labels.push(l); } else { let mut s = St::new(".EXTERNAL", vec![Arg::L(fresh(r))]); s.labels.push(l); prog.push(s); }
        }
        Fault::StmtOutside => { let op = *r.pick(OPS); let s = gen_op(r, op, &mut |_, _| None, o.wild); prog.insert(*r.pick(&outs), s); }
        Fault::Unclosed => { if let Some(k) = prog.iter().rposition(|s| s.op == ".END") { if r.chance(1, 2) { prog.remove(k); } else { prog.push(St::new(".ORIG", vec![Arg::N(0x7000)])); } } else { prog.push(St::new(".ORIG", vec![Arg::N(0x3000)])); } }
        Fault::Unopened => { prog.insert(*r.pick(&outs), St::new(".END", vec![])); }
        Fault::Nested => if let Some(at) = (!ins.is_empty()).then(|| *r.pick(&ins)) { prog.insert(at, St::new(".ORIG", vec![Arg::N(r.range(0, 0xFD00))])); },
        Fault::DupLabel => if !defined.is_empty() && !ins.is_empty() {
            let l = recase(r, &r.clone().pick(&defined).0.clone());
            let at = *r.pick(&ins);
            if at < prog.len() { prog[at].labels.push(l); }
        },
        Fault::DupExternal => if !defined.is_empty() { let l = recase(r, &r.clone().pick(&defined).0.clone()); prog.insert(i, St::new(".EXTERNAL", vec![Arg::L(l)])); },
        Fault::Undefined | Fault::FarLabel | Fault::ExternalOperand => {
            let cands: Vec<usize> = (0..prog.len()).filter(|k| matches!(prog[*k].op.as_str(), "LD" | "LDI" | "LEA" | "ST" | "STI" | "JSR" | "NOP" | ".FILL") || prog[*k].op.len() == 3 && prog[*k].op.starts_with("BR")).collect();
            if !cands.is_empty() {
                let k = *r.pick(&cands);
                let l = match fault {
                    Fault::Undefined => Some(fresh(r)),
                    Fault::FarLabel => (!defined.is_empty()).then(|| r.pick(&defined).0.clone()),
                    _ => (!exts.is_empty()).then(|| r.pick(&exts).clone()),
                };
                if let Some(l) = l { *prog[k].args.last_mut().unwrap() = Arg::L(l); }
            }
        }
        _ => {}
    }
    prog
}

// ------------------------------------------------------------ rendering
fn blanks(r: &mut Rng, min: usize) -> String {
    let n = match r.below(4) { 0 => min + r.below(4), _ => min };
    (0..n).map(|_| if r.chance(1, 4) { '\t' } else { ' ' }).collect()
}
pub fn render_num(r: &mut Rng, v: i64, plain: bool) -> String {
    if plain { return format!("#{v}"); }
    let z = if r.chance(1, 6) { "0".repeat(1 + r.below(4)) } else { String::new() };
    let m = v.abs();
    let hex = if r.chance(1, 2) { format!("{m:x}") } else { format!("{m:X}") };
    let x = if r.chance(1, 2) { 'x' } else { 'X' };
    if v < 0 || (v == 0 && r.chance(1, 4)) {
        match r.below(3) { 0 => format!("-{z}{m}"), 1 => format!("#-{z}{m}"), _ => format!("{x}-{z}{hex}") }
    } else {
        match r.below(3) { 0 => format!("{z}{m}"), 1 => format!("#{z}{m}"), _ => format!("{x}{z}{hex}") }
    }
}
fn render_str(r: &mut Rng, s: &str, plain: bool) -> String {
    let mut o = String::from("\"");
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        match c {
            '\n' => o.push_str("\\n"),
            '"' => o.push_str("\\\""),
            '\r' if plain || r.chance(1, 2) => o.push_str("\\r"),
            '\t' if plain || r.chance(1, 2) => o.push_str("\\t"),
            '\0' if plain || r.chance(1, 2) => o.push_str("\\0"),
            // an escape that is not one stands for itself
            '\\' if !plain && i + 1 < cs.len() && !['n', 'r', 't', '\\', '0', '"', '\n', '\r', '\t', '\0'].contains(&cs[i + 1]) && r.chance(1, 2) => o.push('\\'),
            '\\' => o.push_str("\\\\"),
            c => o.push(*c),
        }
    }
    o.push('"');
    o
}
fn render_arg(r: &mut Rng, a: &Arg, plain: bool, relabel: bool) -> String {
    match a {
        Arg::R(n) if plain => format!("R{n}"),
        Arg::R(n) => { let z = if r.chance(1, 20) { "0".repeat(1 + r.below(3)) } else { String::new() }; format!("{}{z}{n}", if r.chance(1, 2) { 'r' } else { 'R' }) }
        Arg::N(v) => render_num(r, *v, plain),
        Arg::L(l) => if relabel { recase(r, l) } else { l.clone() },
        Arg::S(s) => render_str(r, s, plain),
    }
}
fn comment(r: &mut Rng) -> String {
    if !r.chance(1, 4) { return String::new(); }
    let c: String = match r.below(4) {
        0 => "".into(),
        1 => r.pick(&["\"unclosed", " .end", " ADD R0, R0, #1", ";;;", " x99999 R9", " é→😀", "\\", " LABEL:"]).to_string(),
        _ => gen_str(r, 10, true).replace('\n', " "),
    };
    format!(";{c}")
}
/// Style of a rendering. `relabel`: spell labels in other letter case.
#[derive(Clone, Copy)]
pub struct Style { pub plain: bool, pub relabel: bool }
pub fn render(prog: &[St], r: &mut Rng, style: Style) -> String {
    let Style { plain, relabel } = style;
    let crlf = if plain { 0 } else { r.below(3) };   // never, always, mixed
    let mut out = String::new();
    let nl = |r: &mut Rng, out: &mut String| {
        if crlf == 1 || (crlf == 2 && r.chance(1, 2)) { out.push('\r'); }
        out.push('\n');
    };
    let filler = |r: &mut Rng, out: &mut String| {
        if plain { return; }
        while r.chance(1, 5) { out.push_str(&blanks(r, 0)); out.push_str(&comment(r)); nl(r, out); }
    };
    filler(r, &mut out);
    for (i, s) in prog.iter().enumerate() {
        if !plain { out.push_str(&blanks(r, 0)); }
        for l in &s.labels {
            let l = if relabel { recase(r, l) } else { l.clone() };
            out.push_str(&l);
            let mut sep = !plain && r.chance(1, 3);
            if sep { out.push_str(&blanks(r, 0)); out.push(':'); }
            if !plain && r.chance(1, 4) { out.push_str(&blanks(r, 0)); out.push_str(&comment(r)); nl(r, &mut out); filler(r, &mut out); out.push_str(&blanks(r, 0)); sep = true; }
            // a directive may follow a label directly
            out.push_str(&blanks(r, if sep { 0 } else { 1 }));
        }
        let (name, args): (String, &[Arg]) = match s.op.as_str() {
            ".STRINGZ" | ".FILL" | ".BLKW" | ".ORIG" | ".END" | ".EXTERNAL" => (s.op.to_ascii_lowercase(), &s.args),
            "NOP" if s.args == [Arg::N(0)] && (plain || r.chance(1, 2)) => ("NOP".into(), &[]),
            b if b.len() == 3 && b.starts_with("BR") => {
                let k = b.as_bytes()[2] - b'0';
                let mut n = String::from("BR");
                if k != 7 || r.chance(1, 2) { if k & 4 != 0 { n.push('n') } if k & 2 != 0 { n.push('z') } if k & 1 != 0 { n.push('p') } }
                (n, &s.args)
            }
            o => (o.to_string(), &s.args),
        };
        out.push_str(&if plain { name } else { recase(r, &name) });
        for (k, a) in args.iter().enumerate() {
            let t = render_arg(r, a, plain, relabel);
            if k > 0 { if !plain { out.push_str(&blanks(r, 0)); } out.push(','); }
            // punctuation needs no blank before it
            let tight = k > 0 || t.starts_with(['#', '"']);
            let min = if plain || !tight || r.chance(3, 4) { 1 } else { 0 };
            out.push_str(&blanks(r, min));
            out.push_str(&t);
        }
        if !plain { out.push_str(&blanks(r, 0)); out.push_str(&comment(r)); }
        if i + 1 < prog.len() || plain || r.chance(2, 3) { nl(r, &mut out); filler(r, &mut out); }
    }
    out
}

// ------------------------------------------------------------ as data
fn lab_json(n: &str) -> V { arr!["l", bytes(n)] }
/// What was written, in the specification's form (without spans).
pub fn intent(prog: &[St]) -> V {
    V::A(prog.iter().map(|s| {
        let arg = |a: &Arg| -> V { match a { Arg::R(n) => V::from(*n), Arg::N(v) => arr!["o", *v], Arg::L(l) => lab_json(l), Arg::S(s) => bytes(s) } };
        let num = |a: &Arg| -> i64 { match a { Arg::R(n) => *n as i64, Arg::N(v) => *v, _ => 0 } };
        let n = match s.op.as_str() {
            "ADD" | "AND" => arr![s.op.clone(), num(&s.args[0]), num(&s.args[1]), matches!(s.args[2], Arg::N(_)) as i64, num(&s.args[2])],
            "LDR" | "STR" => arr![s.op.clone(), num(&s.args[0]), num(&s.args[1]), num(&s.args[2])],
            "TRAP" | ".ORIG" | ".BLKW" | "JMP" | "JSRR" => arr![s.op.clone(), num(&s.args[0])],
            ".FILL" => match &s.args[0] { Arg::N(v) => arr![".FILL", arr!["o", v & 0xFFFF]], a => arr![".FILL", arg(a)] },
            b if b.len() == 3 && b.starts_with("BR") => arr!["BR", (b.as_bytes()[2] - b'0') as i64, arg(&s.args[0])],
            o => { let mut v = vec![V::from(o)]; v.extend(s.args.iter().map(arg)); V::A(v) }
        };
        arr![s.labels.iter().map(|l| bytes(l)).collect::<Vec<V>>(), n]
    }).collect())
}
fn pcoff<T: Into<V> + Copy, const N: u32>(p: &PCOffset<T, N>, get: impl Fn(&lc3_ensemble::ast::Offset<T, N>) -> V, spans: bool) -> V {
    match p {
        PCOffset::Offset(o) => arr!["o", get(o)],
        PCOffset::Label(l) => if spans { arr!["l", bytes(&l.name), sp(l.span().start), sp(l.span().end)] } else { lab_json(&l.name) },
    }
}
pub fn nucleus_json(k: &StmtKind, spans: bool) -> V {
    let ir = |v: &ImmOrReg<5>| match v { ImmOrReg::Imm(i) => (1i64, i.get() as i64), ImmOrReg::Reg(r) => (0, r.reg_no() as i64) };
    macro_rules! p { ($e:expr) => { pcoff($e, |o| V::from(o.get()), spans) } }
    match k {
        StmtKind::Instr(i) => match i {
            AsmInstr::ADD(a, b, c) => { let (m, v) = ir(c); arr!["ADD", a.reg_no(), b.reg_no(), m, v] }
            AsmInstr::AND(a, b, c) => { let (m, v) = ir(c); arr!["AND", a.reg_no(), b.reg_no(), m, v] }
            AsmInstr::BR(cc, o) => arr!["BR", *cc, p!(o)],
            AsmInstr::JMP(b) => arr!["JMP", b.reg_no()],
            AsmInstr::JSR(o) => arr!["JSR", p!(o)],
            AsmInstr::JSRR(b) => arr!["JSRR", b.reg_no()],
            AsmInstr::LD(r, o) => arr!["LD", r.reg_no(), p!(o)],
            AsmInstr::LDI(r, o) => arr!["LDI", r.reg_no(), p!(o)],
            AsmInstr::LDR(r, b, o) => arr!["LDR", r.reg_no(), b.reg_no(), o.get()],
            AsmInstr::LEA(r, o) => arr!["LEA", r.reg_no(), p!(o)],
            AsmInstr::NOT(a, b) => arr!["NOT", a.reg_no(), b.reg_no()],
            AsmInstr::RET => arr!["RET"],
            AsmInstr::RTI => arr!["RTI"],
            AsmInstr::ST(r, o) => arr!["ST", r.reg_no(), p!(o)],
            AsmInstr::STI(r, o) => arr!["STI", r.reg_no(), p!(o)],
            AsmInstr::STR(r, b, o) => arr!["STR", r.reg_no(), b.reg_no(), o.get()],
            AsmInstr::TRAP(v) => arr!["TRAP", v.get()],
            AsmInstr::NOP(o) => arr!["NOP", p!(o)],
            AsmInstr::GETC => arr!["GETC"],
            AsmInstr::OUT => arr!["OUT"],
            AsmInstr::PUTC => arr!["PUTC"],
            AsmInstr::PUTS => arr!["PUTS"],
            AsmInstr::IN => arr!["IN"],
            AsmInstr::PUTSP => arr!["PUTSP"],
            AsmInstr::HALT => arr!["HALT"],
        },
        StmtKind::Directive(d) => match d {
            Directive::Orig(a) => arr![".ORIG", a.get()],
            Directive::Fill(v) => arr![".FILL", p!(v)],
            Directive::Blkw(n) => arr![".BLKW", n.get()],
            Directive::Stringz(s) => arr![".STRINGZ", bytes(s)],
            Directive::End => arr![".END"],
            Directive::External(l) => arr![".EXTERNAL", if spans { arr!["l", bytes(&l.name), sp(l.span().start), sp(l.span().end)] } else { lab_json(&l.name) }],
        },
    }
}
pub fn stmt_json(s: &Stmt) -> V {
    arr![s.labels.iter().map(|l| arr![bytes(&l.name), sp(l.span().start), sp(l.span().end)]).collect::<Vec<V>>(), nucleus_json(&s.nucleus, true), sp(s.span.start), sp(s.span.end)]
}
pub fn strip_json(s: &Stmt) -> V {
    arr![s.labels.iter().map(|l| bytes(&l.name)).collect::<Vec<V>>(), nucleus_json(&s.nucleus, false)]
}
/// Object file contents: image and labels.
pub fn image_json(o: &ObjectFile) -> V {
    let mut im: Vec<(u16, Option<u16>)> = o.addr_iter().collect();
    im.sort();
    V::A(im.into_iter().map(|(a, v)| arr![a, v.map_or(-1, |x| x as i64)]).collect())
}
pub fn labels_json(o: &ObjectFile) -> V {
    let mut ls: Vec<(String, u16, bool)> = o.symbol_table().map(|s| s.label_iter().map(|(n, a, e)| (n.to_uppercase(), a, e)).collect()).unwrap_or_default();
    ls.sort();
    V::A(ls.into_iter().map(|(n, a, e)| arr![bytes(&n), a, e]).collect())
}
pub fn asm_err_kind(e: &AsmErr) -> String {
    use lc3_ensemble::asm::AsmErrKind::*;
    match e.kind { OffsetNewErr(_) => "OffsetNewErr".into(), k => format!("{k:?}") }
}
pub fn result_json(r: Result<Result<ObjectFile, AsmErr>, String>) -> V {
    match r {
        Ok(Ok(o)) => arr!["ok", image_json(&o), labels_json(&o)],
        Ok(Err(e)) => arr!["err", asm_err_kind(&e)],
        Err(p) => arr!["panic", p],
    }
}
#[allow(dead_code)]
pub fn dummy() -> V { obj! {"x": 1} }

/// Initialised words and maximal uninitialised runs of an image.
pub fn cells_json(o: &ObjectFile) -> (V, V) {
    let mut im: Vec<(u16, Option<u16>)> = o.addr_iter().collect();
    im.sort();
    let mut init = vec![];
    let mut runs: Vec<(u32, u32)> = vec![];
    for (a, v) in im {
        match v {
            Some(v) => init.push(arr![a, v]),
            None => match runs.last_mut() { Some((_, e)) if *e == a as u32 => *e += 1, _ => runs.push((a as u32, a as u32 + 1)) },
        }
    }
    (V::A(init), V::A(runs.into_iter().map(|(a, b)| arr![a, b]).collect()))
}
pub fn obj_json(r: &Result<Result<ObjectFile, AsmErr>, String>) -> V {
    match r {
        Ok(Ok(o)) => { let (i, u) = cells_json(o); arr!["ok", i, u, labels_json(o)] }
        Ok(Err(e)) => arr!["err", asm_err_kind(e)],
        Err(p) => arr!["panic", p],
    }
}
/// Sometimes the same program with long names: its labels then differ only in what follows a common beginning.
pub fn stretch(r: &mut Rng, p: Vec<St>) -> Vec<St> { stretch_all(r, vec![p]).pop().unwrap() }
pub fn stretch_all(r: &mut Rng, mut ps: Vec<Vec<St>>) -> Vec<Vec<St>> {
    if !r.chance(1, 30) { return ps; }
    let n = *r.pick(&[8usize, 16, 30, 32, 62, 64, 80, 126, 128, 254, 256, 260]) + r.below(3);
    let pre: String = (0..n).map(|k| if k == 0 { 'q' } else { *r.pick(&['a', 'B', '_', '7']) }).collect();
    for s in ps.iter_mut().flatten() {
        for l in &mut s.labels { *l = format!("{pre}{l}"); }
        for a in &mut s.args { if let Arg::L(l) = a { *l = format!("{pre}{l}"); } }
    }
    ps
}
/// A soup of statements over few labels (the assembler will not like most of them).
pub fn gen_soup(r: &mut Rng, wild: bool) -> Vec<St> {
    let labels: Vec<String> = (0..4).map(|_| gen_label(r)).collect();
    (0..r.below(10)).map(|_| {
        let op = if r.chance(1, 3) { *r.pick(&[".ORIG", ".END", ".EXTERNAL", ".END"]) } else { *r.pick(OPS) };
        let mut s = gen_op(r, op, &mut |r, _| if r.chance(1, 2) { let l = r.pick(&labels).clone(); Some(recase(r, &l)) } else { None }, wild);
        while r.chance(1, 4) { let l = r.pick(&labels).clone(); s.labels.push(recase(r, &l)); }
        s
    }).collect()
}
fn blkw(n: i64) -> Option<St> { (n > 0).then(|| St::new(".BLKW", vec![Arg::N(n)])) }
/// Programs at the limits: label distances around the field range, blocks around the I/O page and the end of memory, neighbouring blocks.
pub fn gen_edge(r: &mut Rng) -> Vec<St> {
    let n = |x: i64| Arg::N(x);
    let orig = |x: i64| St::new(".ORIG", vec![Arg::N(x)]);
    let end = || St::new(".END", vec![]);
    let lab = |mut s: St, l: &str| { s.labels.push(l.into()); s };
    let mut p = vec![];
    match r.below(6) {
        0 | 1 => {
            // one label operand at a chosen distance
            let op = *r.pick(&["BR", "NOP", "LD", "LDI", "LEA", "ST", "STI", "JSR", "BR", ".FILL"]);
            let lim = if op == "JSR" { 1024 } else { 256 };
            let d = match r.below(4) { 0 => lim - 1, 1 => lim, 2 => -lim, _ => -lim - 1 } + if r.chance(1, 3) { r.range(-2, 2) } else { 0 };
            let l = gen_label(r);
            let spelled = recase(r, &l);
            let st = gen_op(r, op, &mut |_, _| Some(spelled.clone()), false);
            let filler = |r: &mut Rng| { let op = *r.pick(&["HALT", "RET", ".FILL", "NOT"]); gen_op(r, op, &mut |_, _| None, false) };
            let base = match r.below(4) { 0 => 0, 1 => 0xFE00 - (d.abs() + 8), _ => r.range(0x200, 0xF000) };
            p.push(orig(base));
            for _ in 0..r.below(3) { p.push(filler(r)); }
            if r.chance(1, 3) {
                // in different blocks
                let a = base + r.below(3) as i64 + p.len() as i64 + 1;
                let from = vec![orig(a), st, end()];
                let t = a + 1 + d;
                let to = vec![orig(t.max(0)), lab(filler(r), &l), end()];
                p.push(end());
                if r.chance(1, 2) { p.extend(from); p.extend(to); } else { p.extend(to); p.extend(from); }
                return p;
            }
            if d >= 0 { p.push(st); p.extend(blkw(d)); p.push(lab(filler(r), &l)); }
            else { p.push(lab(filler(r), &l)); p.extend(blkw(-d - 2)); p.push(st); }
            p.push(end());
        }
        2 | 3 => {
            // a block near the I/O page or the end of memory
            let base = match r.below(5) { 0 => 0xFDFF, 1 => 0xFE00, 2 => 0xFFFF, 3 => r.range(0xFD00, 0xFFFF), _ => r.range(0, 0xFDFF) };
            p.push(orig(base));
            let stop = *r.pick(&[0xFDFF, 0xFE00, 0xFE00, 0xFE01, 0xFFFF, 0x10000, 0x10000, 0x10001, 0x10020]) - base;
            let mut at = 0;
            for _ in 0..r.below(3) { if at < stop { let op = *r.pick(&["HALT", ".FILL", "ADD"]); p.push(gen_op(r, op, &mut |_, _| None, false)); at += 1; } }
            if r.chance(1, 4) && stop - at > 3 { let s = gen_str(r, 8, false); let len = s.len() as i64 + 1; if len <= stop - at { p.push(St::new(".STRINGZ", vec![Arg::S(s)])); at += len; } }
            let left = stop - at;
            if left > 0 {
                let l = left.min(65535);
                let a = if r.chance(1, 2) { l } else { r.range(1, l) };
                p.extend(blkw(a));
                p.extend(blkw(left - a).filter(|_| left - a <= 65535));
            }
            if r.chance(1, 3) { let l = gen_label(r); p.push(lab(end(), &l)); } else { p.push(end()); }
            if r.chance(1, 3) { p.push(orig(r.range(0, 0xFFFF))); p.push(end()); }
        }
        _ => {
            // blocks that touch, overlap, nest or coincide, in any source order
            let mut bl: Vec<(i64, i64)> = vec![];
            let a = r.range(0, 0x4000);
            let k = r.range(0, 6);
            bl.push((a, k));
            for _ in 0..1 + r.below(3) {
                let (b, kb) = *r.pick(&bl);
                let len = r.range(0, 5);
                let s = match r.below(7) { 0 => b + kb, 1 => b - len, 2 => b + kb - 1, 3 => b - len + 1, 4 => b, 5 => b + 1, _ => b + r.range(-9, 9) };
                bl.push((s.max(0), len));
            }
            for i in (1..bl.len()).rev() { let j = r.below(i + 1); bl.swap(i, j); }
            for (s, len) in bl {
                p.push(orig(s));
                if len > 0 && r.chance(1, 2) { p.extend(blkw(len)); } else { for _ in 0..len { p.push(St::new(".FILL", vec![n(r.range(0, 65535))])); } }
                p.push(end());
            }
        }
    }
    p
}
/// Every sequence of up to `n` statements over a small alphabet: number `i` of them.
pub fn small_prog(mut i: usize, n: usize) -> Option<Vec<St>> {
    let f = |op: &str, a: Vec<Arg>, l: Option<&str>| { let mut s = St::new(op, a); s.labels.extend(l.map(String::from)); s };
    let al = [
        f(".ORIG", vec![Arg::N(0x3000)], None), f(".ORIG", vec![Arg::N(0x3001)], None), f(".ORIG", vec![Arg::N(0xFDFE)], None), f(".END", vec![], None),
        f("HALT", vec![], None), f("HALT", vec![], Some("A")), f(".FILL", vec![Arg::L("a".into())], None), f("LEA", vec![Arg::R(1), Arg::L("A".into())], None),
        f(".EXTERNAL", vec![Arg::L("A".into())], None), f(".BLKW", vec![Arg::N(2)], Some("B")), f(".FILL", vec![Arg::L("B".into())], Some("a")), f(".END", vec![], Some("b")),
    ];
    let mut len = 0;
    let mut count = 1;
    while i >= count { i -= count; len += 1; count *= al.len(); if len > n { return None; } }
    let mut p = vec![];
    for _ in 0..len { p.push(al[i % al.len()].clone()); i /= al.len(); }
    Some(p)
}
pub fn small_count(n: usize) -> usize { (0..=n).map(|k| 12usize.pow(k as u32)).sum() }
