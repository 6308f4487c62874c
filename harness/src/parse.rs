//! C03, C04, C05, C36: the parser.
use crate::progen::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::asm::{assemble, assemble_debug};
use lc3_ensemble::ast::asm::{AsmInstr, Directive, Stmt, StmtKind};
use lc3_ensemble::ast::{ImmOrReg, PCOffset};
use lc3_ensemble::err::Error as _;
use lc3_ensemble::parse::parse_ast;

fn parse_json(s: &str) -> (V, Option<Vec<Stmt>>) {
    match guarded(|| format!("parse {s:?}"), || parse_ast(s)) {
        Ok(Ok(v)) => (arr!["ok", v.iter().map(stmt_json).collect::<Vec<V>>()], Some(v)),
        Ok(Err(_)) => (arr!["err"], None),
        Err(p) => (arr!["panic", p], None),
    }
}
fn gen_any(r: &mut Rng, wild: bool) -> Vec<St> {
    let mut o = Opts::small();
    o.wild = wild;
    if r.chance(1, 3) {
        // a soup of statements (the assembler will not like most of them)
        let labels: Vec<String> = (0..5).map(|_| gen_label(r)).collect();
        (0..r.below(9)).map(|_| {
            let op = if r.chance(1, 6) { *r.pick(&[".ORIG", ".END", ".EXTERNAL"]) } else { *r.pick(OPS) };
            let mut s = gen_op(r, op, &mut |r, _| if r.chance(1, 2) { Some(r.pick(&labels).clone()) } else { None }, wild);
            while r.chance(1, 3) { s.labels.push(r.pick(&labels).clone()); }
            s
        }).collect()
    } else {
        let f = if r.chance(2, 3) { Fault::None } else { *r.pick(FAULTS) };
        gen_prog(r, &o, f)
    }
}
pub fn c03(cx: &Cx) {
    let seed = cx.seed;
    let layouts = 3;
    let mut f = cx.file("T_C03.ndjson");
    f.put_all(par(cx.n(500, 12_000), |i| {
        let mut r = Rng::new(seed, 30_000 + i as u64);
        let p = gen_any(&mut r, i % 4 == 0);
        let p = stretch(&mut r, p);
        let mut ev = vec![];
        for k in 0..layouts {
            let relabel = k == layouts - 1;
            let text = render(&p, &mut r, Style { plain: k == 0, relabel });
            let (res, ast) = parse_json(&text);
            let img = match ast {
                Some(a) => result_json(catch(|| if i % 2 == 0 { assemble_debug(a, &text) } else { assemble(a) })),
                None => arr!["none"],
            };
            ev.push(arr![bytes(&text), res, img, if relabel { arr![] } else { intent(&p) }]);
        }
        // far into a long text
        if i % 4 == 0 {
            let text = render(&p, &mut r, Style { plain: i % 8 == 0, relabel: false });
            ev.push(crate::sweep::padded(&mut r, &text, |t| {
                let (res, ast) = parse_json(t);
                let img = match ast {
                    Some(a) => result_json(catch(|| if i % 2 == 0 { assemble_debug(a, t) } else { assemble(a) })),
                    None => arr!["none"],
                };
                arr![bytes(&text), res, img, intent(&p)]
            }));
        }
        obj! {"name": format!("program {i}"), "ev": ev}
    }));
}

// ---------------------------------------------------------------- C04
fn nasty(r: &mut Rng) -> String {
    const BITS: &[&str] = &["\"", "\\", "\\\"", "\n", "\r\n", "\r", " ", "\t", ";", ":", ",", ".", "#", "-", "x", "X", "R", "r9", "R0", "R7", "##", "#-", "-#", "x-", "X-8001",
        ".orig", ".ORIG x3000", ".end", ".fill", ".blkw", ".stringz", ".external", ".\u{e9}", "\\\u{e9}", "\"\\\u{1F600}", "\u{e9}", "\u{df}", "\u{131}", "\u{17f}t", "\u{2028}", "\u{85}", "\u{0}", "\u{7f}", "\u{feff}",
        "ADD", "ADD R0, R0, ", "BR", "LD", "NOP", "TRAP", "HALT", "ſT", "ß:", "65536", "99999999999999999999999999", "x10000", "xFFFFFFFFFFFFFFFFFFFF", "-32769", "-99999999999999999999", "x-FFFFFFFFFFF", "R99999999999999999999", "R١", "١٢", "#١", "x\u{661}", "\u{300}",
        "0x10", "1a", "#z", "LABEL", "LABEL:", "_", "@", "!", "$", "%", "&", "'", "(", ")", "*", "+", "/", "<", "=", ">", "?", "[", "]", "^", "`", "{", "|", "}", "~", "\"abc\"", "\"abc", "\"a\\", "\"a\\\n", "\"\\x41\"", "\"\\é\"", "\"\\😀", "\"é\\\"", "💥"];
    match r.below(10) {
        // any characters at all
        0 => (0..r.below(12)).map(|_| loop { if let Some(c) = char::from_u32((r.next() % 0x110000) as u32) { break c; } }).collect(),
        1 => (0..r.below(16)).map(|_| r.below(128) as u8 as char).collect(),
        // a program, damaged
        2..=4 => {
            let p = gen_any(r, true);
            let t = render(&p, r, Style { plain: false, relabel: false });
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..1 + r.below(4) {
                let at = r.below(cs.len() + 1);
                match r.below(4) {
                    0 if at < cs.len() => { cs.remove(at); }
                    1 => { cs.truncate(at); }
                    2 => { let b: Vec<char> = r.pick(BITS).chars().collect(); cs.splice(at..at, b); }
                    _ if at < cs.len() => { cs[at] = *r.pick(&['"', '\\', '\n', '\r', 'é', '#', '-', ';', '😀', '\0']); }
                    _ => {}
                }
            }
            cs.into_iter().collect()
        }
        // string literals
        5..=6 => {
            let mut s = String::from(".stringz \"");
            for _ in 0..r.below(10) { s.push_str(*r.pick(&["\\", "\"", "\\\"", "\\\\", "é", "\\é", "\\😀", "a", "\n", "\r\n", "\r", "\\\u{300}", "\\\r\n", ";", "\t", "\\0", "\\n", "\u{2028}"])); }
            if r.chance(1, 2) { s.push('"'); }
            if r.chance(1, 2) { s.push_str("\n.end"); }
            s
        }
        _ => (0..1 + r.below(7)).map(|_| *r.pick(BITS)).collect::<Vec<_>>().join(*r.pick(&["", " ", "", "\n"])),
    }
}
pub fn c04(cx: &Cx) {
    let seed = cx.seed;
    let one = |s: &str| -> V {
        let r = guarded(|| format!("parse {s:?}"), || match parse_ast(s) {
            Ok(v) => arr!["ok", v.len(), s.len(), Vec::<i64>::new()],
            Err(e) => {
                let sp = e.span();
                let spans: Vec<V> = match sp { None => vec![], Some(x) => { let f = x.first(); std::iter::once(&f).chain(x.iter()).map(|r| arr![r.start, r.end]).collect() } };
                let _ = (e.to_string(), format!("{e:?}"), e.help());
                arr!["err", 0, s.len(), spans]
            }
        });
        r.unwrap_or_else(|p| arr!["panic", p, s.len(), s.chars().take(200).collect::<String>()])
    };
    let mut f = cx.file("T_C04.ndjson");
    let chunk = 400;
    f.put_all(par(cx.n(40_000, 1_500_000) / chunk, |c| {
        let mut r = Rng::new(seed, 40_000 + c as u64);
        obj! {"name": format!("strings {c}"), "ev": (0..chunk).map(|_| { let s = nasty(&mut r); one(&s) }).collect::<Vec<V>>()}
    }));
    // every short string over a small nasty alphabet
    let alpha: Vec<&str> = vec!["\"", "\\", "\n", "\r", "é", "x", "-", "#", "9", "R", ".", ";", ":", ",", "A", "\0", "😀"];
    let k = alpha.len();
    let depth = if cx.thorough { 5 } else { 3 };
    f.put_all(par(k, |a| {
        let mut ev = vec![one(alpha[a])];
        for n in 1..depth {
            for mut x in 0..k.pow(n as u32) {
                let mut s = alpha[a].to_string();
                for _ in 0..n { s.push_str(alpha[x % k]); x /= k; }
                ev.push(one(&s));
            }
        }
        // keep the log small: all outcomes that are plain errors inside the text are alike
        obj! {"name": format!("short strings starting {:?}", alpha[a]), "ev": ev}
    }));
    // huge tokens, each in a process of its own (a stack overflow is not a panic one can catch)
    let mut jobs: Vec<(&str, usize)> = vec![];
    for k in HUGE { for n in [100usize, 3000, 10_000, 65_533, 65_534, 65_535, 65_536, 200_000] { jobs.push((k, n)); } }
    for k in ["wide20", "wide21", "wide30", "wide31", "wide32", "wide40", "wide41", "wide42", "wide43"] { for n in 65_531..65_539 { jobs.push((k, n)); } }
    let exe = std::env::current_exe().unwrap();
    let dir = cx.out.clone();
    let kids = par(jobs.len(), |j| {
        let o = std::process::Command::new(&exe).args(["C04huge", dir.to_str().unwrap(), jobs[j].0, &jobs[j].1.to_string()]).output().unwrap();
        (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned())
    });
    for ((k, n), (code, out)) in jobs.iter().zip(kids) {
        let name = format!("huge token: {k} * {n}");
        let mut w: Vec<i64> = out.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        f.put(&match (code, w.len()) {
            (Some(0), n) if n >= 2 => {
                let (tag, len) = (w[0], w[1]);
                w.drain(..2);
                let spans: Vec<V> = w.chunks(2).map(|c| arr![c[0], c[1]]).collect();
                obj! {"name": name, "ev": arr![arr![match tag { 0 => "ok", 1 => "err", _ => "panic" }, 0, len, spans]]}
            }
            // killed by a signal: the unoptimised lexer ran out of stack
            (None, _) if *n > 10_000 && HUGE_WORDS.contains(k) => obj! {"name": name, "kf": "huge-word-stack", "ev": arr![arr!["panic", *n, 0, "stack overflow"]]},
            (c, _) => obj! {"name": name, "ev": arr![arr!["panic", *n, 0, format!("process ended: {c:?}")]]},
        });
    }
}
/// Tokens made of word characters (one machine state per character in the generated lexer).
const HUGE_WORDS: &[&str] = &["dec", "hex", "label", "reg", "regbad", "directive", "neg", "hash"];
const HUGE: &[&str] = &["str", "strunclosed", "stresc", "strback", "dec", "hex", "neg", "zeros", "reg", "regbad", "label", "directive", "hash", "comment", "colons", "labels", "newlines"];
pub fn c04huge(args: &[String]) {
    let n: usize = args[1].parse().unwrap();
    let s = match args[0].as_str() {
        // about n bytes of w-byte characters, from offset k on
        w if w.starts_with("wide") => { let (w, k) = ((w.as_bytes()[4] - b'0') as usize, (w.as_bytes()[5] - b'0') as usize); format!(".stringz \"{}{}{}\"", "a".repeat(k), ["é", "→", "😀"][w - 2].repeat((n - k) / w), "z".repeat((n - k) % w)) }
        "str" => format!(".stringz \"{}\"", "a".repeat(n)), "strunclosed" => format!(".stringz \"{}", "a".repeat(n)), "stresc" => format!(".stringz \"{}\"", "\\é".repeat(n)), "strback" => format!(".stringz \"{}\\", "\\\\".repeat(n)),
        "dec" => format!(".fill {}", "9".repeat(n)), "hex" => format!(".fill x{}", "F".repeat(n)), "neg" => format!(".fill -{}", "9".repeat(n)), "zeros" => format!(".fill #-{}", "0".repeat(n.min(10_000))), "reg" => format!("JMP R{}", "0".repeat(n)), "regbad" => format!("JMP R{}9", "0".repeat(n)),
        "label" => format!("{} HALT", "L".repeat(n)), "directive" => format!(".{}", "d".repeat(n)), "hash" => format!(".fill {}", "#".repeat(n)), "comment" => format!(";{}", "é".repeat(n)), "colons" => ":".repeat(n), "labels" => format!("{} HALT", "L: ".repeat(n.min(3000))), "newlines" => "\n".repeat(n.min(3000)),
        _ => unreachable!(),
    };
    match catch(|| parse_ast(&s)) {
        Ok(Ok(_)) => println!("0 {}", s.len()),
        Ok(Err(e)) => { print!("1 {}", s.len()); if let Some(x) = e.span() { for r in std::iter::once(&x.first()).chain(x.iter()) { print!(" {} {}", r.start, r.end); } } println!(); }
        Err(_) => println!("2 {}", s.len()),
    }
}

// ---------------------------------------------------------------- C05
const FORMS: &[(&str, &str, &str)] = &[("imm5", "ADD R1, R2, ", ""), ("imm5", "AND R1, R2, ", ""), ("off6", "LDR R1, R2, ", ""), ("off6", "STR R1, R2, ", ""),
    ("pc9", "LD R1, ", ""), ("pc9", "BRnz ", ""), ("pc9", "ST R1, ", ""), ("pc9", "LEA R0, ", ""), ("pc9", "LDI R0,", ""), ("pc9", "STI R0,", ""), ("pc9", "NOP ", ""), ("pc11", "JSR ", ""),
    ("trap", "TRAP ", ""), ("orig", ".orig ", ""), ("blkw", ".blkw ", ""), ("fill", ".fill ", "")];
/// The value of the last operand of the only statement.
fn value(v: &[Stmt]) -> Option<i64> {
    if v.len() != 1 { return None; }
    fn pc<const N: u32>(p: &PCOffset<i16, N>) -> Option<i64> { match p { PCOffset::Offset(o) => Some(o.get() as i64), _ => None } }
    match &v[0].nucleus {
        StmtKind::Instr(AsmInstr::ADD(_, _, ImmOrReg::Imm(i)) | AsmInstr::AND(_, _, ImmOrReg::Imm(i))) => Some(i.get() as i64),
        StmtKind::Instr(AsmInstr::LDR(_, _, o) | AsmInstr::STR(_, _, o)) => Some(o.get() as i64),
        StmtKind::Instr(AsmInstr::LD(_, o) | AsmInstr::LDI(_, o) | AsmInstr::LEA(_, o) | AsmInstr::ST(_, o) | AsmInstr::STI(_, o) | AsmInstr::BR(_, o) | AsmInstr::NOP(o)) => pc(o),
        StmtKind::Instr(AsmInstr::JSR(o)) => pc(o),
        StmtKind::Instr(AsmInstr::TRAP(v)) => Some(v.get() as i64),
        StmtKind::Instr(AsmInstr::JMP(b) | AsmInstr::JSRR(b)) => Some(b.reg_no() as i64),
        StmtKind::Instr(AsmInstr::NOT(_, b)) => Some(b.reg_no() as i64),
        StmtKind::Directive(Directive::Orig(n) | Directive::Blkw(n)) => Some(n.get() as i64),
        StmtKind::Directive(Directive::Fill(PCOffset::Offset(n))) => Some(n.get() as i64),
        _ => None,
    }
}
/// -1: rejected, -2: accepted without a value, -3: panic; otherwise accepted and delta
fn probe(s: &str) -> (i64, i64) {
    match catch(|| parse_ast(s)) {
        Ok(Ok(v)) => match value(&v) { Some(x) => (0, x), None => (-2, 0) },
        Ok(Err(_)) => (-1, 0),
        Err(_) => (-3, 0),
    }
}
pub fn c05(cx: &Cx) {
    let seed = cx.seed;
    let mut f = cx.file("T_C05.ndjson");
    type Note = (&'static str, bool, fn(i64) -> String);
    let notes: Vec<Note> = vec![
        ("9", false, |m| format!("{m}")), ("#9", false, |m| format!("#{m}")), ("x9", false, |m| format!("x{m:x}")), ("X9", false, |m| format!("X{m:X}")), ("#009", false, |m| format!("#00{m}")), ("x0009", false, |m| format!("x000{m:X}")),
        ("-9", true, |m| format!("-{m}")), ("#-9", true, |m| format!("#-{m}")), ("x-9", true, |m| format!("x-{m:x}")), ("X-9", true, |m| format!("X-{m:X}")), ("x-009", true, |m| format!("x-00{m:x}"))];
    let jobs: Vec<(usize, usize)> = (0..FORMS.len()).flat_map(|a| (0..notes.len()).map(move |b| (a, b))).collect();
    let thorough = cx.thorough;
    f.put_all(par(jobs.len(), |j| {
        let (fi, ni) = jobs[j];
        let (form, pre, post) = FORMS[fi];
        let (nn, neg, mkl) = notes[ni];
        // magnitudes: everything (thorough), or everything that is near a boundary
        let ranges: Vec<(i64, i64)> = if thorough { vec![(0, 70_000), (131_060, 131_090), (16_777_210, 16_777_230)] }
            else if form == "fill" && (nn == "9" || nn == "x9" || nn == "-9" || nn == "x-9") { vec![(0, 70_000)] }
            else { vec![(0, 300), (500, 530), (1000, 1050), (2040, 2056), (4090, 4100), (32_740, 32_790), (65_500, 65_560), (131_060, 131_080), (98_300, 98_310)] };
        let mut ev = vec![];
        for (lo, hi) in ranges {
            let mut start = lo;
            let mut cur: Option<(i64, i64)> = None;
            for m in lo..=hi + 1 {
                let o = if m <= hi {
                    let v = if neg { -m } else { m };
                    let (k, x) = probe(&format!("{pre}{}{post}", mkl(m)));
                    Some(if k == 0 { (0, x - v) } else { (k, 0) })
                } else { None };
                if o != cur {
                    if let Some((k, d)) = cur { ev.push(arr!["num", form, neg, start, m - 1, k, d]); }
                    start = m;
                    cur = o;
                }
            }
        }
        obj! {"name": format!("{pre}{nn}"), "ev": ev}
    }));
    // register numbers
    let mut ev = vec![];
    for pre in ["JMP R", "JSRR r", "NOT R0, r", "JMP R0", "JMP r000"] {
        for n in (0..1100i64).chain([65535, 65536, 65537, 65543, 1 << 24]) {
            let (k, x) = probe(&format!("{pre}{n}"));
            ev.push(arr!["reg", n, k, x]);
        }
    }
    f.put(&obj! {"name": "registers", "ev": ev});
    // odd spellings, decided by the grammar
    let chunk = 100;
    f.put_all(par(cx.n(4_000, 60_000) / chunk, |c| {
        let mut r = Rng::new(seed, 50_000 + c as u64);
        let ev = (0..chunk).map(|_| {
            let lit: String = match r.below(8) {
                // more digits than fit anything; values that are small again modulo a power of two
                6 | 7 => {
                    let base: u128 = 1u128 << *r.pick(&[16, 17, 24, 31, 32, 33, 47, 48, 63, 64, 65, 96, 112]);
                    let m = match r.below(5) { 0 => base + r.below(20) as u128, 1 => base - 1 - r.below(20) as u128, 2 => base + r.u16() as u128, 3 => base * (1 + r.below(9) as u128) + r.below(8) as u128, _ => 10u128.pow(5 + r.below(28) as u32) + r.below(300) as u128 };
                    let h = match r.below(4) { 0 => { let h = format!("{:x}", 1 + r.below(15)); format!("{h}{}{:x}", "0".repeat(3 + r.below(30)), r.below(256)) } 1 => format!("{m:X}"), _ => format!("{m:x}") };
                    match r.below(6) { 0 => format!("{m}"), 1 => format!("#{m}"), 2 => format!("-{m}"), 3 => format!("#-{m}"), 4 => format!("x{h}"), _ => format!("X-{h}") }
                }
                0 => (0..1 + r.below(5)).map(|_| *r.pick(b"0123456789abcdefABCDEFxXgG#-_rRzZ+") as char).collect(),
                1 => format!("{}{}{}", r.pick(&["", "#", "x", "X", "-", "#-", "x-", "-#", "##", "-x", "R", "r", "#x", "0x", "--", "#--"]), r.pick(&["", "0", "00", "000000"]), r.range(0, 70_000)),
                2 => format!("{}{:x}", r.pick(&["x", "X", "x-", "X-", "x0", "#x", "", "0x", "-x"]), r.range(0, 70_000)),
                3 => format!("{}{}", r.pick(&["R", "r"]), r.pick(&["", "0", "7", "8", "07", "10", "256", "257", "1A", "0x", "-1", "_1", "65536", "4294967297"])),
                4 => format!("{}{}", r.pick(&["9", "x9", "-9", "x-9", "R1", "#9"]), r.pick(&["g", "_", "z", "-", "#", "x", ".", ":", "\"", "0 0", " 0", ",", "f", "F", "/"])),
                _ => format!("{}{}", r.pick(&["", "#", "-", "x", "x-"]), (0..r.below(30)).map(|_| *r.pick(b"0123456789") as char).collect::<String>()),
            };
            let (_, pre, _) = *r.pick(FORMS);
            let pre = if r.chance(1, 6) { "JMP " } else if r.chance(1, 8) { "ADD R0,R1," } else { pre };
            let s = format!("{pre}{lit}");
            let res = parse_json(&s).0;
            arr!["text", bytes(&s), res]
        }).collect::<Vec<V>>();
        obj! {"name": format!("literals {c}"), "ev": ev}
    }));
}

// ---------------------------------------------------------------- C36
pub fn c36(cx: &Cx) {
    let seed = cx.seed;
    let mut f = cx.file("T_C36.ndjson");
    let sound = |s: &Stmt| match &s.nucleus {
        StmtKind::Directive(Directive::Stringz(t)) => t.chars().all(|c| (' '..='~').contains(&c) || "\t\n\r\0".contains(c)),
        _ => true,
    };
    let print_and_parse = |s: &Stmt| -> V {
        match guarded(|| format!("{s:?}"), || { let t = s.to_string(); let p = parse_ast(&t).map(|v| v.iter().map(strip_json).collect::<Vec<V>>()).map_err(|e| e.to_string()); (t, p) }) {
            Ok((t, Ok(v))) => arr![bytes(&t), strip_json(s), arr!["ok", v]],
            Ok((t, Err(e))) => arr![bytes(&t), strip_json(s), arr!["err", e]],
            Err(p) => arr![Vec::<i64>::new(), strip_json(s), arr!["panic", p]],
        }
    };
    f.put_all(par(cx.n(500, 12_000), |i| {
        let mut r = Rng::new(seed, 360_000 + i as u64);
        let p = gen_any(&mut r, i % 3 == 0);
        let text = render(&p, &mut r, Style { plain: false, relabel: false });
        let ast = parse_json(&text).1.unwrap_or_default();
        obj! {"name": format!("program {i}"), "ev": ast.iter().filter(|s| sound(s)).map(print_and_parse).collect::<Vec<V>>()}
    }));
    // every numeric operand value of every form
    let forms = ["ADD R3, R4, ", "AND R0, R7, ", "LDR R5, R6, ", "STR R1, R2, ", "LD R1, ", "BR ", "BRn ", "BRz ", "BRp ", "BRnz ", "BRnp ", "BRzp ", "ST R1, ", "LEA R0, ", "LDI R0,", "STI R0,", "NOP ", "JSR ", "TRAP ", ".orig ", ".blkw ", ".fill "];
    f.put_all(par(forms.len(), |k| {
        let mut r = Rng::new(seed, 361_000 + k as u64);
        let mut ev = vec![];
        let full = k >= 19 && cx.thorough;
        for v in -1100i64..66_000 {
            if !full && k >= 19 && !(v < 300 || r.chance(1, 100) || v > 65_500) { continue; }
            if let Ok(Ok(a)) = catch(|| parse_ast(&format!("{}{v}", forms[k]))) { ev.extend(a.iter().map(print_and_parse)); }
            if k < 19 && v > 1100 { break; }
        }
        // every character a string may hold
        if k == 0 {
            for a in (32..127).chain([0, 9, 10, 13]).map(|c| char::from(c as u8)) {
                for b in ["", "n", "0", "\\", "\"", "x"] {
                    let s = St::new(".STRINGZ", vec![Arg::S(format!("{a}{b}"))]);
                    let t = render(&[s], &mut r, Style { plain: true, relabel: false });
                    if let Ok(Ok(a)) = catch(|| parse_ast(&t)) { ev.extend(a.iter().map(print_and_parse)); }
                }
            }
        }
        obj! {"name": forms[k], "ev": ev}
    }));
}
