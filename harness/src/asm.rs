//! C01, C02, C23, C24, C26: the assembler.  C25: source positions.
use crate::progen::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::asm::{AsmErr, ObjectFile, SourceInfo, SymbolTable, assemble, assemble_debug};
use lc3_ensemble::ast::asm::Stmt;
use lc3_ensemble::err::Error as _;
use lc3_ensemble::parse::parse_ast;

pub type AsmRes = Result<Result<ObjectFile, AsmErr>, String>;
pub fn asm(text: &str, debug: bool) -> Option<AsmRes> {
    let ast = guarded(|| format!("parse {text:?}"), || parse_ast(text)).ok()?.ok()?;
    Some(asm_ast(ast, text, debug))
}
pub fn asm_ast(ast: Vec<Stmt>, text: &str, debug: bool) -> AsmRes {
    guarded(|| format!("assemble (debug: {debug}) {text:?}"), || if debug { assemble_debug(ast, text) } else { assemble(ast) })
}
pub fn any_style(r: &mut Rng) -> Style { Style { plain: r.chance(1, 2), relabel: r.chance(1, 4) } }

fn traces(f: &mut Out, evs: Vec<Vec<V>>, name: &str, chunk: usize) {
    let all: Vec<V> = evs.into_iter().flatten().collect();
    for (i, c) in all.chunks(chunk).enumerate() { f.put(&obj! {"name": format!("{name} {i}"), "ev": c.to_vec()}); }
}
/// `n` random programs, mapped to events.
pub fn programs(cx: &Cx, stream: u64, n: usize, faults: bool, ev: impl Fn(&str, &mut Rng) -> Vec<V> + Sync) -> Vec<Vec<V>> {
    let seed = cx.seed;
    par(n, |i| {
        let mut r = Rng::new(seed, (stream << 32) + i as u64);
        let mut o = Opts::small();
        o.wild = i % 3 == 0;
        let p = match i % 8 {
            0 if faults => gen_soup(&mut r, o.wild),
            1 | 2 => gen_edge(&mut r),
            3 | 4 if faults => { let f = *r.pick(FAULTS); gen_prog(&mut r, &o, f) }
            5 if faults => { let f = *r.pick(FAULTS); let mut p = gen_prog(&mut r, &o, f); let f = *r.pick(FAULTS); p.extend(gen_prog(&mut r, &o, f)); p }
            _ => gen_prog(&mut r, &o, Fault::None),
        };
        let p = stretch(&mut r, p);
        let st = any_style(&mut r);
        let text = render(&p, &mut r, st);
        ev(&text, &mut r)
    })
}
fn small(cx: &Cx, quick: usize, thorough: usize, sampled: usize, ev: impl Fn(&str, &mut Rng) -> Vec<V> + Sync) -> Vec<Vec<V>> {
    let seed = cx.seed;
    let (depth, total) = (cx.n(quick, thorough), small_count(5));
    let base = small_count(depth);
    par(base + sampled, |i| {
        let mut r = Rng::new(seed, (77 << 32) + i as u64);
        let k = if i < base { i } else { base + r.below(total - base) };
        let mut p = small_prog(k, 5).unwrap();
        if i >= base && r.chance(2, 3) { p.insert(0, St::new(".ORIG", vec![Arg::N(0x3000)])); p.push(St::new(".END", vec![])); }
        let text = render(&p, &mut r, Style { plain: true, relabel: false });
        ev(&text, &mut r)
    })
}

// ---------------------------------------------------------------- C01, C02
pub fn c01(cx: &Cx) {
    let ev = |text: &str, _: &mut Rng| match (asm(text, false), asm(text, true)) {
        (Some(a), Some(b)) => vec![arr![bytes(text), obj_json(&a), obj_json(&b)]],
        _ => vec![],
    };
    let mut f = cx.file("T_C01.ndjson");
    traces(&mut f, programs(cx, 1, cx.n(2600, 60_000), false, ev), "programs", 20);
    // long strings and large blocks
    let mut evs = vec![];
    for n in [254, 255, 256, 257, 1000, cx.n(2000, 60_000)] {
        let text = format!(".orig x100\nA .stringz \"{}\"\nB .blkw {n}\nLEA R0, B\nC .fill A\n.end\n.external Q", "ab\\n".repeat(n / 3));
        evs.push(ev(&text, &mut cx.rng(0)));
    }
    traces(&mut f, evs, "long", 1);
    traces(&mut f, crate::sweep::words(cx).into_iter().map(|e| vec![e]).collect(), "sweep", 1);
}
fn kind_json(r: &AsmRes) -> V {
    match r { Ok(Ok(_)) => arr!["ok"], Ok(Err(e)) => arr!["err", asm_err_kind(e)], Err(p) => arr!["panic", p] }
}
pub fn c02(cx: &Cx) {
    let ev = |text: &str, _: &mut Rng| match (asm(text, false), asm(text, true)) {
        (Some(a), Some(b)) => vec![arr![bytes(text), kind_json(&a), kind_json(&b)]],
        _ => vec![],
    };
    let mut f = cx.file("T_C02.ndjson");
    traces(&mut f, programs(cx, 2, cx.n(4000, 80_000), true, ev), "programs", 40);
    traces(&mut f, small(cx, 3, 4, cx.n(3000, 40_000), ev), "all small programs", 60);
    let texts = block_grid(cx);
    traces(&mut f, par(texts.len(), |i| ev(&texts[i], &mut Rng::new(0, 0))), "blocks near the limits", 60);
}
/// Blocks whose ends are near one another, near the I/O page and near the end of memory.
fn block_grid(cx: &Cx) -> Vec<String> {
    const END: i32 = 0x10000;
    const LIMS: &[i32] = &[0xFE00, END, 0x8000];
    let mut t = vec![];
    let mut w = |v: Vec<String>| t.push(v.join("\n"));
    let sz = |n: i32| if n % 2 == 0 { format!(".blkw {n}") } else { format!("L{n}: .blkw x{n:X}") };
    let deltas: &[i32] = &[-2, -1, 0, 1, 2];
    for a in [0, 1, 2, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFDFD, 0xFDFE, 0xFDFF, 0xFE00, 0xFE01, 0xFFFD, 0xFFFE, 0xFFFF] {
        let o = if a % 2 == 0 { format!(".orig {a}") } else { format!(".orig x{a:04X}") };
        for lim in LIMS {
            for d in deltas {
                let n = lim - a + d; // words up to just about the limit
                if n < 0 { continue; }
                // one directive, two directives in both orders, a string or a literal or a label at the end
                if n < END { w(vec![o.clone(), sz(n), ".end".into()]); }
                for k in [1, 2, 3] {
                    let m = n - k;
                    if !(0..END).contains(&m) { continue; }
                    w(vec![o.clone(), sz(m), sz(k), ".end".into()]);
                    w(vec![o.clone(), sz(k), sz(m), "Z .end".into()]);
                    w(vec![o.clone(), sz(m), format!(".stringz \"{}\"", "a".repeat(k as usize - 1)), ".end".into()]);
                    w(vec![o.clone(), sz(m), "HALT\n".repeat(k as usize - 1) + "E .fill E", ".end".into()]);
                }
                // one directive is too short to pass the end twice; two are not
                if (0..END).contains(&(n - 0xFFFF)) { w(vec![o.clone(), ".blkw xFFFF".into(), sz(n - 0xFFFF), ".end".into()]); }
                if a < 3 { w(vec![o.clone(), ".blkw x8000".into(), ".blkw x8000".into(), sz((n & 0xFFFF).max(1)), ".end".into()]); }
            }
        }
    }
    // two and three blocks, next to one another or sharing words
    let size = [1, 2, 5, 0x100];
    for a in [0, 1, 0x3000, 0xFD00, 0xFDF0] {
        for n in size {
            for m in size {
                for d in [-m - 1, -m, -m + 1, -1, 0, 1, n - 1, n, n + 1] {
                    let b: i32 = a + d;
                    if b < 0 || a + n > END || b > 0xFFFF { continue; }
                    let x = vec![format!(".orig {a}"), sz(n), ".end".into()];
                    let y = vec![format!(".orig x{b:X}"), format!(".blkw {m}"), "Q .end".into()];
                    w([x.clone(), y.clone()].concat());
                    w([y.clone(), x.clone()].concat());
                    // a third far away, also an empty one inside
                    let z: Vec<String> = match (n + m + d).rem_euclid(4) { 0 => vec![".orig x2000".into(), "RET".into(), ".end".into()], 1 => vec![format!(".orig {a}"), ".end".into()], 2 => vec![format!(".orig {}", b.max(a)), ".end".into()], _ => vec![format!(".orig {}", (a + n).min(0xFFFF)), "K .end".into()] };
                    w([x.clone(), z.clone(), y.clone()].concat());
                    if m < 3 { w([z, y, x].concat()); }
                }
            }
        }
    }
    let keep = cx.n(4, 1);
    let seed = cx.seed as usize;
    t.into_iter().enumerate().filter(|(i, _)| (i + seed) % keep == 0).map(|x| x.1).collect()
}

// ---------------------------------------------------------------- C23
fn table_event(text: &str, sym: &SymbolTable, r: &mut Rng) -> V {
    let mut list: Vec<(String, u16, bool)> = sym.label_iter().map(|(n, a, e)| (n.to_string(), a, e)).collect();
    list.sort();
    let mut asked: Vec<String> = vec![];
    for (n, _, _) in &list { asked.push(n.chars().map(lower).collect()); asked.push(uppercase(n)); asked.push(recase(r, n)); }
    // every word of the text, and names close to the labels
    let mut w: Vec<String> = text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || is_latin(c))).filter(|w| !w.is_empty()).map(String::from).collect();
    w.sort();
    w.dedup();
    asked.extend(w);
    for (n, _, _) in &list { match r.below(4) { 0 => asked.push(format!("{n}_")), 1 => asked.push(n[..n.char_indices().last().map_or(0, |x| x.0)].to_string()), _ => {} } }
    asked.push(String::new());
    let q: Vec<V> = asked.iter().map(|n| {
        let sp = sym.get_label_source(n).map_or((-1, -1), |s| (s.start as i64, s.end as i64));
        arr![bytes(n), sym.lookup_label(n).map_or(-1, |a| a as i64), sp.0, sp.1]
    }).collect();
    let mut at: Vec<u16> = list.iter().flat_map(|x| [x.1, x.1.wrapping_add(1), x.1.wrapping_sub(1)]).chain([0, 1, 0x3000, 0xFFFF]).collect();
    at.sort();
    at.dedup();
    let rv: Vec<V> = at.iter().map(|a| arr![*a, sym.rev_lookup_label(*a).map_or(V::A(vec![]), bytes)]).collect();
    arr![bytes(text), list.iter().map(|(n, a, e)| arr![bytes(n), *a, *e]).collect::<Vec<V>>(), q, rv]
}
pub fn c23(cx: &Cx) {
    let ev = |text: &str, r: &mut Rng| {
        let Some(Ok(Ok(o))) = asm(text, true) else { return vec![] };
        let mut v = vec![];
        if let Some(s) = o.symbol_table() { v.push(table_event(text, s, r)); }
        if r.chance(1, 3) { if let Ok(s) = SymbolTable::new(&parse_ast(text).unwrap(), None) { v.push(table_event(text, &s, r)); } }
        v
    };
    let mut f = cx.file("T_C23.ndjson");
    traces(&mut f, programs(cx, 23, cx.n(2000, 50_000), false, ev), "programs", 20);
    traces(&mut f, repeated(cx, 24, cx.n(800, 20_000), ev), "repeated labels", 20);
    traces(&mut f, crate::sweep::labels(cx).into_iter().map(|e| vec![e]).collect(), "sweep", 1);
}
/// Programs with labels and external declarations repeated at the same address.
fn repeated(cx: &Cx, stream: u64, n: usize, ev: impl Fn(&str, &mut Rng) -> Vec<V> + Sync) -> Vec<Vec<V>> {
    let seed = cx.seed;
    par(n, |i| {
        let mut r = Rng::new(seed, (stream << 32) + i as u64);
        let mut p = gen_prog(&mut r, &Opts::small(), Fault::None);
        for s in p.iter_mut() {
            let have = s.labels.clone();
            for l in have { if r.chance(1, 2) { let l = recase(&mut r, &l); let at = r.below(s.labels.len() + 1); s.labels.insert(at, l); } }
        }
        let ex: Vec<St> = p.iter().filter(|s| s.op == ".EXTERNAL").cloned().collect();
        for mut e in ex { if r.chance(1, 2) { e.labels.clear(); if let Arg::L(l) = &mut e.args[0] { *l = recase(&mut r, l); } let at = r.below(p.len() + 1); p.insert(at, e); } }
        let text = render(&p, &mut r, Style { plain: i % 2 == 0, relabel: i % 3 == 0 });
        ev(&text, &mut r)
    })
}

// ---------------------------------------------------------------- C24
pub fn c24(cx: &Cx) {
    let ev = |text: &str, _: &mut Rng| {
        let Some(Ok(Ok(o))) = asm(text, true) else { return vec![] };
        let Some(s) = o.symbol_table() else { return vec![arr![bytes(text), V::A(vec![]), V::A(vec![]), V::A(vec![])]] };
        let table: Vec<V> = s.line_iter().map(|(l, a)| arr![l, a]).collect();
        let n = text.matches('\n').count() + 1;
        let fwd: Vec<V> = (0..n + 3).chain([n + 1000]).map(|l| arr![l, s.lookup_line(l).map_or(-1, |a| a as i64)]).collect();
        let mut at: Vec<u16> = s.line_iter().map(|x| x.1).flat_map(|a| [a, a.wrapping_sub(1)]).chain([0, 0xFFFF, 0x3000]).collect();
        if let Some(m) = o.addr_iter().map(|x| x.0).max() { at.push(m); at.push(m.wrapping_add(1)); }
        at.sort();
        at.dedup();
        let rev: Vec<V> = at.iter().map(|a| arr![*a, s.rev_lookup_line(*a).map_or(-1, |l| l as i64)]).collect();
        vec![arr![bytes(text), table, fwd, rev]]
    };
    let mut f = cx.file("T_C24.ndjson");
    traces(&mut f, programs(cx, 24, cx.n(2200, 50_000), false, ev), "programs", 20);
    traces(&mut f, repeated(cx, 25, cx.n(700, 20_000), ev), "more externals", 20);
    // many lines
    let mut evs = vec![];
    for n in [100, 257, cx.n(400, 3000)] {
        let text = format!(".orig x3000\n{}\n.end\n\n; c\n.orig x100\n{}.end", "HALT\n; x\nL: .blkw 3\n".repeat(1) + &"NOT R1, R2\r\n".repeat(n), "\tRET\n".repeat(n));
        evs.push(ev(&text, &mut cx.rng(0)));
    }
    traces(&mut f, evs, "long", 1);
    traces(&mut f, crate::sweep::lines(cx).into_iter().map(|e| vec![e]).collect(), "sweep", 1);
}

// ---------------------------------------------------------------- C25
pub fn c25(cx: &Cx) {
    let seed = cx.seed;
    let one = |s: &str| -> V {
        let r = guarded(|| format!("source {s:?}"), || {
            let si = SourceInfo::new(s);
            let n = si.count_lines();
            let lines: Vec<V> = (0..n.min(s.len() + 2)).map(|i| {
                let sp = si.line_span(i).map_or((-1, -1), |x| (x.start as i64, x.end as i64));
                arr![sp.0, sp.1, si.read_line(i).map_or(V::A(vec![V::I(-1)]), bytes)]
            }).collect();
            let pos: Vec<V> = (0..=s.len() + 10).chain([s.len() + 1_000_000]).map(|i| { let (l, c) = si.get_pos_pair(i); arr![i, l, c] }).collect();
            let beyond = (n..n + 3).all(|i| si.line_span(i).is_none() && si.read_line(i).is_none());
            arr![bytes(s), n, lines, pos, beyond]
        });
        r.unwrap_or_else(|p| arr![bytes(s), -1, V::A(vec![]), V::A(vec![]), p])
    };
    let mut f = cx.file("T_C25.ndjson");
    const AB: &[&str] = &["\n", "\n", "\r\n", "\r", " ", "\t", "a", "é", "\u{a0}", "\u{2003}", "😀", "\u{3000}", ";", "\u{85}", "\u{b}", "\u{c}", "\u{1680}", "\u{2028}", "\u{200b}", "\u{feff}", "\u{205f}", "\u{0}", "\u{1c}"];
    // every text of up to k pieces, random longer ones
    let k = cx.n(3, 4);
    let m = 12usize;
    let total: usize = (0..=k).map(|j| m.pow(j as u32)).sum();
    let short: Vec<V> = par(total, |mut i| {
        let mut len = 0; let mut c = 1;
        while i >= c { i -= c; len += 1; c *= m; }
        let mut s = String::new();
        for _ in 0..len { s.push_str(AB[i % m]); i /= m; }
        one(&s)
    });
    for (i, c) in short.chunks(100).enumerate() { f.put(&obj! {"name": format!("short texts {i}"), "ev": c.to_vec()}); }
    let long: Vec<V> = par(cx.n(1500, 40_000), |i| {
        let mut r = Rng::new(seed, (250 << 32) + i as u64);
        let n = r.below(30);
        let s: String = match r.below(4) {
            0 => (0..n).map(|_| *r.pick(AB)).collect(),
            1 => (0..n).map(|_| *r.pick(&["\n", "\r\n", " ", "x"])).collect(),
            2 => { let p = gen_prog(&mut r, &Opts::small(), Fault::None); render(&p, &mut r, Style { plain: false, relabel: false }).chars().take(120).collect() }
            _ => (0..n).map(|_| if r.chance(1, 4) { *r.pick(AB) } else { *r.pick(&["ab", "LD R0, X", "  ", "\n"]) }).collect(),
        };
        one(&s)
    });
    for (i, c) in long.chunks(50).enumerate() { f.put(&obj! {"name": format!("random texts {i}"), "ev": c.to_vec()}); }
    for e in crate::sweep::sources(cx) { f.put(&obj! {"name": "long source", "ev": vec![e]}); }
}

// ---------------------------------------------------------------- C26
fn span_json(e: &AsmErr) -> (V, V, usize) {
    let a: Vec<_> = e.span.iter().cloned().collect();
    let f = e.span.first();
    // the same through the error interface
    let s = e.span().expect("assembler errors have spans");
    let b: Vec<_> = s.iter().cloned().collect();
    assert_eq!((a.clone(), f.clone()), (b, s.first()), "AsmErr::span");
    let _ = (e.to_string(), format!("{e:?}"), e.help());
    let n = a.len();
    use crate::sweep::sp;
    (arr![sp(f.start), sp(f.end)], V::A(a.iter().map(|r| arr![sp(r.start), sp(r.end)]).collect()), n)
}
pub fn c26(cx: &Cx) {
    let ev = |text: &str, _: &mut Rng| [false, true].iter().filter_map(|d| match asm(text, *d)? {
        Ok(Ok(_)) => None,
        Ok(Err(e)) => Some(match catch(|| span_json(&e)) {
            Ok((f, s, _)) => arr!["asm", bytes(text), asm_err_kind(&e), f, s],
            Err(p) => arr!["panic", format!("spans of {e:?}: {p} in {text:?}")],
        }),
        Err(p) => Some(arr!["panic", format!("{p} in {text:?}")]),
    }).take(2).collect();
    let mut f = cx.file("T_C26.ndjson");
    traces(&mut f, programs(cx, 26, cx.n(4000, 60_000), true, ev), "programs", 20);
    traces(&mut f, small(cx, 2, 4, cx.n(1500, 30_000), ev), "small programs", 40);
    // errors far into a long text
    traces(&mut f, programs(cx, 263, cx.n(500, 8000), true, |text, r| crate::sweep::padded(r, text, |t| match asm(t, text.len() % 2 == 0) {
        None | Some(Ok(Ok(_))) => vec![],
        Some(Ok(Err(e))) => vec![match catch(|| span_json(&e)) {
            Ok((f, s, _)) => arr!["asm", bytes(text), asm_err_kind(&e), f, s],
            Err(p) => arr!["panic", format!("spans of {e:?}: {p} in {text:?}")],
        }],
        Some(Err(p)) => vec![arr!["panic", format!("{p} in {text:?}")]],
    })), "long texts", 20);
    // labels whose upper case has another length, spelled one way in a program
    let mut evs = vec![];
    for l in ["aı", "ıı", "ſt", "aŉ", "ⱥ", "ǰx", "ﬁx", "ß", "ΐ", "éa", "xé", "ﬀ_1", "İ"] {
        for t in [
            format!(".orig x3000\nHALT\n{l} HALT\n{l} HALT\n.end"), format!(".external {l}\n.orig x3000\n {l} HALT\n.end"),
            format!(".orig x3000\n{l} HALT\n.end\n.external {l}"), format!(".orig x3000\nLD R0, {l}\n.end"), format!("{l} .orig x3000\n.end"),
            format!(".orig x3000\n.fill {l}\n.end"), format!(".external {l}\n.orig x3000\nLD R0, {l}\n.end"), format!(".orig x3000\nBR {l}\n.blkw x300\n{l} HALT\n.end"),
        ] {
            let Some(ast) = catch(|| parse_ast(&t).ok()).ok().flatten() else { continue };
            evs.push(vec![match asm_ast(ast, &t, true) {
                Ok(Ok(_)) => continue,
                Ok(Err(e)) => match catch(|| span_json(&e)) {
                    Ok((f, s, _)) => arr!["asmname", bytes(&t), asm_err_kind(&e), f, s, bytes(l)],
                    Err(p) => arr!["panic", format!("{p} in {t:?}")],
                },
                Err(p) => arr!["panic", format!("{p} in {t:?}")],
            }]);
        }
    }
    traces(&mut f, evs, "non-ASCII labels", 20);
    // failing links
    let seed = cx.seed;
    let links = par(cx.n(1500, 20_000), |i| {
        let mut r = Rng::new(seed, (261 << 32) + i as u64);
        let fs: Vec<ObjectFile> = crate::link::file_set(&mut r).into_iter().filter_map(|(t, d)| asm(&t, d)?.ok()?.ok()).collect();
        let mut acc = ObjectFile::empty();
        for (k, o) in fs.into_iter().enumerate() {
            if k == 0 { acc = o; continue; }
            match guarded(|| "link".into(), || ObjectFile::link(acc.clone(), o)) {
                Ok(Ok(x)) => acc = x,
                Ok(Err(e)) => return vec![match catch(|| span_json(&e)) { Ok((_, _, n)) => arr!["link", asm_err_kind(&e), n], Err(p) => arr!["panic", p] }],
                Err(p) => return vec![arr!["panic", p]],
            }
        }
        vec![]
    });
    traces(&mut f, links, "links", 50);
}
