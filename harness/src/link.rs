//! C17, C18, C19: object file formats.  C20, C21, C22: linking.
use crate::asm::{asm, any_style};
use crate::progen::*;
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::sim::{SimErr, SimFlags, Simulator};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- sets of files
#[derive(Clone, Copy)]
pub struct SetOpts { pub files: (usize, usize), pub clash: bool, pub wild: bool }
/// Programs of a set of files that share label names, with touching (sometimes overlapping) blocks.
pub fn gen_set(r: &mut Rng, o: SetOpts) -> Vec<Vec<St>> {
    let nf = o.files.0 + r.below(o.files.1 - o.files.0 + 1);
    let mut used: BTreeMap<String, ()> = BTreeMap::new();
    let mut fresh = |r: &mut Rng| loop { let l = gen_label(r); if used.insert(uppercase(&l), ()).is_none() { return l; } };
    let pool: Vec<String> = (0..1 + r.below(4)).map(|_| fresh(r)).collect();
    // blocks laid out one after another and dealt to the files
    struct B { org: i64, sts: Vec<St> }
    let mut files: Vec<Vec<B>> = (0..nf).map(|_| vec![]).collect();
    let nb = nf + r.below(nf + 2);
    let mut pos: i64 = match r.below(5) { 0 => 0, 1 => 0xFD80, _ => r.range(0x100, 0xF000) };
    let clash = o.clash && r.chance(1, 4);
    for b in 0..nb {
        let n = match r.below(8) { 0 => 0, _ => 1 + r.below(4) };
        let kinds: &[&str] = match r.below(8) { 0 => &[".BLKW"], 1 => &[".FILL"], _ => &["HALT", ".FILL", ".FILL", "ADD", ".BLKW", ".STRINGZ", "LDR", "TRAP", ".FILL"] };
        let mut sts: Vec<St> = vec![];
        for _ in 0..n {
            let op = *r.pick(kinds);
            let mut s = match op { ".BLKW" => St::new(op, vec![Arg::N(r.range(1, 4))]), ".STRINGZ" => { let t = gen_str(r, 3, o.wild); St::new(op, vec![Arg::S(t)]) } _ => gen_op(r, op, &mut |_, _| None, false) };
            if r.chance(1, 3) { s.labels.push(fresh(r)); }
            sts.push(s);
        }
        let len: i64 = sts.iter().map(|s| s.size() as i64).sum();
        if r.chance(1, 2) { pos += r.range(1, 5); }
        if clash && r.chance(1, 2) { pos = (pos - r.range(1, 3)).max(0); }
        if clash && r.chance(1, 4) { let all: Vec<i64> = files.iter().flatten().map(|b| b.org).collect(); if !all.is_empty() { pos = *r.pick(&all); } }
        if pos + len > 0xFE00 { pos = r.range(0, 0x40); }
        let f = if b < nf { b } else { r.below(nf) };
        files[f].push(B { org: pos, sts });
        pos += len;
    }
    // who defines the shared names
    let mut defs: Vec<Vec<String>> = vec![vec![]; nf];
    for name in &pool {
        if r.chance(1, 5) { continue; }                       // nobody
        let f = r.below(nf);
        let spelled = recase(r, name);
        let b = r.below(files[f].len());
        let st = &mut files[f][b].sts;
        let k = r.below(st.len() + 1);
        if k < st.len() { st[k].labels.push(spelled); } else { st.push({ let mut s = St::new(".END", vec![]); s.labels.push(spelled); s }); }
        defs[f].push(name.clone());
        if o.clash && nf > 1 && r.chance(1, 6) {
            let g = (f + 1 + r.below(nf - 1)) % nf;
            let spelled = recase(r, name);
            if r.chance(1, 2) {
                // at the same address: an empty block
                let at = files[f][b].org + files[f][b].sts.iter().take(k).map(|s| s.size() as i64).sum::<i64>();
                let mut e = St::new(".END", vec![]);
                e.labels.push(spelled);
                files[g].push(B { org: at, sts: vec![e] });
            } else {
                let c = r.below(files[g].len());
                if let Some(s) = files[g][c].sts.first_mut() { s.labels.push(spelled); defs[g].push(name.clone()); continue; }
            }
            defs[g].push(name.clone());
        }
    }
    // references
    files.into_iter().enumerate().map(|(f, bs)| {
        let ext: Vec<String> = pool.iter().filter(|n| !defs[f].contains(n) && r.chance(2, 3)).cloned().collect();
        let mut p: Vec<St> = vec![];
        for b in bs {
            p.push(St::new(".ORIG", vec![Arg::N(b.org)]));
            let mut ended = false;
            for mut s in b.sts {
                if s.op == ".END" { ended = true; }
                if s.op == ".FILL" && r.chance(3, 4) {
                    let all: Vec<&String> = ext.iter().chain(defs[f].iter()).collect();
                    if !all.is_empty() { let l = r.pick(&all).to_string(); s.args = vec![Arg::L(recase(r, &l))]; }
                }
                p.push(s);
            }
            if !ended { p.push(St::new(".END", vec![])); }
        }
        for e in ext {
            for _ in 0..if r.chance(1, 10) { 2 } else { 1 } {
                let at = match r.below(4) { 0 => 0, 1 => p.len(), _ => r.below(p.len() + 1) };
                p.insert(at, St::new(".EXTERNAL", vec![Arg::L(recase(r, &e))]));
            }
        }
        p
    }).collect()
}
/// Rendered set of files with their debug flag: only files that carry a symbol table.
pub fn file_set(r: &mut Rng) -> Vec<(String, bool)> { set_with(r, SetOpts { files: (2, 4), clash: true, wild: false }) }
fn set_with(r: &mut Rng, o: SetOpts) -> Vec<(String, bool)> {
    let ps = gen_set(r, o);
    stretch_all(r, ps).into_iter().map(|p| { let st = any_style(r); let t = render(&p, r, st); (t, r.chance(2, 3)) }).collect()
}
fn assembled(set: &mut [(String, bool)]) -> Option<Vec<ObjectFile>> {
    set.iter_mut().map(|(t, d)| {
        let o = asm(t, *d)?.ok()?.ok()?;
        if o.symbol_table().is_some() { return Some(o); }
        *d = true;
        asm(t, true)?.ok()?.ok()
    }).collect()
}
#[derive(Clone)]
enum Tree { Leaf(usize), Node(Box<Tree>, Box<Tree>) }
impl std::fmt::Display for Tree {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self { Tree::Leaf(i) => write!(f, "{}", i + 1), Tree::Node(a, b) => write!(f, "({a} {b})") }
    }
}
fn trees(xs: &[usize]) -> Vec<Tree> {
    if xs.len() == 1 { return vec![Tree::Leaf(xs[0])]; }
    let mut v = vec![];
    for k in 1..xs.len() { for a in trees(&xs[..k]) { for b in trees(&xs[k..]) { v.push(Tree::Node(Box::new(a.clone()), Box::new(b))); } } }
    v
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut v = vec![];
    for p in perms(n - 1) { for k in 0..n { let mut q = p.clone(); q.insert(k, n - 1); v.push(q); } }
    v
}
fn all_trees(n: usize) -> Vec<Tree> { perms(n).iter().flat_map(|p| trees(p)).collect() }
/// Ok(None): an error on the way; Err: a panic.
fn link_tree(t: &Tree, os: &[ObjectFile]) -> Result<Result<ObjectFile, String>, String> {
    match t {
        Tree::Leaf(i) => Ok(Ok(os[*i].clone())),
        Tree::Node(a, b) => {
            let (a, b) = match (link_tree(a, os)?, link_tree(b, os)?) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return Ok(Err(e)) };
            match guarded(|| "link".into(), || ObjectFile::link(a, b))? { Ok(o) => Ok(Ok(o)), Err(e) => Ok(Err(asm_err_kind(&e))) }
        }
    }
}
fn random_tree(r: &mut Rng, n: usize) -> Tree { let ts = all_trees(n); r.pick(&ts).clone() }
fn chunked(f: &mut Out, evs: Vec<V>, name: &str, n: usize) {
    for (i, c) in evs.chunks(n).enumerate() { f.put(&obj! {"name": format!("{name} {i}"), "ev": c.to_vec()}); }
}

// ---------------------------------------------------------------- C20
pub fn c20(cx: &Cx) {
    let seed = cx.seed;
    let evs: Vec<Option<V>> = par(cx.n(1800, 40_000), |i| {
        let mut r = Rng::new(seed, (200 << 32) + i as u64);
        let mut set = set_with(&mut r, SetOpts { files: (2, if i % 3 == 0 { 4 } else { 3 }), clash: true, wild: i % 7 == 0 });
        let os = assembled(&mut set)?;
        let mut outs: Vec<(String, V)> = vec![];
        let mut seen: BTreeMap<String, ()> = BTreeMap::new();
        for t in all_trees(os.len()) {
            let (key, v) = match link_tree(&t, &os) {
                Ok(Ok(o)) => { let (a, b) = cells_json(&o); let l = labels_json(&o); (format!("{a}{b}{l}"), arr![t.to_string(), "ok", a, b, l]) }
                // which of several conflicts is reported first is not part of the outcome
                Ok(Err(_)) => ("err".into(), arr![t.to_string(), "err", "x"]),
                Err(p) => (p.clone(), arr![t.to_string(), "panic", p]),
            };
            if seen.insert(key.clone(), ()).is_none() { outs.push((key, v)); }
        }
        Some(arr![set.iter().map(|s| bytes(&s.0)).collect::<Vec<V>>(), outs.into_iter().map(|x| x.1).collect::<Vec<V>>()])
    });
    let mut f = cx.file("T_C20.ndjson");
    chunked(&mut f, evs.into_iter().flatten().collect(), "sets", 20);
}

// ---------------------------------------------------------------- C21
fn load(o: &ObjectFile) -> (String, Option<Simulator>) {
    let mut s = Simulator::new(SimFlags { machine_init: lc3_ensemble::sim::mem::MachineInitStrategy::Known { value: 0x5A5A }, ..Default::default() });
    match guarded(|| "load".into(), || s.load_obj_file(o)) {
        Ok(Ok(())) => ("ok".into(), Some(s)),
        Ok(Err(SimErr::UnresolvedExternal(_))) => ("UnresolvedExternal".into(), None),
        Ok(Err(e)) => (format!("{e:?}"), None),
        Err(p) => (format!("panic {p}"), None),
    }
}
fn c21_event(texts: &[String], o: Result<Result<ObjectFile, String>, String>, at: &[u16]) -> (V, String) {
    let ts: Vec<V> = texts.iter().map(|t| bytes(t)).collect();
    match o {
        Ok(Ok(o)) => {
            let (k, s) = load(&o);
            let im: BTreeMap<u16, Option<u16>> = o.addr_iter().collect();
            let w: Vec<V> = at.iter().map(|a| arr![*a, im.get(a).copied().flatten().map_or(-1, |x| x as i64), s.as_ref().map_or(-1, |s| s.mem[*a].get() as i64)]).collect();
            (arr![ts, true, k.clone(), w], k)
        }
        Ok(Err(_)) => (arr![ts, false, "none", V::A(vec![])], "link".into()),
        Err(p) => (arr![ts, false, p.clone(), V::A(vec![])], p),
    }
}
/// Addresses of the statements of a program (by its own account, for choosing what to observe).
fn fills(p: &[St]) -> Vec<u16> {
    let mut v = vec![];
    let mut at = 0i64;
    for s in p { if s.op == ".ORIG" { if let Arg::N(n) = s.args[0] { at = n; } } else { if s.op == ".FILL" && matches!(s.args[0], Arg::L(_)) { v.push(at as u16); } at += s.size() as i64; } }
    v
}
pub fn c21(cx: &Cx) {
    let seed = cx.seed;
    let evs: Vec<Vec<(bool, V)>> = par(cx.n(1500, 30_000), |i| {
        let mut r = Rng::new(seed, (210 << 32) + i as u64);
        let ps = gen_set(&mut r, SetOpts { files: (1, 3), clash: i % 5 == 0, wild: false });
        let at: Vec<u16> = ps.iter().flat_map(|p| fills(p)).collect();
        let texts: Vec<String> = ps.iter().map(|p| { let st = any_style(&mut r); render(p, &mut r, st) }).collect();
        let mut v = vec![];
        // each file on its own, both ways
        for (p, t) in ps.iter().zip(&texts) {
            for d in [false, true] {
                let Some(Ok(Ok(o))) = asm(t, d) else { continue };
                v.push((false, c21_event(std::slice::from_ref(t), Ok(Ok(o)), &fills(p)).0));
            }
        }
        // linked (files that carry symbol tables)
        let mut set: Vec<(String, bool)> = texts.iter().map(|t| (t.clone(), r.chance(1, 2))).collect();
        let Some(os) = assembled(&mut set) else { return v };
        for _ in 0..2 {
            let t = random_tree(&mut r, os.len());
            v.push((false, c21_event(&texts, link_tree(&t, &os), &at).0));
        }
        // a definer without a symbol table
        if texts.len() == 2 && r.chance(1, 3) {
            let (Some(Ok(Ok(a))), Some(Ok(Ok(b)))) = (asm(&texts[0], true), asm(&texts[1], false)) else { return v };
            if b.symbol_table().is_none() {
                let (e, k) = c21_event(&texts, link_tree(&random_tree(&mut r, 2), &[a, b]), &at);
                v.push((k == "UnresolvedExternal", e));
            }
        }
        v
    });
    let (kf, ok): (Vec<_>, Vec<_>) = evs.into_iter().flatten().partition(|x| x.0);
    let mut f = cx.file("T_C21.ndjson");
    chunked(&mut f, ok.into_iter().map(|x| x.1).collect(), "sets", 40);
    for x in kf { f.put(&obj! {"name": "definer without symbol table", "kf": "definer-without-symbols", "ev": vec![x.1]}); }
}

// ---------------------------------------------------------------- C22
pub fn c22(cx: &Cx) {
    let seed = cx.seed;
    let evs: Vec<Vec<V>> = par(cx.n(1100, 25_000), |i| {
        let mut r = Rng::new(seed, (220 << 32) + i as u64);
        let mut set = set_with(&mut r, SetOpts { files: (2, 3), clash: i % 4 == 0, wild: i % 3 == 0 });
        for s in &mut set { s.1 = true; }
        let Some(os) = assembled(&mut set) else { return vec![] };
        let mut v = vec![];
        for _ in 0..2 {
            let t = random_tree(&mut r, os.len());
            let Ok(Ok(o)) = link_tree(&t, &os) else { continue };
            let Some(sym) = o.symbol_table() else { continue };
            let src = sym.source_info().map(|s| s.source().to_string()).unwrap_or_default();
            let lines: Vec<V> = o.addr_iter().map(|(a, _)| arr![a, sym.rev_lookup_line(a).map_or(arr![-1], |l| sym.source_info().and_then(|s| s.read_line(l)).map_or(arr![-2], bytes))]).collect();
            let mut names: Vec<String> = sym.label_iter().map(|x| x.0.to_string()).collect();
            names.sort();
            let labels: Vec<V> = names.iter().map(|n| {
                let asked = recase(&mut r, n);
                let sp = sym.get_label_source(&asked).unwrap_or(0..0);
                let around: Vec<i64> = [sp.start.checked_sub(1), Some(sp.end)].into_iter().flatten().filter_map(|i| src.as_bytes().get(i)).map(|b| *b as i64).collect();
                let line = sym.source_info().and_then(|s| { let (l, _) = s.get_pos_pair(sp.start); s.read_line(l).map(bytes) }).unwrap_or(arr![-2]);
                arr![bytes(n), src.get(sp.clone()).map_or(arr![-2], bytes), around, line]
            }).collect();
            v.push(arr!["set", set.iter().map(|s| bytes(&s.0)).collect::<Vec<V>>(), lines, labels]);
        }
        v
    });
    let mut f = cx.file("T_C22.ndjson");
    chunked(&mut f, evs.into_iter().flatten().collect(), "sets", 20);
    chunked(&mut f, crate::sweep::linked(cx), "sweep", 1);
    for l in ["ſt", "aı", "ⱥ"] {
        let ts = [".orig x3000\nHALT\n.end".to_string(), format!(".orig x4000\n{l} HALT\n.end")];
        let Some(Ok(Ok(a))) = asm(&ts[0], true) else { continue };
        let Some(Ok(Ok(b))) = asm(&ts[1], true) else { continue };
        let Ok(Ok(o)) = guarded(|| "link".into(), || ObjectFile::link(a, b)) else { continue };
        let Some(sym) = o.symbol_table() else { continue };
        let t = sym.get_label_source(l).and_then(|sp| sym.source_info()?.source().as_bytes().get(sp).map(|b| V::A(b.iter().map(|x| V::from(*x)).collect()))).unwrap_or(arr![-2]);
        f.put(&obj! {"name": "label whose upper case has another length", "kf": "unicode-label-length", "ev": vec![arr!["raw", bytes(l), t]]});
    }
}

// ---------------------------------------------------------------- C17, C18
fn dump(o: &ObjectFile, definer: Option<&ObjectFile>) -> V {
    let (a, b) = cells_json(o);
    let mut src: Vec<V> = vec![];
    let mut lines: Vec<V> = vec![];
    let mut text = arr![-1];
    if let Some(s) = o.symbol_table() {
        let mut n: Vec<&str> = s.label_iter().map(|x| x.0).collect();
        n.sort();
        src = n.iter().map(|n| s.get_label_source(n).map_or(arr![-1], |sp| arr![sp.start, sp.end])).collect();
        lines = s.line_iter().map(|(l, a)| arr![l, a]).collect();
        if let Some(i) = s.source_info() { text = arr![bytes(i.source())]; }
    }
    let linked = match definer.map(|d| guarded(|| "link".into(), || ObjectFile::link(o.clone(), d.clone()))) {
        None => arr!["none"],
        Some(Ok(Ok(l))) => { let (x, y) = cells_json(&l); arr!["ok", x, y, labels_json(&l)] }
        Some(Ok(Err(e))) => arr!["err", asm_err_kind(&e)],
        Some(Err(p)) => arr!["panic", p],
    };
    arr![a, b, labels_json(o), src, lines, text, linked]
}
/// A file that defines what another one leaves external.
fn definer(r: &mut Rng, o: &ObjectFile) -> Option<ObjectFile> {
    let names: Vec<String> = o.symbol_table()?.label_iter().filter(|x| x.2).map(|x| x.0.to_string()).collect();
    if names.is_empty() { return None; }
    let used: Vec<u16> = o.addr_iter().map(|x| x.0).collect();
    let n = names.len() as u16;
    let at = (0..50).map(|_| r.range(0, 0xFD00) as u16).find(|a| !used.iter().any(|u| (*a..*a + n + 1).contains(u)))?;
    let body: String = names.iter().map(|n| format!("{n} .fill x7\n")).collect();
    asm(&format!(".orig x{at:X}\n{body}.end"), true)?.ok()?.ok()
}
fn round<F: ObjFileFormat>(cx: &Cx, name: &'static str, stream: u64, n: usize) {
    let seed = cx.seed;
    let evs: Vec<Option<V>> = par(n, |i| {
        let mut r = Rng::new(seed, (stream << 32) + i as u64);
        let (texts, o): (Vec<String>, ObjectFile) = match i % 5 {
            0..=2 => {
                let mut op = Opts::small();
                op.wild = i % 3 != 0;
                let p = if r.chance(1, 6) { gen_edge(&mut r) } else { gen_prog(&mut r, &op, Fault::None) };
                let p = stretch(&mut r, p);
                let mut t = render(&p, &mut r, Style { plain: i % 4 == 0, relabel: false });
                // odd text after the program and in comments
                if r.chance(1, 3) {
                    let nl = *r.pick(&["\n", "\r\n"]);
                    for _ in 0..1 + r.below(4) { t.push_str(nl); t.push_str(*r.pick(&["", " ", "\t", ";", "; ====", "; # x", ";\"", ";\\", ";\\n", ";\\u{41}", ";é😀", ";\u{1}\u{7f}", "; a | b | c", ";'", ";\u{2028}\u{85}", ";\u{feff}", ";.TEXT", "; \\\\ \\\"", ";\t|\t", "   ; ????", ";\r\r"])); }
                }
                let o = asm(&t, r.chance(2, 3))?.ok()?.ok()?;
                (vec![t], o)
            }
            k => {
                let mut set = set_with(&mut r, SetOpts { files: (2, 4), clash: false, wild: k == 4 });
                // also files without symbol tables
                let os = if r.chance(3, 4) { assembled(&mut set)? } else { set.iter().map(|(t, d)| asm(t, *d)?.ok()?.ok()).collect::<Option<Vec<_>>>()? };
                let full = os.iter().all(|o| o.symbol_table().is_some());
                let t = random_tree(&mut r, os.len());
                let o = link_tree(&t, &os).ok()?.ok()?;
                // (the expected image is only specified for files with symbol tables)
                (if full { set.into_iter().map(|s| s.0).collect() } else { vec!["!".into()] }, o)
            }
        };
        let d = definer(&mut r, &o);
        let back = guarded(|| format!("round trip {texts:?}"), || { let s = F::serialize(&o); F::deserialize(std::borrow::Borrow::borrow(&s)) });
        let (res, b) = match back {
            Err(p) => (format!("panic: {p}"), V::A(vec![])),
            Ok(None) => ("rejected".to_string(), V::A(vec![])),
            Ok(Some(b)) => (if b == o { "equal" } else { "different" }.to_string(), dump(&b, d.as_ref())),
        };
        Some(arr![texts.iter().map(|t| bytes(t)).collect::<Vec<V>>(), res, dump(&o, d.as_ref()), b])
    });
    let mut f = cx.file(&format!("{name}.ndjson"));
    chunked(&mut f, evs.into_iter().flatten().collect(), "object files", 15);
    let bigs: Vec<Vec<V>> = par(sweeps().len(), |i| sweep_round::<F>(&sweeps()[i]));
    chunked(&mut f, bigs.into_iter().flatten().collect(), "sweep", 15);
    let lines: Vec<Vec<V>> = par(LINE_BITS.len(), |i| LINE_BITS.iter().enumerate().flat_map(|(j, b)| {
        let mut r = Rng::new(0, (i * LINE_BITS.len() + j) as u64);
        let nl = *r.pick(&["\n", "\r\n"]);
        let (a, c) = (LINE_BITS[i], *r.pick(&[";", "; note", "\t;", " ; x"]));
        let t = format!(".orig x3000{nl}HALT {c}{a}{b}{nl}.end{nl}{c}{a}{nl}{c}{b}{a}{nl}{c}{a}{b}");
        let more = format!("{a}{b}{nl}{b} {a}");
        [sweep_round::<F>(&[(t.clone(), true)]), sweep_round::<F>(&[(format!("{t}\u{10FFFE}{more}"), true)])].concat()
    }).collect());
    chunked(&mut f, lines.into_iter().flatten().collect(), "line ends", 40);
}
/// Pieces of text with which lines are made to begin and end.
const LINE_BITS: [&str; 40] = ["", " ", "\t", "#", "\\", "\"", "'", "|", "=", ".", "?", ";", "n", "r", "u", "{", "}", "0", "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}",
    "é", "😀", "\u{301}", "\u{200d}", "\\u{", "====================", " | ", "????", ".TEXT", "LC-3 OBJ FILE", "x", "\u{b}", "\u{c}", "\u{1b}", "_", "\r"];
/// Sets of files that between them have an entry of every kind at every address, every word, long lines, many lines, many labels.
fn sweeps() -> &'static Vec<Vec<(String, bool)>> {
    static S: std::sync::OnceLock<Vec<Vec<(String, bool)>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        use std::fmt::Write;
        const N: usize = 0xFE00;
        let block = |org: usize, body: String| format!(".orig x{org:X}\n{body}.end\n");
        let each = |f: &dyn Fn(usize, &mut String)| { let mut s = String::new(); for a in 0..N { f(a, &mut s); } s };
        let mut v = vec![];
        let mut both = |t: String| { v.push(vec![(t.clone(), false)]); v.push(vec![(t, true)]); };
        // every word
        both(block(0, each(&|a, s| { let _ = writeln!(s, ".fill x{a:X}"); })));
        both(block(0x3000, (0xFDF0..=0xFFFF).fold(String::new(), |mut s, w| { let _ = writeln!(s, ".fill x{w:X}"); s })));
        // a relocation at every address, of one name and of several
        both(format!(".external E\n{}", block(0, each(&|_, s| s.push_str(".fill E\n")))));
        both(format!(".external E\n.external F_\n.external g\n{}", block(0, each(&|a, s| { let _ = writeln!(s, ".fill {}", ["E", "f_", "G", "7"][a % 4]); }))));
        // a label at every address, all over a long source
        both(block(0, each(&|a, s| { let _ = writeln!(s, "L{a} .fill L{a}"); })));
        // labels after long comments, lines and line numbers beyond 16 bits
        for k in [250usize, 4090, 65530] {
            both(format!(".orig x3000\n; {}\n{}.end", "x".repeat(k), (0..20).map(|i| format!("L{i} ST R0, L{i}\n")).collect::<String>()));
            both(format!(".orig x0\n{}A HALT\n{}B HALT\n{}.end\n\n", "NOP\n\n\n".repeat(k / 6), "NOP\n;\n".repeat(k / 3), (0..20).map(|i| format!("C{i} .blkw {}\n\n", i + 1)).collect::<String>()));
        }
        // unfilled space of every shape
        both((0..150usize).map(|i| block(0x1000 + i * 200, format!(".blkw {}\n.fill {i}\n", i + 1))).collect());
        both((0..150usize).map(|i| block(0x1000 + i * 200, format!(".fill {i}\n.blkw {}\n", i + 1))).collect());
        both(block(0, format!(".blkw {}\n", N)));
        both(block(0xFDFF, ".blkw 1\n".into()));
        both(block(0xFDFF, "X .fill X\n".into()));
        // blocks everywhere, next to each other, empty ones
        both((0..3000usize).map(|i| block(i * 21, "HALT\n".into())).collect());
        both((0..3000usize).map(|i| block(0x200 + i, format!("B{i} .fill x{i:X}\n"))).collect());
        both((0..500usize).map(|i| block(0x200 + 2 * i, if i % 2 == 0 { String::new() } else { format!("B{i}\n") })).collect());
        // labels of every length and spelling
        let abc: Vec<char> = ('a'..='z').chain('A'..='Z').chain(['_']).collect();
        let more: Vec<char> = abc.iter().copied().chain('0'..='9').collect();
        let mut seen = std::collections::BTreeSet::new();
        let mut body = String::new();
        let mut names: Vec<String> = (1..400).map(|n| "q".repeat(n)).collect();
        for a in &abc { for b in &more { names.push(format!("{a}{b}")); for c in ["_", "0", "z"] { names.push(format!("{a}{b}{c}")); } } }
        names.extend(["ADDR", "EXT", "LABEL", "INDEX", "LINE", "SOURCE", "TEXT", "SYMBOL", "LINKER_INFO", "DEBUG", "LC", "_", "__", "OBJ", "FILE", "NULL", "true"].map(String::from));
        for n in names {
            let u = n.to_uppercase();
            let b = u.as_bytes();
            if (b[0] == b'X' && b.len() > 1 && b[1].is_ascii_hexdigit()) || (b[0] == b'R' && b.len() > 1 && b[1].is_ascii_digit())
                || ["BR", "BRN", "BRZ", "BRP", "ADD", "AND", "NOT", "LD", "ST", "JMP", "JSR", "RET", "RTI", "LDR", "STR", "LDI", "STI", "LEA", "NOP", "OUT", "PUTS", "GETC", "IN", "HALT", "TRAP"].contains(&&*u) { continue; }
            if seen.insert(u) { let _ = writeln!(body, "{n} .fill {n}"); }
        }
        both(block(0x3000, body));
        // linked: externals of one file resolved or not by another, at every distance
        let a = format!(".external E\n.external U\n{}", block(0x2000, (0..9000).map(|i| format!("A{i} .fill {}\n", if i % 3 == 0 { "U" } else { "E" })).collect()));
        let b = block(0x6000, format!("E .fill A_\nA_ .blkw 700\n{}", (0..9000).map(|i| format!("C{i} .fill E ; {i}\n")).collect::<String>()));
        v.push(vec![(a.clone(), true), (b.clone(), true)]);
        v.push(vec![(a.clone(), false), (b.clone(), true)]);
        v.push(vec![(b, true), (a, true), (block(0xF000, "U HALT\n".into()), true)]);
        v
    })
}
fn sweep_round<F: ObjFileFormat>(set: &[(String, bool)]) -> Vec<V> {
    let name: String = set.iter().map(|s| s.0.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<String>()).collect();
    let mut o = None;
    for (t, d) in set {
        // text after the last U+10FFFE is part of the source, but not of the program
        let (prog, rest) = if *d { t.rsplit_once('\u{10FFFE}').unwrap_or((t, "")) } else { (t.as_str(), "") };
        let Ok(ast) = lc3_ensemble::parse::parse_ast(prog) else { return vec![] };
        let Ok(Ok(p)) = crate::asm::asm_ast(ast, &format!("{prog}{rest}"), *d) else { return vec![] };
        o = match o { None => Some(p), Some(a) => match guarded(|| "link".into(), || ObjectFile::link(a, p)) { Ok(Ok(l)) => Some(l), _ => return vec![] } };
    }
    let o = o.unwrap();
    let back = guarded(|| format!("round trip {name}"), || { let s = F::serialize(&o); F::deserialize(std::borrow::Borrow::borrow(&s)) });
    let res = match back {
        Err(p) => format!("panic: {p}"),
        Ok(None) => "rejected".to_string(),
        Ok(Some(b)) => if b == o && dump(&b, None).to_string() == dump(&o, None).to_string() { "equal" } else { "different" }.to_string(),
    };
    vec![arr![V::A(vec![]), res, bytes(&name), bytes(&name)]]
}
pub fn c17(cx: &Cx) { round::<BinaryFormat>(cx, "T_C17", 170, cx.n(1800, 30_000)) }
pub fn c18(cx: &Cx) { round::<TextFormat>(cx, "T_C18", 180, cx.n(1800, 30_000)) }

// ---------------------------------------------------------------- C19
fn le(n: u64, k: usize) -> Vec<u8> { n.to_le_bytes()[..k].to_vec() }
fn odd_num(r: &mut Rng) -> u64 {
    match r.below(9) { 0 => u64::MAX, 1 => u64::MAX - r.below(20) as u64, 2 => 1 << 63, 3 => 1 << 32, 4 => 65536, 5 => 65535, 6 => r.below(40) as u64, 7 => (1 << 63) - 1, _ => r.next() >> r.below(64) }
}
fn odd_addr(r: &mut Rng) -> u16 { match r.below(4) { 0 => *r.pick(&[0, 1, 0xFDFF, 0xFE00, 0xFE02, 0xFFFE, 0xFFFF, 0x3000, 0x8000]), 1 => 0x3000 + r.below(12) as u16, _ => r.u16() } }
fn odd_label(r: &mut Rng) -> String { r.pick(&["A", "B", "C", "a", "", "é", "A B", " | ", "\n", "ſ", "Long_label_name", "====", "#", "\u{0}", "."]).to_string() }
/// Binary chunks of every kind, mostly sensible, with odd lengths, addresses, lines and relocations.
fn raw_binary(r: &mut Rng) -> Vec<u8> {
    let mut b = b"obj\x21\x10\x00\x01".to_vec();
    for _ in 0..r.below(9) {
        let kind = match r.below(20) { 0 => r.below(256) as u8, k => (k % 5) as u8 };
        b.push(kind);
        match kind {
            0 => {
                let n = match r.below(12) { 0 => 0, 1 => 65535, 2 => 0x200, _ => r.below(6) as u64 };
                b.extend(odd_addr(r).to_le_bytes());
                b.extend(le(if r.chance(1, 20) { odd_num(r) } else { n }, 2));
                for _ in 0..n { b.extend([if r.chance(1, 4) { 0 } else { 0xFF }, r.below(256) as u8, r.below(256) as u8]); }
            }
            1 => {
                let l = odd_label(r);
                b.extend(odd_addr(r).to_le_bytes());
                b.push(*r.pick(&[0, 0, 1, 1, 2, 255]));
                b.extend(le(odd_num(r), 8));
                b.extend(le(if r.chance(1, 20) { odd_num(r) } else { l.len() as u64 }, 8));
                b.extend(l.bytes());
            }
            2 => {
                let n = r.below(5) as u64;
                b.extend(le(if r.chance(1, 2) { r.below(8) as u64 } else { odd_num(r) }, 8));
                b.extend(le(if r.chance(1, 20) { odd_num(r) } else { n }, 2));
                let a = odd_addr(r);
                for k in 0..n { b.extend(if r.chance(1, 8) { r.u16() } else { a.saturating_add(k as u16) }.to_le_bytes()); }
            }
            3 => {
                let s: String = (0..r.below(12)).map(|_| *r.pick(&["\n", "a", " ", "é", "\r\n", "A ", "\"", "\\"])).collect();
                b.extend(le(if r.chance(1, 20) { odd_num(r) } else { s.len() as u64 }, 8));
                b.extend(s.bytes());
                if r.chance(1, 30) { b.push(0xFF); }
            }
            _ => {
                let l = odd_label(r);
                b.extend(odd_addr(r).to_le_bytes());
                b.extend(le(if r.chance(1, 20) { odd_num(r) } else { l.len() as u64 }, 8));
                b.extend(l.bytes());
            }
        }
    }
    b
}
/// Sections of the text format, mostly sensible.
fn raw_text(r: &mut Rng) -> String {
    let hex = |r: &mut Rng| match r.below(12) { 0 => "????".into(), 1 => r.pick(&["", "1", "00000", "+123", "-123", "x123", "é12", "G000", "ffff"]).to_string(), _ => format!("{:04X}", odd_addr(r)) };
    let num = |r: &mut Rng| match r.below(6) { 0 => odd_num(r).to_string(), 1 => r.pick(&["", "-1", "+1", "1.0", "99999999999999999999999", "x1"]).to_string(), _ => r.below(6).to_string() };
    let mut t = String::from("LC-3 OBJ FILE\n\n");
    let secs = [".TEXT", ".SYMBOL", ".LINKER_INFO", ".DEBUG"];
    let k = 1 + r.below(5);
    for i in 0..k {
        let s = if r.chance(2, 3) { secs[i % 4] } else { *r.pick(&secs) };
        t.push_str(s);
        t.push('\n');
        match s {
            ".TEXT" => for _ in 0..r.below(4) {
                let n = if r.chance(1, 15) { 600 } else { r.below(5) };
                t += &format!("{}\n{}\n", hex(r), if r.chance(1, 12) { num(r) } else { n.to_string() });
                for _ in 0..n { let h = hex(r); t += &h; t.push('\n'); }
            },
            ".SYMBOL" => { if r.chance(9, 10) { t += "ADDR | EXT | LABEL\n"; } for _ in 0..r.below(4) { t += &format!("{} | {:>3} | {}\n", hex(r), num(r), odd_label(r)); } }
            ".LINKER_INFO" => { if r.chance(9, 10) { t += "ADDR | LABEL\n"; } for _ in 0..r.below(4) { t += &format!("{} | {}\n", hex(r), odd_label(r)); } }
            _ => {
                if r.chance(1, 2) { t += "# DEBUG\n"; }
                if r.chance(1, 2) { t += "LABEL | INDEX\n"; for _ in 0..r.below(3) { t += &format!("{} | {}\n", odd_label(r), num(r)); } }
                if r.chance(1, 40) { t += &format!("{} | 1\n", "L".repeat(70_000)); }
                for _ in 0..r.below(3) { t += "=====\n"; }
                if r.chance(2, 3) {
                    t += "=====\nLINE | ADDR | SOURCE\n";
                    for j in 0..r.below(6) {
                        let src = *r.pick(&["\\n", "ADD\\n", "\\u{41}\\n", "\\", "\\u{110000}", "\\u{", "\\x4", "\\8", "\\777", "é", "a | b\\n", "\\u{D800}", "\\u", "\\uq", "\\b", ""]);
                        t += &format!("{} | {} | {}\n", if r.chance(1, 15) { num(r) } else { j.to_string() }, hex(r), src);
                    }
                    if r.chance(4, 5) { t += "=====\n"; }
                }
            }
        }
        if r.chance(1, 2) { t.push('\n'); }
    }
    t
}
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(4) {
        let n = b.len();
        if n == 0 { return; }
        let at = r.below(n);
        match r.below(8) {
            0 => { b[at] ^= 1 << r.below(8); }
            1 => { b[at] = *r.pick(&[0, 0xFF, 1, 0x80, b'\n', b'|', b'=', b'.', b'#', b'\\', b'0', b'?', b' ']); }
            2 => { b.truncate(at); }
            3 => { b.remove(at); }
            4 => { let x = b[at]; b.insert(at, x); }
            5 => { let e = (at + r.below(12)).min(n); let s: Vec<u8> = b[at..e].to_vec(); let to = r.below(n); b.splice(to..to, s); }
            6 => { let e = (at + 8).min(n); let v = odd_num(r).to_le_bytes(); b[at..e].copy_from_slice(&v[..e - at]); }
            // whole lines
            _ => {
                let mut ls: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
                let (i, j) = (r.below(ls.len()), r.below(ls.len()));
                match r.below(3) { 0 => ls.swap(i, j), 1 => { ls.remove(i); } _ => { let l = ls[i].clone(); ls.insert(j, l); } }
                *b = ls.join(&b'\n');
            }
        }
    }
}
thread_local! { static SIM: std::cell::RefCell<Simulator> = std::cell::RefCell::new(Simulator::new(SimFlags { machine_init: lc3_ensemble::sim::mem::MachineInitStrategy::Known { value: 0 }, ..Default::default() })); }
/// Runs one input through all stages; the stages and outcomes, and the input if something panicked.
fn untrusted(r: &mut Rng, others: &[ObjectFile], input: &[u8], text: bool) -> Vec<(String, String)> {
    let mut st: Vec<(String, String)> = vec![];
    let read = |b: &[u8], text: bool| -> Result<Option<ObjectFile>, String> {
        guarded(|| format!("read object file {:?}", String::from_utf8_lossy(b)), || if text { TextFormat::deserialize(&String::from_utf8_lossy(b)) } else { BinaryFormat::deserialize(b) })
    };
    let oc = |x: &Result<Option<ObjectFile>, String>| match x { Ok(Some(_)) => "object".to_string(), Ok(None) => "rejected".into(), Err(p) => format!("panic {p}") };
    let o = read(input, text);
    st.push(("read".into(), oc(&o)));
    let Ok(Some(o)) = o else { return st };
    for t in [false, true] {
        let w = guarded(|| "write".into(), || if t { TextFormat::serialize(&o).into_bytes() } else { BinaryFormat::serialize(&o) });
        match w {
            Err(p) => st.push(("write".into(), format!("panic {p}"))),
            Ok(b) => { st.push(("write".into(), "ok".into())); let x = read(&b, t); st.push(("reread".into(), oc(&x))); }
        }
    }
    let loadit = |o: &ObjectFile| SIM.with(|s| match guarded(|| "load".into(), || s.borrow_mut().load_obj_file(o)) { Ok(Ok(())) => "ok".into(), Ok(Err(_)) => "err".into(), Err(p) => format!("panic {p}") });
    st.push(("load".into(), loadit(&o)));
    for k in 0..2 {
        let x = r.pick(others).clone();
        let (a, b) = if k == 0 { (o.clone(), x) } else { (x, o.clone()) };
        match guarded(|| "link".into(), || ObjectFile::link(a, b)) {
            Ok(Ok(l)) => { st.push(("link".into(), "ok".into())); st.push(("load".into(), loadit(&l)));
                st.push(("write".into(), catch(|| { let _ = TextFormat::serialize(&l); let _ = BinaryFormat::serialize(&l); let _ = (format!("{l:?}"), l.addr_iter().count()); }).map_or_else(|p| format!("panic {p}"), |_| "ok".into()))); }
            Ok(Err(_)) => st.push(("link".into(), "err".into())),
            Err(p) => st.push(("link".into(), format!("panic {p}"))),
        }
    }
    st
}
pub fn c19(cx: &Cx) {
    let seed = cx.seed;
    // assembled files to link with: defining, declaring and using the labels the inputs mention
    let others: Vec<ObjectFile> = [".orig x4000\nA .fill 1\nB .fill 2\nC .fill 3\n.end", ".external A\n.external B\n.external C\n.orig x3004\n.fill A\n.fill B\n.fill C\n.end", ".orig x3000\nHALT\n.end",
        ".orig x3002\nA .fill B\n.end\n.external B", ".orig x0\n.blkw xFE00\n.end", ".orig x5000\nLong_label_name HALT\nB .fill A\n.end\n.external A", ".orig x3000\n.end\n", ".orig xFDFF\nA HALT\nB .end"]
        .iter().flat_map(|t| [true, false].map(|d| asm(t, d).unwrap().unwrap().unwrap())).collect();
    let n = cx.n(60_000, 2_000_000);
    let per = 500;
    let chunks: Vec<(BTreeMap<Vec<(String, String)>, usize>, Vec<V>)> = par(n / per, |c| {
        let mut m: BTreeMap<Vec<(String, String)>, usize> = BTreeMap::new();
        let mut bad = vec![];
        let mut pool: Vec<ObjectFile> = vec![];
        for i in 0..per {
            let mut r = Rng::new(seed, (190 << 32) + (c * per + i) as u64);
            if i % 50 == 0 {
                pool.clear();
                for _ in 0..4 {
                    let mut set = set_with(&mut r, SetOpts { files: (1, 2), clash: false, wild: true });
                    if let Some(os) = assembled(&mut set) { if let Ok(Ok(o)) = link_tree(&random_tree(&mut r, os.len()), &os) { pool.push(o); } }
                }
            }
            let text = r.chance(1, 2);
            let input: Vec<u8> = match r.below(6) {
                0 | 1 => if text { raw_text(&mut r).into_bytes() } else { raw_binary(&mut r) },
                2 => { let mut b = if text { raw_text(&mut r).into_bytes() } else { raw_binary(&mut r) }; mutate(&mut r, &mut b); b }
                3 => { let k = r.below(40); let mut b: Vec<u8> = (0..k).map(|_| r.below(256) as u8).collect(); if r.chance(2, 3) { let mut h = if text { b"LC-3 OBJ FILE\n".to_vec() } else { b"obj\x21\x10\x00\x01".to_vec() }; h.append(&mut b); b = h; } b }
                _ => {
                    let o = if pool.is_empty() { r.pick(&others).clone() } else { r.pick(&pool).clone() };
                    let mut b = if text { TextFormat::serialize(&o).into_bytes() } else { BinaryFormat::serialize(&o) };
                    mutate(&mut r, &mut b);
                    b
                }
            };
            let st = untrusted(&mut r, &others, &input, text);
            if st.iter().any(|x| x.1.starts_with("panic")) {
                if bad.len() < 5 { bad.push(obj! {"name": "an input", "text": text, "input": String::from_utf8_lossy(&input).chars().take(3000).collect::<String>(), "bytes": input.iter().take(4000).map(|b| V::from(*b)).collect::<Vec<V>>(),
                    "ev": st.iter().map(|(a, b)| arr![a, b, 1]).collect::<Vec<V>>()}); }
            } else { *m.entry(st).or_default() += 1; }
        }
        (m, bad)
    });
    let mut all: BTreeMap<Vec<(String, String)>, usize> = BTreeMap::new();
    let mut f = cx.file("T_C19.ndjson");
    let mut shown = 0;
    for (m, bad) in chunks {
        for (k, v) in m { *all.entry(k).or_default() += v; }
        for b in bad { if shown < 20 { f.put(&b); shown += 1; } }
    }
    for (k, v) in all { f.put(&obj! {"name": format!("{v} inputs"), "ev": k.iter().map(|(a, b)| arr![a, b, v]).collect::<Vec<V>>()}); }
}
