//! Long programs of a fixed form (spec/Sweep.tla), and comments pushed into texts.
use crate::asm::asm;
use crate::util::*;
use crate::arr;
use lc3_ensemble::asm::{ObjectFile, SourceInfo};
use std::cell::Cell;

// ---------------------------------------------------------------- texts with a comment pushed in
thread_local! { static PAD: Cell<(usize, usize)> = const { Cell::new((usize::MAX, 0)) }; }
/// An offset in a padded text, in the text without padding; -7 if inside of the padding.
pub fn sp(x: usize) -> i64 {
    let (cut, pad) = PAD.get();
    if x <= cut { x as i64 } else if x >= cut + pad { (x - pad) as i64 } else { -7 }
}
/// Runs f with the text padded at a random line start: offsets that f translates with sp() are those of the text itself.
pub fn padded<T>(r: &mut Rng, text: &str, f: impl FnOnce(&str) -> T) -> T {
    let cuts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|x| x.0 + 1)).collect();
    let cut = *r.pick(&cuts);
    let n = match r.below(8) { 0 => 128 + r.below(300), 1 => 4000 + r.below(200), 2 => 32_700 + r.below(200), 3 => 131_072 - r.below(200), 4 => 65_536, _ => 65_536usize.saturating_sub(r.below(2 * text.len() + 20)) };
    let pad = match r.below(4) {
        0 => format!(";{}\n", "é".repeat(n / 2)),
        1 => (0..n / 64).map(|_| format!(";{}\n", " \t;\"\\:#x".repeat(7))).collect(),
        2 => format!("{};{}\n", " ".repeat(n / 2), "-".repeat(n / 2)),
        _ => format!(";{}\n", "p".repeat(n)),
    };
    let t = format!("{}{pad}{}", &text[..cut], &text[cut..]);
    PAD.set((cut, pad.len()));
    let v = f(&t);
    PAD.set((usize::MAX, 0));
    v
}

// ---------------------------------------------------------------- long programs
pub const KINDS: [&str; 6] = ["fill", "self", "LD", "LEA", "BR", "JSR"];
/// Line i: a label, a statement of 16 bytes; a blank line after every odd one.
pub fn program(kind: &str, c: char, org: u16, n: usize) -> String {
    let mut s = format!(".orig x{org:04X}\n");
    for i in 0..n {
        let d = if kind == "JSR" { (i * 11 % 2048) as i64 - 1024 } else { (i * 7 % 512) as i64 - 256 };
        let t = (i as i64 + 1 + d).clamp(0, n as i64 - 1);
        let st = match kind {
            "fill" => format!(".fill x{:04X}", (i * 13 + 5) % 65536),
            "self" => format!(".fill {c}{i:05}"),
            "BR" => format!("BRz {c}{t:05}"),
            "JSR" => format!("JSR {c}{t:05}"),
            _ => format!("{kind} R{}, {c}{t:05}", i % 8),
        };
        s.push_str(&format!("{c}{i:05} {st:<16}\n{}", if i % 2 == 1 { "\n" } else { "" }));
    }
    s + ".end\n"
}
fn sizes(cx: &Cx) -> Vec<(u16, usize)> { if cx.thorough { vec![(0, 0xFE00), (0x3000, 0xCE00), (0xF000, 0xE00), (0, 1)] } else { vec![(0, 0xFE00), (0xFD00, 0x100)] } }
fn object(kind: &str, org: u16, n: usize) -> Option<ObjectFile> {
    match asm(&program(kind, 'L', org, n), true)? { Ok(Ok(o)) => Some(o), _ => None }
}
fn files<T: Send>(cx: &Cx, kinds: &[&'static str], f: impl Fn(&'static str, u16, usize, Option<ObjectFile>) -> T + Sync) -> Vec<T> {
    let all: Vec<(&'static str, u16, usize)> = kinds.iter().flat_map(|k| sizes(cx).into_iter().map(move |(o, n)| (*k, o, n))).collect();
    par(all.len(), |i| { let (k, o, n) = all[i]; f(k, o, n, object(k, o, n)) })
}
pub fn words(cx: &Cx) -> Vec<V> {
    files(cx, &KINDS, |k, org, n, o| {
        let w: Vec<i64> = match &o { None => vec![], Some(o) => { let m: std::collections::HashMap<u16, Option<u16>> = o.addr_iter().collect(); if m.len() != n { vec![] } else { (0..n).map(|i| m.get(&(org + i as u16)).copied().flatten().map_or(-1, |w| w as i64)).collect() } } };
        arr!["words", k, org, n, w]
    })
}
fn no_of(name: &str, c: char) -> i64 { name.strip_prefix(c).and_then(|d| d.parse::<i64>().ok()).unwrap_or(-1) }
pub fn labels(cx: &Cx) -> Vec<V> {
    files(cx, &["self"], |_, org, n, o| {
        let Some(s) = o.as_ref().and_then(|o| o.symbol_table()) else { return arr!["labels", org, n, V::A(vec![]), V::A(vec![]), V::A(vec![])] };
        let name = |i: usize| if i % 3 == 0 { format!("l{i:05}") } else { format!("L{i:05}") };
        let at: Vec<i64> = (0..n).map(|i| s.lookup_label(&name(i)).map_or(-1, |a| a as i64)).collect();
        // (the reverse lookup is a linear search)
        let step = (n / 600).max(1);
        let rev: Vec<V> = (0..n).filter(|i| i % step == 0 || *i + 20 > n).map(|i| arr![i, s.rev_lookup_label(org + i as u16).map_or(-1, |l| no_of(&l.to_uppercase(), 'L'))]).collect();
        let src: Vec<i64> = (0..n).map(|i| s.get_label_source(&name(i)).map_or(-1, |r| if r.len() == 6 { r.start as i64 } else { -2 })).collect();
        arr!["labels", org, n, at, rev, src]
    })
}
pub fn lines(cx: &Cx) -> Vec<V> {
    files(cx, &["fill"], |_, org, n, o| {
        let Some(s) = o.as_ref().and_then(|o| o.symbol_table()) else { return arr!["lines", org, n, V::A(vec![]), V::A(vec![]), V::A(vec![])] };
        let last = 4 + n + n / 2;
        let la: Vec<i64> = (0..last).map(|l| s.lookup_line(l).map_or(-1, |a| a as i64)).collect();
        let al: Vec<i64> = (0..=0xFFFFu16).map(|a| s.rev_lookup_line(a).map_or(-1, |l| l as i64)).collect();
        let it: Vec<V> = s.line_iter().map(|(l, a)| arr![l, a]).collect();
        arr!["lines", org, n, la, al, it]
    })
}
/// Two long files linked: which line of which file every address has, which text every label has.
pub fn linked(cx: &Cx) -> Vec<V> {
    let sets: Vec<(u16, usize, u16, usize)> = if cx.thorough { vec![(0, 0x8000, 0x8000, 0x7E00), (0x8000, 0x7000, 0x100, 0x7000), (0x3000, 2, 0x3002, 5000), (0x3000, 5000, 0x2000, 2)] } else { vec![(0, 0x3000, 0x8000, 0x2000), (0x8000, 0x1000, 0x7FFE, 2)] };
    // (some of the files begin with a long comment: line numbers beyond 16 bits)
    par(sets.len() * 4, |k| {
        let (o1, n1, o2, n2) = sets[k / 4];
        let get = |c: char, org: u16, n: usize| asm(&format!("{}{}", if k & 2 == 0 { String::new() } else { ";\n".repeat(if c == 'L' { 40_000 } else { 30_000 }) }, program("self", c, org, n)), true)?.ok()?.ok();
        let (Some(a), Some(b)) = (get('L', o1, n1), get('M', o2, n2)) else { return arr!["linked", n1, n2, V::A(vec![]), V::A(vec![])] };
        let r = guarded(|| "link".into(), || if k % 2 == 0 { ObjectFile::link(a, b) } else { ObjectFile::link(b, a) });
        let Ok(Ok(o)) = r else { return arr!["linked", n1, n2, V::A(vec![]), V::A(vec![])] };
        let Some((s, i)) = o.symbol_table().and_then(|s| Some((s, s.source_info()?))) else { return arr!["linked", n1, n2, V::A(vec![]), V::A(vec![])] };
        // 100000 * file + number of the line / label
        let id = |t: &str| { let t = t.trim(); let w = t.split(' ').next().unwrap_or(""); if w.len() != 6 { -3 } else if w.starts_with('L') { 100_000 + no_of(w, 'L') } else if w.starts_with('M') { 200_000 + no_of(w, 'M') } else { -4 } };
        let line: Vec<i64> = (0..n1 + n2).map(|k| { let a = if k < n1 { o1 + k as u16 } else { o2 + (k - n1) as u16 }; s.rev_lookup_line(a).and_then(|l| i.read_line(l)).map_or(-1, id) }).collect();
        let lab: Vec<i64> = (0..n1 + n2).map(|k| { let n = if k < n1 { format!("L{k:05}") } else { format!("M{:05}", k - n1) }; s.get_label_source(&n).and_then(|r| i.source().get(r)).map_or(-1, |t| if t.len() == 6 { id(t) } else { -2 }) }).collect();
        arr!["linked", n1, n2, line, lab]
    })
}
/// Sources of n lines of w bytes (with the newline).
pub fn sources(cx: &Cx) -> Vec<V> {
    let sets: Vec<(usize, usize)> = if cx.thorough { vec![(2, 70_000), (3, 65_537), (70_000, 2), (66_000, 5), (300, 256), (257, 257), (40_000, 1), (70_000, 1), (2, 200_000)] } else { vec![(2, 70_000), (70_000, 2), (66_000, 3), (300, 256), (66_000, 1)] };
    par(sets.len(), |k| {
        let (n, w) = sets[k];
        let t = format!("{}\n", "a".repeat(w - 1)).repeat(n);
        let s = SourceInfo::new(&t);
        let mut r = cx.rng(2500 + k as u64);
        let mut ls: Vec<usize> = (0..400).map(|_| r.below(n)).chain([0, 1, n - 1, 255, 256, 257, 65_534, 65_535, 65_536, 65_537]).filter(|l| *l < n).collect();
        ls.sort();
        ls.dedup();
        let line: Vec<V> = ls.iter().map(|l| { let x = s.line_span(*l).map_or((-1, -1), |x| (x.start as i64, x.end as i64)); arr![*l, x.0, x.1, s.read_line(*l).map_or(-1, |t| t.len() as i64)] }).collect();
        let pos: Vec<V> = (0..1000).map(|_| r.below(n * w)).chain(ls.iter().flat_map(|l| [l * w, l * w + w - 1])).map(|i| { let (l, c) = s.get_pos_pair(i); arr![i, l, c] }).collect();
        arr!["big", n, w, s.count_lines(), line, pos]
    })
}
