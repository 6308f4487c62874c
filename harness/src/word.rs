//! C15: words with per-bit initialisation.
use crate::util::*;
use crate::{arr, obj};
use lc3_ensemble::sim::mem::Word;

/// Where value and mask sit inside a `Word`, found at run time (None: representation unknown,
/// fall back to what the public operations reveal).
fn layout() -> Option<bool> {
    if std::mem::size_of::<Word>() != 4 { return None; }
    let raw = |w: Word| -> [u16; 2] { unsafe { std::mem::transmute_copy(&w) } };
    match (raw(Word::new_init(0x1234)), raw(Word::new_uninit(&mut 0x5678u16))) {
        ([0x1234, 0xFFFF], [0x5678, 0]) => Some(true),
        ([0xFFFF, 0x1234], [0, 0x5678]) => Some(false),
        _ => None,
    }
}
pub fn mask_of(w: Word) -> u16 {
    match layout() {
        Some(first) => { let r: [u16; 2] = unsafe { std::mem::transmute_copy(&w) }; r[if first { 1 } else { 0 }] }
        None => (0..16).filter(|i| (w & Word::new_init(1 << i)).is_init()).map(|i| 1u16 << i).sum(),
    }
}
/// A word with the given value and mask (1 = initialised bit).
pub fn mk(v: u16, m: u16) -> Word {
    match layout() {
        Some(first) => { let r: [u16; 2] = if first { [v, m] } else { [m, v] }; unsafe { std::mem::transmute_copy(&r) } }
        None => {
            let a = Word::new_uninit(&mut { v }) & Word::new_init(!m);
            !(!a & Word::new_init(!(v & m)))
        }
    }
}
fn pair(w: Word) -> V { arr![w.get(), mask_of(w)] }
fn gen_word(r: &mut Rng) -> Word {
    let v = r.word();
    let m = match r.below(6) { 0 => 0xFFFF, 1 => 0, 2 => 0xFF00, 3 => 0x00FF, 4 => !(1 << r.below(16)), _ => r.u16() };
    mk(v, m)
}
pub fn c15(cx: &Cx) {
    let mut f = cx.file("T_C15.ndjson");
    let total = cx.n(15_000, 400_000);
    let chunk = 500;
    let seed = cx.seed;
    f.put_all(par(total / chunk, |c| {
        let mut r = Rng::new(seed, 1500 + c as u64);
        let mut ev = vec![];
        for k in 0..chunk {
            let (a, b) = match k % 5 {
                // fully initialised operands
                0 => (Word::new_init(r.word()), Word::new_init(r.word())),
                // an operand that is fully initialised to zero / all ones
                1 => { let z = Word::new_init(*r.pick(&[0u16, 0, 0xFFFF, 1])); let g = gen_word(&mut r); if r.chance(1, 2) { (z, g) } else { (g, z) } }
                // zero value, partly uninitialised
                2 => { let z = mk(0, r.u16()); let g = gen_word(&mut r); if r.chance(1, 2) { (z, g) } else { (g, z) } }
                _ => (gen_word(&mut r), gen_word(&mut r)),
            };
            let raw = r.word();
            for (op, res) in [
                ("add", catch(|| a + b)), ("sub", catch(|| a - b)), ("and", catch(|| a & b)), ("not", catch(|| !a)),
                ("add", catch(|| { let mut x = a; x += b; x })),
                ("sub", catch(|| { let mut x = a; x -= b; x })),
                ("and", catch(|| { let mut x = a; x &= b; x })),
            ] {
                ev.push(match res { Ok(w) => arr![op, pair(a), pair(b), pair(w)], Err(_) => arr!["panic", pair(a), pair(b), op] });
            }
            let rb = Word::new_init(raw);
            for (op, res) in [
                ("add", catch(|| { let mut x = a; x += raw; x })),
                ("add", catch(|| { let mut x = a; x += raw as i16; x })),
                ("sub", catch(|| { let mut x = a; x -= raw; x })),
                ("sub", catch(|| { let mut x = a; x -= raw as i16; x })),
            ] {
                ev.push(match res { Ok(w) => arr![op, pair(a), pair(rb), pair(w)], Err(_) => arr!["panic", pair(a), pair(rb), op] });
            }
            // aliasing: both operands are the same word
            for (op, res) in [("add", catch(|| a + a)), ("sub", catch(|| a - a)), ("and", catch(|| a & a))] {
                ev.push(match res { Ok(w) => arr![op, pair(a), pair(a), pair(w)], Err(_) => arr!["panic", pair(a), pair(a), op] });
            }
        }
        obj! {"name": format!("words {c}"), "ev": ev}
    }));
}
