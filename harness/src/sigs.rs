//! C06 and C07: the signature table, every alternative and every pair of them.
use crate::doc::Doc;
use crate::space::{ds, DS};
use crate::judge::expect;
use crate::words;
use crate::model::{self, alt_end, alt_matches, ALL};
use crate::run::{Case, Judge, W};
use crate::sigtable::{Alt, SIGS};
use crate::subject;
use ff::FileFormat;
use std::sync::{Arc, LazyLock};

pub static ALTS: LazyLock<Vec<(FileFormat, Alt)>> =
    LazyLock::new(|| SIGS.iter().flat_map(|s| s.2.iter().map(move |&a| (s.0, a))).collect());

fn lay(x: &mut Vec<u8>, a: Alt, fill: u8) {
    if x.len() < alt_end(a) {
        x.resize(alt_end(a), fill);
    }
    for &(o, v) in a {
        x[o..o + v.len()].copy_from_slice(v);
    }
}
fn doc(a: Alt, fill: u8) -> Vec<u8> {
    let mut x = vec![];
    lay(&mut x, a, fill);
    x
}

pub fn recognition_spaces(t: bool) -> Vec<DS> {
    let n = ALTS.len();
    let mut s = vec![
        ds(0, "signature-exact", move |ch| {
            // Every alternative, each filling, cut or extended by a little or a lot.
            let a = ALTS[ch.choose(n)].1;
            let fill = ch.pick(&[0u8, 0xFF, b'A', b' ', b'0', b'\n', 0x7F]);
            let mut x = doc(a, fill);
            let e = ch.choose(13);
            match e {
                0..=4 => x.truncate(x.len().saturating_sub(e)),
                5..=8 => x.resize(x.len() + e - 4, fill),
                9 => x.resize(x.len().max(36_870), fill),
                10 => x.resize(x.len().max(36_871), fill),
                11 => x.resize(x.len() + 100, fill),
                _ => x.resize(x.len().max(36_870) + 5000, 0x20),
            }
            Some(x.into())
        }),
        ds(0, "signature-cuts", move |ch| {
            let a = ALTS[ch.choose(n)].1;
            let x = doc(a, ch.pick(&[0u8, b'z']));
            // All cuts of short ones; cuts within the fragments of long ones.
            let k = if x.len() < 600 { ch.choose(x.len()) } else {
                let (o, v) = a[ch.choose(a.len())];
                o + ch.choose(v.len())
            };
            Some(x[..k].to_vec().into())
        }),
        ds(0, "signature-bytes", move |ch| {
            // Every byte of every signature, every value.
            let a = ALTS[ch.choose(n)].1;
            let mut x = doc(a, 0);
            let (o, v) = a[ch.choose(a.len())];
            let i = ch.choose(v.len());
            if x.len() > 2000 && !t {
                let c = v[i];
                x[o + i] = ch.pick(&[c ^ 1, c ^ 2, c ^ 4, c ^ 8, c ^ 16, c ^ 32, c ^ 64, c ^ 128, 0, 0xFF, b' ']);
            } else {
                x[o + i] = ch.choose(256) as u8;
            }
            Some(x.into())
        }),
        ds(0, "signature-other-bytes", move |ch| {
            // Every byte outside of the signature, up to a little beyond it.
            let a = ALTS[ch.choose(n)].1;
            let mut x = doc(a, 0);
            x.resize(x.len() + 12, 0);
            let i = if x.len() < 700 { ch.choose(x.len()) } else {
                match ch.choose(3) {
                    0 => ch.choose(64),
                    1 => x.len() - 1 - ch.choose(40),
                    _ => ch.choose(x.len() / 211) * 211 + 5,
                }
            };
            if a.iter().any(|(o, v)| (*o..o + v.len()).contains(&i)) {
                return None;
            }
            x[i] = ch.pick(&[1u8, 0x20, 0x41, 0x7F, 0x80, 0xFF, b'P', b'B', b'<', 0x1F]);
            Some(x.into())
        }),
        ds(0, "signature-shifts", move |ch| {
            // One fragment moved, all fragments moved, one fragment missing, one doubled.
            let a = ALTS[ch.choose(n)].1;
            let end = alt_end(a) + 80;
            let mut x = vec![0u8; end];
            let k = ch.choose(a.len() + 1);
            let how = ch.choose(18);
            for (j, &(o, v)) in a.iter().enumerate() {
                let o2 = if j == k || k == a.len() {
                    match how {
                        0..=15 => (o as i64 + how as i64 - 8 + (how as i64 >= 8) as i64) as usize,
                        16 => continue,
                        _ => (o + 64).min(end),
                    }
                } else {
                    o
                };
                if o2 < end {
                    let m = v.len().min(end - o2);
                    x[o2..o2 + m].copy_from_slice(&v[..m]);
                }
            }
            Some(x.into())
        }),
        ds(0, "signature-mixed-fragments", move |ch| {
            // Fragments of different alternatives of one format.
            let s = &SIGS[ch.choose(SIGS.len())];
            if s.2.len() < 2 || s.2.iter().all(|a| a.len() < 2) {
                return None;
            }
            let (p, q) = (s.2[ch.choose(s.2.len())], s.2[ch.choose(s.2.len())]);
            let mut x = vec![0; alt_end(p).max(alt_end(q))];
            let (o, v) = p[ch.choose(p.len())];
            let (o2, v2) = q[ch.choose(q.len())];
            x[o..o + v.len()].copy_from_slice(v);
            x[o2..o2 + v2.len()].copy_from_slice(v2);
            Some(x.into())
        }),
        ds(0, "signature-beyond-head", move |ch| {
            // Bytes beyond the head buffer, and long contents.
            let a = ALTS[ch.choose(n)].1;
            let b = ALTS[ch.choose(n) / 8 * 8].1;
            let mut x = doc(a, 0);
            x.resize(36_870, 0);
            lay_at(&mut x, 36_870, b);
            Some(x.into())
        }),
        ds(0, "signature-case", move |ch| {
            // Letters in the other case, white space or a byte order mark in front.
            let a = ALTS[ch.choose(n)].1;
            let mut x = doc(a, b' ');
            match ch.choose(6) {
                0 => x.make_ascii_lowercase(),
                1 => x.make_ascii_uppercase(),
                2 => x.insert(0, b' '),
                3 => x.insert(0, b'\n'),
                4 => {
                    x.splice(0..0, *b"\xEF\xBB\xBF");
                }
                _ => {
                    x.remove(0);
                }
            }
            Some(x.into())
        }),
    ];
    s.push(ds(0, "signature-two-bytes", move |ch| {
        // Any two bytes of a signature.
        let a = ALTS[ch.choose(n)].1;
        let at: Vec<usize> = a.iter().flat_map(|(o, v)| *o..o + v.len()).collect();
        let i = ch.choose(at.len());
        if i + 1 == at.len() {
            return None;
        }
        let j = i + 1 + ch.choose(at.len() - i - 1);
        let mut x = doc(a, 0);
        if ch.flag() {
            x.swap(at[i], at[j]);
        } else {
            for k in [at[i], at[j]] {
                let c = x[k];
                x[k] = ch.pick(&[c ^ 1, c ^ 0x20, c ^ 0x80, c.wrapping_add(1), c.wrapping_sub(1), 0, 0xFF]);
            }
        }
        Some(x.into())
    }));
    let lens: Vec<u64> = words::lens(80_000).into_iter().filter(|n| *n < 150 || *n > 20_000 || t || n % 10 == 0 || n.count_ones() < 3).collect();
    s.push(ds(0, "signature-lengths", move |ch| {
        // Contents of any length around a signature, filled in many ways.
        let a = ALTS[ch.choose(n)].1;
        let fill = ch.pick(&[0u8, b' ', 0xFF]);
        let len = lens[ch.choose(lens.len())] as usize;
        let mut x = doc(a, fill);
        x.resize(len, fill);
        Some(x.into())
    }));
    let starts = words::all_starts();
    s.push(ds(0, "signature-words-around", move |ch| {
        // Beginnings that mean something elsewhere, before or behind a signature.
        let a = ALTS[ch.choose(n)].1;
        let w = &starts[ch.choose(starts.len())];
        let mut x = doc(a, 0);
        match ch.choose(6) {
            0 => {
                x.splice(0..0, w.iter().copied());
            }
            1 => {
                x.splice(0..0, [&w[..], &[0]].concat());
            }
            2 => x.extend(w),
            k => {
                x.resize(x.len() + [1, 2, 13][k - 3], 0);
                x.extend(w);
            }
        }
        x.extend([0; 8]);
        Some(x.into())
    }));
    s.push(ds(0, "signature-heads", |ch| {
        // All contents of two bytes, and of four bytes from the bytes that begin signatures.
        if ch.flag() {
            let mut x = vec![ch.choose(256) as u8, ch.choose(256) as u8];
            let m = ch.choose(3) * 7;
            x.resize(2 + m, 0);
            Some(x.into())
        } else {
            let a = ALTS[ch.choose(ALTS.len())].1;
            let b = ALTS[ch.choose(ALTS.len())].1;
            // The beginning of one followed by the end of another.
            let (v, w) = (a[0].1, b[0].1);
            let k = v.len() / 2;
            let mut x = vec![0; a[0].0];
            x.extend_from_slice(&v[..k]);
            x.extend_from_slice(&w[k.min(w.len())..]);
            x.resize(x.len() + 30, 0);
            Some(x.into())
        }
    }));
    s
}

fn lay_at(x: &mut Vec<u8>, base: usize, a: Alt) {
    for &(o, v) in a {
        if o > 5000 {
            continue;
        }
        if x.len() < base + o + v.len() {
            x.resize(base + o + v.len(), 0);
        }
        x[base + o..base + o + v.len()].copy_from_slice(v);
    }
}

pub fn recognition_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let b = c.doc.bytes();
        expect(subject::plain::bytes(&b), model::detect(&c.doc, 0))?;
        expect(subject::full::bytes(&b), model::detect(&c.doc, ALL)).map_err(|e| format!("with all features: {e}"))
    })
}

fn compatible(a: Alt, b: Alt) -> bool {
    for &(o, v) in a {
        for &(p, w) in b {
            let (s, e) = (o.max(p), (o + v.len()).min(p + w.len()));
            if s < e && v[s - o..e - o] != w[s - p..e - p] {
                return false;
            }
        }
    }
    true
}

/// For every alternative, the later ones that can hold at the same time.
static PAIRS: LazyLock<Vec<(usize, Vec<usize>)>> = LazyLock::new(|| {
    (0..ALTS.len())
        .map(|i| (i, (i + 1..ALTS.len()).filter(|&j| ALTS[i].0 != ALTS[j].0 && compatible(ALTS[i].1, ALTS[j].1)).collect::<Vec<_>>()))
        .filter(|x| !x.1.is_empty())
        .collect()
});

pub fn priority_spaces(t: bool) -> Vec<DS> {
    let mut s = vec![ds(0, "signature-pairs", |ch| {
        let (i, js) = &PAIRS[ch.choose(PAIRS.len())];
        let j = js[ch.choose(js.len())];
        let fill = ch.pick(&[0u8, b' ']);
        let mut x = doc(ALTS[*i].1, fill);
        lay(&mut x, ALTS[j].1, fill);
        Some(x.into())
    })];
    s.push(ds(0, "signature-pairs-one-broken", |ch| {
        // Of two that would hold, any byte of one is not right.
        let (i, js) = &PAIRS[ch.choose(PAIRS.len())];
        let j = js[ch.choose(js.len())];
        let mut x = doc(ALTS[*i].1, 0);
        lay(&mut x, ALTS[j].1, 0);
        let a = ALTS[if ch.flag() { *i } else { j }].1;
        let (o, v) = a[ch.choose(a.len())];
        x[o + ch.choose(v.len())] ^= ch.pick(&[1u8, 0x20, 0x80]);
        let holds = |a| alt_matches(a, &x[..x.len().min(model::HEAD)]);
        (holds(ALTS[*i].1) || holds(ALTS[j].1)).then(|| x.into())
    }));
    // Three at once, the third one not at the start.
    s.push(ds(0, "signature-triples", move |ch| {
        let (i, js) = &PAIRS[ch.choose(PAIRS.len())];
        let far: Vec<usize> = js.iter().copied().filter(|&j| ALTS[j].1[0].0 > 0).collect();
        if far.len() < 2 {
            return None;
        }
        let p = ch.choose(far.len());
        let q = p + 1 + ch.choose((far.len() - p).max(1));
        if q >= far.len() || (!t && (p * 7 + q * 3 + i) % 8 != 0) {
            return None;
        }
        let (a, b, c) = (ALTS[*i].1, ALTS[far[p]].1, ALTS[far[q]].1);
        if !compatible(b, c) {
            return None;
        }
        let mut x = doc(a, 0);
        lay(&mut x, b, 0);
        lay(&mut x, c, 0);
        Some(x.into())
    }));
    s
}

pub fn priority_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let b = c.doc.bytes();
        let got = subject::plain::bytes(&b);
        // By the rule, over the whole table, without any index.
        let head = &b[..b.len().min(model::HEAD)];
        let want = SIGS.iter()
            .filter(|s| s.2.iter().any(|a| alt_matches(a, head)))
            .min_by_key(|s| (std::cmp::Reverse(s.2.iter().map(|a| model::alt_size(a)).max().unwrap()), s.1));
        let Some(want) = want else { return Err("no signature holds: bad case".into()) };
        expect(got, want.0).map_err(|e| {
            let all: Vec<&str> = SIGS.iter().filter(|s| s.2.iter().any(|a| alt_matches(a, head))).map(|s| s.1).collect();
            format!("{e}; signatures that hold: {all:?}")
        })?;
        expect(subject::full::bytes(&b), model::detect(&Doc::from(b.to_vec()), ALL)).map_err(|e| format!("with all features: {e}"))
    })
}
