//! Properties of operations on meshes in memory and of the bit stream: C11, C13, C14, C15, C22, C23, C24.
use crate::codec::{Bits, BitsOut};
use crate::fw::*;
use crate::gen;
use crate::p_round::names;
use crate::rng::{hash_bytes, Rng};
use crate::spec::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use tmf::{CustomData, FloatType as F, IndexType as I, TMFIntegrityStatus, TMFMesh};
fn cap(c: &Case, n: usize) -> usize {
    n.min(I::MAX as usize).min(if c.thorough { 60_000 } else { 20_000 })
}
// ---------------------------------------------------------------- C11
pub const C11: Prop = Prop {
    id: "C11",
    rule: "Meshes with any subset of arrays, index values around the array length, normals of length near 1 and far from it, UVs around the ends of [0,1], NaN and infinite components; the kinds verify reports are compared with a model. Non-trivial: any array present.",
    directed: &[c11_directed, c11_huge],
    run: c11,
};
/// Lengths the limit of 0.001 is not decided for, because of rounding.
fn borderline(n: &V3) -> bool {
    let (x, y, z) = (n.0 as f64, n.1 as f64, n.2 as f64);
    let d = ((x * x + y * y + z * z).sqrt() - 1.0).abs();
    (d - 0.001).abs() < 1e-5
}
fn c11_kinds(s: &TMFIntegrityStatus, out: &mut [bool; 3], depth: usize) {
    use TMFIntegrityStatus::*;
    match s {
        VertexArrayMissing | IndexOutsideVertexArray(..) => out[0] = true,
        NormalArrayMissing | NormalsNotNormalized | IndexOutsideNormalArray(..) => out[1] = true,
        UVOutsideRange(..) | UVArrayMissing | IndexOutsideUVArray(..) => out[2] = true,
        CompositeError(e) if depth < 5 => e.iter().for_each(|e| c11_kinds(e, out, depth + 1)),
        _ => (),
    }
}
fn c11_check(c: &mut Case, s: &Spec) {
    fn bad_index(a: &Option<Vec<I>>, len: Option<usize>) -> bool {
        match (a, len) {
            (None, _) => false,
            (Some(_), None) => true,
            (Some(a), Some(l)) => a.iter().any(|i| *i as u64 >= l as u64),
        }
    }
    let bad_normal = |n: &V3| {
        let (x, y, z) = (n.0 as f64, n.1 as f64, n.2 as f64);
        let d = ((x * x + y * y + z * z).sqrt() - 1.0).abs();
        !(d <= 0.001)
    };
    let bad_uv = |u: &V2| !(u.0 >= 0.0 && u.0 <= 1.0 && u.1 >= 0.0 && u.1 <= 1.0);
    let want = [
        bad_index(&s.vt, s.v.as_ref().map(|a| a.len())),
        bad_index(&s.nt, s.n.as_ref().map(|a| a.len())) || s.n.iter().flatten().any(bad_normal),
        bad_index(&s.ut, s.uv.as_ref().map(|a| a.len())) || s.uv.iter().flatten().any(bad_uv),
    ];
    let m = s.mesh_via(&mut c.rng.clone());
    let Some(got) = c.lib("verify", || m.verify()) else { return };
    let mut kinds = [false; 3];
    if let Err(e) = &got {
        c11_kinds(e, &mut kinds, 0);
        let Some(text) = c.lib("display of the status", || format!("{e}{e:?}")) else { return };
        if text.is_empty() {
            c.violation("display", "a failed verify has no description");
        }
    }
    c.stat(if got.is_ok() { "accepted" } else { "rejected" }, 1);
    c.stat(&format!("kinds wrong: {}{}{}", want[0] as u8, want[1] as u8, want[2] as u8), 1);
    c.nontrivial(&s.hash().to_le_bytes());
    if got.is_ok() != (want == [false; 3]) || kinds != want {
        c.violation("verdict", format!("verify of a mesh ({}) wrong in vertices/normals/UVs {want:?} gave {:?} of kinds {kinds:?}", s.shape(), got.as_ref().err()));
    }
    c.sample(|| format!("{}: {:?}", s.shape(), got.err()));
}
fn c11(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = cap(c, if r.one_in(10) { 20_000 } else { 60 });
    let mut s = Spec::default();
    let sick = r.below(3) != 0;
    let idx = |r: &mut Rng, len: Option<usize>| -> Option<Vec<I>> {
        if r.one_in(4) {
            return None;
        }
        let n = gen::len(r, max);
        let l = len.unwrap_or(if sick { r.us(5) } else { return None });
        let mut a = if l == 0 { if sick && r.one_in(3) { vec![0; n] } else { vec![] } } else { gen::indices(r, n, l as u64) };
        if sick && r.one_in(4) && !a.is_empty() {
            // One wrong index, at an end or anywhere.
            let i = match r.below(3) {
                0 => 0,
                1 => a.len() - 1,
                _ => r.us(a.len()),
            };
            a[i] = match r.below(4) {
                0 => l as u64 as I,
                1 => (l as u64).saturating_add(r.below(300)).min(I::MAX as u64) as I,
                2 => I::MAX,
                _ => gen::index(r),
            };
        }
        Some(a)
    };
    let dlen = |r: &mut Rng| if r.one_in(5) { None } else { Some(gen::len(r, max)) };
    let l = dlen(&mut r);
    s.v = l.map(|n| gen::vertices(&mut r, n));
    s.vt = idx(&mut r, l);
    let l = dlen(&mut r);
    s.n = l.map(|n| gen::units(&mut r, n));
    s.nt = idx(&mut r, l);
    let l = dlen(&mut r);
    s.uv = l.map(|n| gen::uvs(&mut r, n));
    s.ut = idx(&mut r, l);
    if r.one_in(3) {
        let k = r.us(5);
        s.t = Some(gen::tangents(&mut r, k));
        let k = 1 + r.below(9);
        s.tt = Some(gen::indices(&mut r, 6, k));
    }
    if s.v.is_some() && r.one_in(5) {
        // Positions are not judged.
        let v = s.v.as_mut().unwrap();
        if !v.is_empty() {
            let i = r.us(v.len());
            v[i].0 = *r.pick(&[F::NAN, F::INFINITY, 1e30]);
        }
    }
    if sick {
        if let Some(n) = s.n.as_mut().filter(|n| !n.is_empty()) {
            if r.one_in(2) {
                let i = match r.below(3) {
                    0 => 0,
                    1 => n.len() - 1,
                    _ => r.us(n.len()),
                };
                let k = match r.below(7) {
                    0 => 1.0 + r.uni(-0.0009, 0.0009),
                    1 => 1.0 + r.uni(0.0012, 0.01),
                    2 => 1.0 - r.uni(0.0012, 0.01),
                    3 => 0.0,
                    4 => r.log(-30.0, 30.0),
                    5 => f64::NAN,
                    _ => *r.pick(&[f64::INFINITY, -1.0, 2.0, 0.5]),
                } as F;
                match r.below(3) {
                    0 => n[i] = (n[i].0 * k, n[i].1 * k, n[i].2 * k),
                    1 => n[i].2 *= k,
                    _ => {
                        let v = *r.pick(&[F::NAN, F::INFINITY, -F::INFINITY, 0.0, 1e-30, 1e30]);
                        match r.below(3) {
                            0 => n[i].0 = v,
                            1 => n[i].1 = v,
                            _ => n[i].2 = v,
                        }
                    }
                }
            }
        }
        if let Some(u) = s.uv.as_mut().filter(|u| !u.is_empty()) {
            if r.one_in(2) {
                let i = match r.below(3) {
                    0 => 0,
                    1 => u.len() - 1,
                    _ => r.us(u.len()),
                };
                let eps = F::EPSILON;
                let v = match r.below(8) {
                    0 => 1.0 + eps,
                    1 => -F::MIN_POSITIVE,
                    2 => F::NAN,
                    3 => F::INFINITY,
                    4 => -F::INFINITY,
                    5 => 1.0 + r.log(-6.0, 3.0) as F,
                    6 => -(r.log(-30.0, 3.0) as F),
                    _ => -0.0,
                };
                if r.bool() {
                    u[i].0 = v
                } else {
                    u[i].1 = v
                }
            }
        }
    }
    if s.n.iter().flatten().any(borderline) {
        c.stat("borderline, skipped", 1);
        return;
    }
    c11_check(c, &s);
}
fn c11_directed(c: &mut Case) {
    // Every presence combination, with each kind wrong in each way.
    let idx: [Option<Vec<I>>; 5] = [None, Some(vec![]), Some(vec![0, 1, 1]), Some(vec![0, 1, 2]), Some(vec![2])];
    let v = [None, Some(vec![]), Some(vec![(0.0, 0.0, 0.0), (1.0, 1e17, -4.0)])];
    let n = [None, Some(vec![]), Some(vec![(0.0, 0.0, 1.0), (1.0, 0.0, 0.0)]), Some(vec![(0.0, 0.0, 1.0), (1.0, 0.5, 0.0)]), Some(vec![(0.0, 0.0, 0.5), (1.0, 0.0, 0.0)]), Some(vec![(F::NAN, 0.0, 1.0), (0.0, 0.0, 1.0)])];
    let u = [None, Some(vec![]), Some(vec![(0.0, 1.0), (1.0, 0.0)]), Some(vec![(0.0, 1.5), (1.0, 0.0)]), Some(vec![(0.0, 1.0), (-0.5, 0.0)]), Some(vec![(0.0, F::NAN), (0.5, 0.0)])];
    let mut r = c.rng.clone();
    for a in 0..v.len() * idx.len() {
        for b in 0..n.len() * idx.len() {
            for d in 0..u.len() * idx.len() {
                if !r.one_in(if c.thorough { 1 } else { 4 }) {
                    continue;
                }
                let s = Spec {
                    v: v[a % v.len()].clone(),
                    vt: idx[a / v.len()].clone(),
                    n: n[b % n.len()].clone(),
                    nt: idx[b / n.len()].clone(),
                    uv: u[d % u.len()].clone(),
                    ut: idx[d / u.len()].clone(),
                    ..Spec::default()
                };
                c11_check(c, &s);
            }
        }
    }
}
/// Data arrays around and above the number of entries which 16 bits can count.
fn c11_huge(c: &mut Case) {
    let mut r = c.rng.clone();
    let sizes: &[usize] = if c.thorough { &[255, 256, 257, 65534, 65535, 65536, 65537, 131_071, 131_072, 131_077, 1_048_577] } else { &[256, 65535, 65536, 65537, 131_072, 131_077] };
    for n in sizes.iter().copied() {
        for attribute in 0..3 {
            for wrong in 0..4 {
                let mut a: Vec<I> = (0..300).map(|_| r.below((n as u64).min((I::MAX as u64).saturating_add(1))) as I).collect();
                a.extend([0, (n as u64 - 1).min(I::MAX as u64) as I]);
                let at = r.us(a.len());
                match wrong {
                    0 => (),
                    1 => a[at] = (n as u64).min(I::MAX as u64) as I,
                    2 => a[at] = (n as u64 + 65536).min(I::MAX as u64) as I,
                    _ => a[at] = I::MAX,
                }
                let mut s = Spec::default();
                match attribute {
                    0 => (s.v, s.vt) = (Some(vec![(1.0, 2.0, 3.0); n]), Some(a)),
                    1 => (s.n, s.nt) = (Some(vec![(0.0, 1.0, 0.0); n]), Some(a)),
                    _ => (s.uv, s.ut) = (Some(vec![(0.25, 1.0); n]), Some(a)),
                }
                c11_check(c, &s);
            }
        }
    }
}
// ---------------------------------------------------------------- C13
pub const C13: Prop = Prop {
    id: "C13",
    rule: "Meshes with in-range index arrays of equal length over any subset of attributes (empty and unused data included, duplicate values, index arrays equal or different, huge and empty), unified; corners, combinations, idempotence and untouched parts are compared bit by bit. Non-trivial: at least two attributes took part.",
    directed: &[|c| c13_huge(c, 1), |c| c13_huge(c, 2), |c| c13_huge(c, 0), |c| c13_huge(c, 0), |c| c13_huge(c, 1)],
    run: c13,
};
fn v3b(a: V3) -> [u64; 4] {
    [(a.0 as f64).to_bits(), (a.1 as f64).to_bits(), (a.2 as f64).to_bits(), 0]
}
/// Bits of the values each corner refers to.
pub fn corners(s: &Spec) -> [Option<Vec<[u64; 4]>>; 4] {
    fn get<T: Copy>(d: &Option<Vec<T>>, i: &Option<Vec<I>>, f: impl Fn(T) -> [u64; 4]) -> Option<Vec<[u64; 4]>> {
        let (d, i) = (d.as_ref()?, i.as_ref()?);
        // Out of range is told apart from every value.
        Some(i.iter().map(|i| d.get(*i as usize).map_or([u64::MAX; 4], |v| f(*v))).collect())
    }
    [
        get(&s.v, &s.vt, v3b),
        get(&s.n, &s.nt, v3b),
        get(&s.uv, &s.ut, |a| [(a.0 as f64).to_bits(), (a.1 as f64).to_bits(), 0, 0]),
        get(&s.t, &s.tt, |a| {
            let mut b = v3b(a.0);
            b[3] = (a.1 as f64).to_bits();
            b
        }),
    ]
}
const KINDS: [&str; 4] = ["vertex", "normal", "UV", "tangent"];
pub fn dlens(s: &Spec) -> [Option<usize>; 4] {
    [s.v.as_ref().map(|a| a.len()), s.n.as_ref().map(|a| a.len()), s.uv.as_ref().map(|a| a.len()), s.t.as_ref().map(|a| a.len())]
}
pub fn idxs(s: &Spec) -> [&Option<Vec<I>>; 4] {
    [&s.vt, &s.nt, &s.ut, &s.tt]
}
/// Data and indices of one kind only.
fn only(s: &Spec, k: usize) -> Spec {
    let mut o = Spec::default();
    match k {
        0 => (o.v, o.vt) = (s.v.clone(), s.vt.clone()),
        1 => (o.n, o.nt) = (s.n.clone(), s.nt.clone()),
        2 => (o.uv, o.ut) = (s.uv.clone(), s.ut.clone()),
        _ => (o.t, o.tt) = (s.t.clone(), s.tt.clone()),
    }
    o
}
/// Mesh with in-range indices; of equal length if asked.
fn indexed(r: &mut Rng, max: usize, equal: bool) -> Spec {
    let mut s = Spec::default();
    let n = gen::len(r, max);
    let tri = |r: &mut Rng| if equal { n } else { gen::len(r, max) };
    let few = r.one_in(3);
    let same_len = r.one_in(4);
    let common = 1 + gen::len(r, if few { 6 } else { max - 1 });
    let mut shared: Option<Vec<I>> = None;
    let make = |r: &mut Rng, shared: &mut Option<Vec<I>>| -> (Option<usize>, Option<Vec<I>>) {
        let l = match r.below(10) {
            0 => None,
            1 => Some(0),
            _ if same_len => Some(common),
            _ => Some(1 + gen::len(r, if few { 6 } else { max - 1 })),
        };
        let k = tri(r);
        let i = match l {
            _ if r.one_in(6) => None,
            Some(l) if l > 0 => {
                let mut a = match shared {
                    Some(a) if a.iter().all(|i| (*i as usize) < l) && r.bool() => a.clone(),
                    _ => gen::indices(r, k, l as u64),
                };
                if r.one_in(8) && !a.is_empty() {
                    // Differs at one place only.
                    let i = if r.bool() { a.len() - 1 } else { r.us(a.len()) };
                    a[i] = r.below(l as u64) as I;
                }
                if shared.is_none() {
                    *shared = Some(a.clone());
                }
                Some(a)
            }
            _ if k == 0 => Some(vec![]),
            _ => None,
        };
        (l, i)
    };
    // Few different values, so that equal values under different indices occur.
    let dup = r.one_in(4);
    let (l, i) = make(r, &mut shared);
    s.v = l.map(|n| if dup { gen::vec_of(r, n, |r| (r.below(2) as F, 0.0, -0.0)) } else { gen::vertices(r, n) });
    s.vt = i;
    let (l, i) = make(r, &mut shared);
    s.n = l.map(|n| gen::vec_of(r, n, |r| if dup { (0.0, r.below(2) as F, 1.0) } else { gen::unit(r) }));
    s.nt = i;
    let (l, i) = make(r, &mut shared);
    s.uv = l.map(|n| gen::vec_of(r, n, |r| if dup { (r.below(2) as F, 0.5) } else { gen::uv(r) }));
    s.ut = i;
    if r.bool() {
        let (l, i) = make(r, &mut shared);
        s.t = l.map(|n| gen::tangents(r, n));
        s.tt = i;
    }
    if r.one_in(3) {
        s.custom = gen::customs(r, 50);
    }
    if r.one_in(12) {
        // Values need not be sensible.
        if let Some(v) = s.v.as_mut().filter(|v| !v.is_empty()) {
            v[0] = (F::NAN, F::INFINITY, -0.0);
        }
    }
    s
}
/// Mesh with arrays of over `n` entries (if indices go that far) and index combinations which are easy to take for each other.
fn huge(r: &mut Rng, n: usize) -> Spec {
    let top = I::MAX as usize;
    let lens: Vec<usize> = (0..4).map(|k| (n + 17 * k).min(top)).collect();
    let mut combos: Vec<[usize; 4]> = vec![];
    let steps = [1usize, 2, 31, 33, 255, 256, 257, 1000, 4096, 65535, 65536, 65537];
    while combos.len() < n + n / 16 {
        let a: [usize; 4] = std::array::from_fn(|k| if r.one_in(8) { lens[k] - 1 - r.us(lens[k].min(9)) } else { r.us(lens[k]) });
        combos.push(a);
        for _ in 0..r.us(4) {
            let (i, j) = (r.us(4), r.us(4));
            let (d, e) = (*r.pick(&steps), *r.pick(&steps));
            let mut b = *r.pick(&[a, combos[combos.len() - 1], combos[0]]);
            match r.below(6) {
                0 => b.swap(i, j),
                1 => (b[i], b[j]) = (b[i].wrapping_add(d), b[j].wrapping_sub(e)),
                2 => (b[i], b[j]) = (b[i].wrapping_add(1), b[j].wrapping_sub(e)),
                3 => (b[i], b[j]) = (b[i] ^ d, b[j] ^ d),
                4 => b[i] = b[i].wrapping_add(d),
                _ => b[i] = b[i].wrapping_sub(d),
            }
            if (0..4).all(|k| b[k] < lens[k]) {
                combos.push(b);
            }
        }
    }
    // Every entry in use, from the last one.
    combos.extend((0..n.min(top)).rev().map(|i| [i; 4]));
    let ind = |k: usize| Some(combos.iter().map(|a| a[k] as I).collect::<Vec<I>>());
    Spec {
        v: Some(gen::vertices(r, lens[0])),
        vt: ind(0),
        n: Some((0..lens[1]).map(|_| gen::unit(r)).collect()),
        nt: ind(1),
        uv: Some((0..lens[2]).map(|_| gen::uv(r)).collect()),
        ut: ind(2),
        t: Some((0..lens[3]).map(|_| gen::tangent(r)).collect()),
        tt: ind(3),
        ..Spec::default()
    }
}
/// Sizes of the huge meshes: the last case is long.
fn huge_of(c: &Case, k: u32) -> usize {
    match k {
        0 => 300,
        1 => 66_000,
        _ if c.thorough => 1_100_000,
        _ => 140_000,
    }
}
/// A huge mesh, with fewer attributes at times.
fn huge_some(c: &mut Case, k: u32) -> Spec {
    let mut r = c.rng.clone();
    let n = huge_of(c, k);
    let mut s = huge(&mut r, n);
    match r.below(4) {
        0 => (s.n, s.nt, s.t, s.tt) = (None, None, None, None),
        1 => (s.uv, s.ut) = (None, None),
        2 => (s.t, s.tt) = (None, None),
        _ => (),
    }
    s
}
fn same_bits(a: &Spec, b: &Spec) -> Option<String> {
    diff(a, b)
}
fn c13(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = cap(c, if r.one_in(10) { 60_000 } else { 300 });
    let s = indexed(&mut r, max, true);
    c13_check(c, s);
}
fn c13_huge(c: &mut Case, k: u32) {
    let s = huge_some(c, k);
    c.stat("huge_meshes", 1);
    c13_check(c, s);
}
fn c13_check(c: &mut Case, s: Spec) {
    let mut m = s.mesh_via(&mut c.rng.clone());
    let ns = names(&s);
    let before = Spec::of_with(&s.mesh(), &ns);
    let part: Vec<usize> = (0..4).filter(|k| dlens(&s)[*k].is_some_and(|l| l > 0) && idxs(&s)[*k].is_some()).collect();
    if let Err(LibPanic(e)) = lib(|| m.unify_index_data()) {
        // Only a mesh which the index type is too short for may be refused, and then stays what it was.
        let i0 = idxs(&s);
        let n = part.first().map_or(0, |k| i0[*k].as_ref().unwrap().len());
        let combos: std::collections::HashSet<Vec<I>> = (0..n).map(|x| part.iter().map(|k| i0[*k].as_ref().unwrap()[x]).collect()).collect();
        if combos.len() as u128 <= I::MAX as u128 + 1 {
            c.violation("panic:unify_index_data", format!("unify_index_data panicked: {e} ({})", s.shape()));
        } else if let Some(d) = same_bits(&before, &Spec::of_with(&m, &ns)) {
            c.violation("refused", format!("unify_index_data refused a mesh with {} combinations and changed it: {d}", combos.len()));
        } else {
            c.nontrivial(&s.hash().to_le_bytes());
            c.stat("too_many_combinations_refused", 1);
        }
        return;
    }
    let got = Spec::of_with(&m, &ns);
    if part.len() > 1 {
        c.nontrivial(&s.hash().to_le_bytes());
    }
    c.stat(&format!("attributes taking part: {}", part.len()), 1);
    let (c0, c1) = (corners(&before), corners(&got));
    for k in 0..4 {
        if part.contains(&k) {
            if c0[k] != c1[k] {
                let at = c0[k].iter().flatten().zip(c1[k].iter().flatten()).position(|(a, b)| a != b);
                c.violation("corner", format!("unify_index_data changed the {} of corner {at:?} ({} became {})", KINDS[k], s.shape(), got.shape()));
                return;
            }
            c.stat("corners_compared", c0[k].as_ref().unwrap().len() as u64);
        } else if let Some(d) = same_bits(&only(&before, k), &only(&got, k)) {
            c.violation("untouched", format!("unify_index_data changed {} data which takes no part: {d} ({})", KINDS[k], s.shape()));
            return;
        }
    }
    let (mut a, mut b) = (vec![], vec![]);
    Spec { custom: before.custom.clone(), ..Spec::default() }.bytes(&mut a);
    Spec { custom: got.custom.clone(), ..Spec::default() }.bytes(&mut b);
    if a != b {
        c.violation("custom", "unify_index_data changed custom data");
    }
    if let Some(k) = part.first() {
        for j in &part[1..] {
            if idxs(&got)[*k] != idxs(&got)[*j] {
                c.violation("unified", format!("after unify_index_data {} and {} indices differ ({})", KINDS[*k], KINDS[*j], s.shape()));
                return;
            }
        }
        let i0 = idxs(&s);
        if part.iter().any(|j| i0[*j] != i0[*k]) {
            // Differed before: every combination once, and nothing else.
            let n = i0[*k].as_ref().unwrap().len();
            let combos: std::collections::HashSet<Vec<I>> = (0..n).map(|x| part.iter().map(|k| i0[*k].as_ref().unwrap()[x]).collect()).collect();
            for k in &part {
                if dlens(&got)[*k] != Some(combos.len()) {
                    c.violation("combinations", format!("{} combinations of indices became {:?} {} entries ({})", combos.len(), dlens(&got)[*k], KINDS[*k], s.shape()));
                    return;
                }
            }
            c.stat("meshes_whose_indices_differed", 1);
            c.stat("combinations", combos.len() as u64);
        }
    }
    let h = got.hash();
    if c.lib("second unify_index_data", || m.unify_index_data()).is_none() {
        return;
    }
    if Spec::of_with(&m, &ns).hash() != h {
        c.violation("idempotent", format!("a second unify_index_data changed the mesh ({})", s.shape()));
    }
    c.sample(|| format!("{} became {}", s.shape(), got.shape()));
}
// ---------------------------------------------------------------- C14
pub const C14: Prop = Prop {
    id: "C14",
    rule: "Meshes with in-range index arrays of any lengths, unused and repeated entries, data without indices and the other way round, reordered and compared bit by bit with a model. Non-trivial: at least one attribute with indices.",
    directed: &[|c| c14_huge(c, 1), |c| c14_huge(c, 2), |c| c14_huge(c, 0)],
    run: c14,
};
fn c14(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = cap(c, if r.one_in(10) { 60_000 } else { 300 });
    let mut s = indexed(&mut r, max, false);
    // Arrays without their counterpart.
    if s.n.is_none() && r.bool() {
        s.nt = Some(gen::indices(&mut r, 12, 1000));
    }
    if s.uv.is_none() && r.bool() {
        s.ut = Some(gen::indices(&mut r, 12, 1000));
    }
    c14_check(c, s);
}
fn c14_huge(c: &mut Case, k: u32) {
    let s = huge_some(c, k);
    c.stat("huge_meshes", 1);
    c14_check(c, s);
}
fn c14_check(c: &mut Case, s: Spec) {
    let mut m = s.mesh_via(&mut c.rng.clone());
    if c.lib("reorder_data", || m.reorder_data()).is_none() {
        return;
    }
    let ns = names(&s);
    let got = Spec::of_with(&m, &ns);
    // Model.
    fn renumber<T: Copy>(d: &mut Option<Vec<T>>, i: &mut Option<Vec<I>>) -> u64 {
        let (Some(d), Some(i)) = (d, i) else { return 0 };
        if i.is_empty() || d.is_empty() {
            return 0;
        }
        let mut map: HashMap<I, usize> = HashMap::new();
        let mut out = vec![];
        for x in i.iter_mut() {
            let next = map.len();
            let at = *map.entry(*x).or_insert(next);
            if at == next {
                out.push(d[*x as usize]);
            }
            *x = at as I;
        }
        *d = out;
        i.len() as u64
    }
    let mut want = Spec::of_with(&s.mesh(), &ns);
    let n = renumber(&mut want.v, &mut want.vt) + renumber(&mut want.n, &mut want.nt) + renumber(&mut want.uv, &mut want.ut);
    c.stat("indices_renumbered", n);
    if n > 0 {
        c.nontrivial(&s.hash().to_le_bytes());
    }
    if let Some(d) = diff(&want, &got) {
        c.violation("reorder", format!("reorder_data of {}: expected and actual result differ: {d}", s.shape()));
        return;
    }
    if c.lib("second reorder_data", || m.reorder_data()).is_none() {
        return;
    }
    if let Some(d) = diff(&got, &Spec::of_with(&m, &ns)) {
        c.violation("idempotent", format!("a second reorder_data changed the mesh: {d}"));
    }
    c.sample(|| format!("{} became {}", s.shape(), got.shape()));
}
// ---------------------------------------------------------------- C15
pub const C15: Prop = Prop {
    id: "C15",
    rule: "Any data and index arrays, out-of-range indices at any position included, each buffer compared bit by bit with a model. Non-trivial: at least one index array with entries.",
    directed: &[|c| c15_huge(c, 1), |c| c15_huge(c, 2), |c| c15_huge(c, 0)],
    run: c15,
};
fn c15(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = cap(c, if r.one_in(10) { 20_000 } else { 100 });
    let mut s = indexed(&mut r, max, false);
    for k in 0..3 {
        let l = dlens(&s)[k];
        let a = match k {
            0 => &mut s.vt,
            1 => &mut s.nt,
            _ => &mut s.ut,
        };
        match (a, l) {
            (Some(a), _) if !a.is_empty() && r.one_in(3) => {
                let i = match r.below(3) {
                    0 => 0,
                    1 => a.len() - 1,
                    _ => r.us(a.len()),
                };
                a[i] = match r.below(3) {
                    0 => l.unwrap_or(0) as I,
                    1 => I::MAX,
                    _ => gen::index(&mut r),
                };
            }
            (a @ None, _) if r.one_in(3) => {
                let n = r.us(9);
                *a = Some(gen::indices(&mut r, n, 10));
            }
            _ => (),
        }
    }
    c15_check(c, s);
}
fn c15_huge(c: &mut Case, k: u32) {
    let mut s = huge_some(c, k);
    c.stat("huge_meshes", 1);
    c15_check(c, s.clone());
    // One index which is out of range, next to the end of the array or as far as indices go.
    let mut r = c.rng.clone();
    let l = s.v.as_ref().unwrap().len();
    let a = s.vt.as_mut().unwrap();
    let i = r.us(a.len());
    for bad in [l as u64, l as u64 + 1, 1 << 16, (1 << 16) + l as u64, 1 << 31, 1 << 32, (1 << 32) + 1, I::MAX as u64] {
        if bad >= l as u64 && bad <= I::MAX as u64 {
            s.vt.as_mut().unwrap()[i] = bad as I;
            c15_check(c, s.clone());
        }
    }
}
fn c15_check(c: &mut Case, s: Spec) {
    let m = s.mesh_via(&mut c.rng.clone());
    let h = s.hash();
    if idxs(&s)[..3].iter().any(|i| i.as_ref().is_some_and(|i| !i.is_empty())) {
        c.nontrivial(&h.to_le_bytes());
    }
    fn want<T: Copy>(d: &Option<Vec<T>>, i: &Option<Vec<I>>) -> Option<Vec<T>> {
        let (d, i) = (d.as_ref()?, i.as_ref()?);
        i.iter().map(|i| d.get(*i as usize).copied()).collect()
    }
    let eq = |a: Option<Vec<V3>>, b: Option<&[V3]>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| v3b(*a) == v3b(*b)),
        _ => false,
    };
    let Some(g) = c.lib("get_vertex_buffer", || m.get_vertex_buffer()) else { return };
    c.stat(if g.is_some() { "buffers" } else { "no_buffer" }, 1);
    if !eq(want(&s.v, &s.vt), g.as_deref()) {
        c.violation("vertex", format!("get_vertex_buffer of {} is wrong (length {:?})", s.shape(), g.map(|g| g.len())));
    }
    let Some(g) = c.lib("get_normal_buffer", || m.get_normal_buffer()) else { return };
    c.stat(if g.is_some() { "buffers" } else { "no_buffer" }, 1);
    if !eq(want(&s.n, &s.nt), g.as_deref()) {
        c.violation("normal", format!("get_normal_buffer of {} is wrong (length {:?})", s.shape(), g.map(|g| g.len())));
    }
    let Some(g) = c.lib("get_uv_buffer", || m.get_uv_buffer()) else { return };
    c.stat(if g.is_some() { "buffers" } else { "no_buffer" }, 1);
    let pad = |a: Vec<V2>| a.into_iter().map(|a| (a.0, a.1, 0.0)).collect::<Vec<V3>>();
    if !eq(want(&s.uv, &s.ut).map(pad), g.as_ref().map(|g| pad(g.to_vec())).as_deref()) {
        c.violation("uv", format!("get_uv_buffer of {} is wrong (length {:?})", s.shape(), g.map(|g| g.len())));
    }
    if Spec::of_with(&m, &names(&s)).hash() != Spec::of_with(&s.mesh(), &names(&s)).hash() {
        c.violation("pure", "getting buffers changed the mesh");
    }
    c.sample(|| s.shape());
}
// ---------------------------------------------------------------- C22
pub const C22: Prop = Prop {
    id: "C22",
    rule: "Sequences of up to 3000 values of any widths from 0 to 63 bits written, the bytes compared with a bit vector model, and read back with any grouping of reads from sources of any chunking, past the end too. Non-trivial: at least one value of non-zero width.",
    directed: &[c22_widths],
    run: c22,
};
struct Chunks<'a> {
    b: &'a [u8],
    /// Longest read; 0: random.
    n: usize,
    r: Rng,
}
impl Read for Chunks<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.n == 0 { 1 + self.r.us(9) } else { self.n };
        let n = n.min(out.len()).min(self.b.len());
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
/// Takes a few bytes a time.
struct Sips<'a>(&'a mut Vec<u8>, usize, Rng);
impl Write for Sips<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = if self.1 == 0 { 1 + self.2.us(20) } else { self.1 }.min(b.len());
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn width(r: &mut Rng, style: u64) -> u8 {
    match style {
        0 => r.below(64) as u8,
        1 => 1 + r.below(4) as u8,
        2 => *r.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 20, 21, 22, 24, 31, 32, 33, 42, 43, 48, 55, 56, 57, 61, 62, 63]),
        3 => 8 * r.below(8) as u8,
        s => (s - 4) as u8 % 64,
    }
}
fn c22_roundtrip(c: &mut Case, ops: &[(u8, u64)], style: u64, reads: usize) {
    use tmf::unaligned_rw::{UnalignedRWMode as M, UnalignedReader, UnalignedWriter};
    let mut r = c.rng.clone();
    let mut want = BitsOut::default();
    let mut bits = 0usize;
    for (w, v) in ops {
        want.put(*w, *v);
        bits += *w as usize;
    }
    let mut got = vec![];
    let sips = *r.pick(&[0usize, 1, 3, usize::MAX]);
    let rr = r.clone();
    let ok = c.lib("writing bits", || {
        let mut w = UnalignedWriter::new(Sips(&mut got, sips, rr));
        for (n, (k, v)) in ops.iter().enumerate() {
            if *k == 1 && n % 2 == 0 {
                w.write_bit(*v != 0)?;
            } else {
                w.write_unaligned(M::precision_bits(*k), *v)?;
            }
        }
        drop(w);
        Ok::<_, std::io::Error>(())
    });
    match ok {
        None => return,
        Some(Err(e)) => return c.violation("write-error", format!("writing bits failed: {e}")),
        _ => (),
    }
    if bits > 0 {
        c.nontrivial(&hash_bytes(ops.len() as u64, &want.b).to_le_bytes());
    }
    c.stat("values_written", ops.len() as u64);
    if got != want.b {
        let at = got.iter().zip(&want.b).position(|(a, b)| a != b);
        return c.violation("packing", format!("{} values of {bits} bits pack to {} bytes, expected {}; first difference at {at:?}", ops.len(), got.len(), want.b.len()));
    }
    // As written, then grouped at will.
    for round in 0..reads {
        let chunk = *r.pick(&[0usize, 1, 2, 3, 5, 7, 8, 9, 16, usize::MAX]);
        let src = Chunks { b: &got, n: chunk, r: r.clone() };
        let mut rd = UnalignedReader::new(src);
        let mut model = Bits::new(&got);
        let mut left = got.len() * 8;
        let mut log: Vec<String> = vec![];
        let mut i = 0;
        loop {
            // The next read: widths of its values.
            let (how, ws): (u8, Vec<u8>) = if round == 0 {
                if i >= ops.len() {
                    break;
                }
                let w = ops[i].0;
                let eq = |k: usize| i + k <= ops.len() && ops[i..i + k].iter().all(|o| o.0 == w);
                let x = match r.below(6) {
                    0 if eq(3) => (3, vec![w; 3]),
                    1 | 2 if eq(2) => (2, vec![w; 2]),
                    3 | 4 if i + 2 <= ops.len() => (4, vec![w, ops[i + 1].0]),
                    5 if w == 1 => (1, vec![1]),
                    _ => (0, vec![w]),
                };
                i += x.1.len();
                x
            } else {
                let w = width(&mut r, style);
                match r.below(5) {
                    0 => (3, vec![w; 3]),
                    1 => (2, vec![w; 2]),
                    2 => (4, vec![w, width(&mut r, style)]),
                    3 => (1, vec![1]),
                    _ => (0, vec![w]),
                }
            };
            let need: usize = ws.iter().map(|w| *w as usize).sum();
            let m = M::precision_bits;
            let w = ws[0];
            let res = c.lib("reading bits", || {
                Ok::<Vec<u64>, std::io::Error>(match how {
                    0 => vec![rd.read_unaligned(m(w))?],
                    1 => vec![rd.read_bit()? as u64],
                    2 => {
                        let x = rd.read2_unaligned(m(w))?;
                        vec![x.0, x.1]
                    }
                    3 => {
                        let x = rd.read3_unaligned(m(w))?;
                        vec![x.0, x.1, x.2]
                    }
                    _ => {
                        let x = rd.read_pair_unaligned(m(w), m(ws[1]))?;
                        vec![x.0, x.1]
                    }
                })
            });
            let Some(res) = res else { return };
            if log.len() < 12 {
                log.push(format!("{how}:{ws:?}"));
            }
            c.stat(["reads", "bit_reads", "read2", "read3", "read_pair"][how as usize], 1);
            if need > left {
                if res.is_ok() {
                    c.violation("past-end", format!("a read of {need} bits succeeded with {left} left (reads {log:?}, chunks of {chunk})"));
                }
                c.stat("reads_past_the_end", 1);
                break;
            }
            left -= need;
            let want: Vec<u64> = ws.iter().map(|w| model.get(*w).expect("model")).collect();
            match res {
                Ok(g) if g == want => (),
                g => {
                    return c.violation("reading", format!("read {how} of widths {ws:?} gave {g:?}, expected {want:?} ({left} bits left, reads {log:?}, chunks of {chunk})"));
                }
            }
            if round > 0 && left == 0 && need == 0 {
                break;
            }
        }
        if round == 0 {
            // Past the end, the bits which fill the last byte aside.
            let pad = (got.len() * 8 - bits) as u8;
            let Some(x) = c.lib("reading bits", || rd.read_unaligned(M::precision_bits(pad + 1))) else { return };
            if x.is_ok() {
                c.violation("past-end", format!("reading {} bits after the last of {bits} succeeded (chunks of {chunk})", pad + 1));
            }
            let Some(x) = c.lib("reading bits", || rd.read_bit().and_then(|_| rd.read_unaligned(M::precision_bits(63)))) else { return };
            if x.is_ok() {
                c.violation("past-end", "reading on after an error at the end succeeded");
            }
        }
    }
    c.sample(|| format!("{} values, {bits} bits, widths {:?}..", ops.len(), ops.iter().take(8).map(|o| o.0).collect::<Vec<_>>()));
}
fn value(r: &mut Rng, w: u8) -> u64 {
    let m = (1u64 << w) - 1;
    match r.below(6) {
        0 => m,
        1 => 0,
        2 => r.u64() & r.u64() & r.u64() & m,
        3 => (1u64 << r.below(64)) & m,
        _ => r.u64() & m,
    }
}
fn c22(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = match r.below(8) {
        0 => r.us(3),
        1 => r.us(3000),
        2 => 8192 / 8 + r.us(20),
        _ => r.us(60),
    };
    let style = r.below(100);
    let runs = r.bool();
    let mut ops = vec![];
    while ops.len() < n {
        let w = width(&mut r, style);
        let k = if runs { 1 + r.us(5) } else { 1 };
        for _ in 0..k {
            ops.push((w, value(&mut r, w)));
        }
    }
    c.rng = r;
    c22_roundtrip(c, &ops, style, 3);
}
fn c22_widths(c: &mut Case) {
    // Every pair of widths at every offset within a byte.
    for a in 0..64u8 {
        for b in 0..64u8 {
            let mut r = c.rng.clone();
            let mut ops = vec![(r.below(8) as u8, 0)];
            for _ in 0..4 {
                ops.push((a, value(&mut r, a)));
                ops.push((a, value(&mut r, a)));
                ops.push((b, value(&mut r, b)));
            }
            c.rng = r;
            c22_roundtrip(c, &ops, 4 + b as u64, 2);
        }
    }
}
// ---------------------------------------------------------------- C23
pub const C23: Prop = Prop {
    id: "C23",
    rule: "Random histories of set, append, add, look up, clone, normalize and get calls on up to four meshes cloned from one another, each compared after every call with a model of independent named arrays. Non-trivial: at least five calls which change a mesh.",
    directed: &[],
    run: c23,
};
/// Every array, custom arrays with their names in the order of addition.
fn c23_compare(c: &mut Case, what: &str, m: &TMFMesh, s: &Spec, probe: &[String]) -> bool {
    let got = Spec::of(m);
    let model = Spec { custom: vec![], ..s.clone() };
    if let Some(d) = diff(&model, &got) {
        c.violation("arrays", format!("after {what}, compared with the model: {d}"));
        return false;
    }
    for n in probe {
        let want = s.custom.iter().find(|(k, _)| k == n).map(|x| &x.1);
        let Some(got) = c.lib("lookup_custom_data", || m.lookup_custom_data(n)) else { return false };
        let bytes = |d: Option<&CustomData>| {
            d.map(|d| {
                let mut b = vec![];
                custom_bytes(&mut b, d);
                b
            })
        };
        c.stat(if want.is_some() { "lookups_of_present_names" } else { "lookups_of_absent_names" }, 1);
        if bytes(want) != bytes(got) {
            c.violation("lookup", format!("after {what}, looking up {n:?} gives {}, expected {}", got.map_or("nothing", custom_kind), want.map_or("nothing", custom_kind)));
            return false;
        }
    }
    true
}
fn c23(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut pool: Vec<(TMFMesh, Spec)> = vec![(if r.bool() { TMFMesh::empty() } else { TMFMesh::default() }, Spec::default())];
    let steps = 5 + r.us(if c.thorough { 80 } else { 35 });
    let mut names: Vec<String> = vec!["a".into(), "ab".into(), "absent".into(), String::new(), "x".repeat(255), "x".repeat(256), "x".repeat(254)];
    let mut hist = String::new();
    let mut changes = 0;
    let big = r.one_in(20);
    for _ in 0..steps {
        let i = r.us(pool.len());
        let n = if big { gen::len(&mut r, 2000) } else { r.us(6) };
        let op = r.below(26);
        let what;
        macro_rules! arr {
            ($field:ident, $set:ident, $append:ident, $make:expr) => {{
                let a = $make;
                let (m, s) = &mut pool[i];
                if op % 2 == 0 {
                    what = format!(concat!(stringify!($set), "({} entries) on mesh {}"), a.len(), i);
                    let Some(old) = c.lib(stringify!($set), || m.$set(a.clone())) else { return };
                    let prev = s.$field.replace(a);
                    let (x, y) = (Spec { $field: prev, ..Spec::default() }, Spec { $field: old, ..Spec::default() });
                    if let Some(d) = diff(&x, &y) {
                        c.violation("previous", format!("{what}: the array returned is not the previous one: {d}"));
                        return;
                    }
                } else {
                    what = format!(concat!(stringify!($append), "({} entries) on mesh {}"), a.len(), i);
                    if c.lib(stringify!($append), || m.$append(&a)).is_none() {
                        return;
                    }
                    match &mut s.$field {
                        Some(x) => x.extend(a),
                        None => s.$field = Some(a),
                    }
                }
                changes += 1;
            }};
        }
        match op {
            0 | 1 => arr!(v, set_vertices, append_vertices, gen::vertices(&mut r, n)),
            2 | 3 => arr!(n, set_normals, append_normals, gen::units(&mut r, n)),
            4 | 5 => arr!(uv, set_uvs, append_uvs, gen::uvs(&mut r, n)),
            6 | 7 => arr!(t, set_tangents, append_tangents, gen::tangents(&mut r, n)),
            8 | 9 => arr!(vt, set_vertex_triangles, append_vertex_triangles, gen::vec_of(&mut r, n, gen::index)),
            10 | 11 => arr!(nt, set_normal_triangles, append_normal_triangles, gen::vec_of(&mut r, n, gen::index)),
            12 | 13 => arr!(ut, set_uv_triangles, append_uv_triangles, gen::vec_of(&mut r, n, gen::index)),
            14 | 15 => arr!(tt, set_tangent_triangles, append_tangent_triangles, gen::vec_of(&mut r, n, gen::index)),
            16..=19 => {
                let name = match r.below(8) {
                    0..=2 => r.pick(&names).clone(),
                    3 => "y".repeat(250 + r.us(10)),
                    4 => {
                        // Shares a beginning with another name.
                        let mut s = r.pick(&names).clone();
                        s.push(*r.pick(&['\0', 'a', ' ', 'ż']));
                        s
                    }
                    _ => gen::custom_name(&mut r),
                };
                let d = gen::custom(&mut r, n);
                what = format!("adding custom data {name:?} to mesh {i}");
                let (m, s) = &mut pool[i];
                let Some(res) = c.lib("add_custom_data", || m.add_custom_data(d.clone(), &name)) else { return };
                let ok = (1..=255).contains(&name.len());
                if res.is_ok() != ok {
                    c.violation("name", format!("custom data with a name of {} bytes: accepted is {}", name.len(), res.is_ok()));
                    return;
                }
                if ok {
                    s.custom.push((name.clone(), d));
                    changes += 1;
                }
                if !names.contains(&name) && names.len() < 30 {
                    names.push(name);
                }
            }
            20 | 21 => {
                if pool.len() < 4 {
                    let Some(m) = c.lib("clone", || pool[i].0.clone()) else { return };
                    let s = pool[i].1.clone();
                    pool.push((m, s));
                    what = format!("cloning mesh {i}");
                } else {
                    let j = r.us(pool.len());
                    let (m, s) = (pool[i].0.clone(), pool[i].1.clone());
                    pool[j] = (m, s);
                    what = format!("cloning mesh {i} over mesh {j}");
                }
            }
            22 => {
                what = format!("normalize on mesh {i}");
                let (m, s) = &mut pool[i];
                if c.lib("normalize", || m.normalize()).is_none() {
                    return;
                }
                let g = m.get_normals().map(|a| a.to_vec());
                if let Some(e) = c24_judge(&s.n, &g) {
                    c.violation("normalize", format!("after {what}: {e}"));
                    return;
                }
                s.n = g;
                changes += 1;
            }
            _ => {
                // Reading does not change anything.
                what = format!("reading from mesh {i}");
                let (m, _) = &pool[i];
                let ok = c.lib("getters", || {
                    let _ = (m.get_vertex_buffer(), m.get_normal_buffer(), m.get_uv_buffer(), m.verify());
                    let _ = m.lookup_custom_data("a");
                });
                if ok.is_none() {
                    return;
                }
            }
        }
        c.stat("calls", 1);
        hist.push_str(&what);
        hist.push_str("; ");
        for j in 0..pool.len() {
            let (m, s) = &pool[j];
            // Most names are looked up only in the mesh that was used.
            let probe: Vec<String> = if j == i { names.clone() } else { s.custom.iter().take(2).map(|x| x.0.clone()).collect() };
            let m = m as *const TMFMesh;
            // The mesh is not touched while it is compared.
            if !c23_compare(c, &what, unsafe { &*m }, s, &probe) {
                let h: String = hist.chars().take(1500).collect();
                c.violation("history", format!("calls: {h}"));
                return;
            }
        }
    }
    if changes >= 5 {
        c.nontrivial(hist.as_bytes());
        c.nontrivial(&pool[0].1.hash().to_le_bytes());
    }
    c.sample(|| hist.clone());
}
// ---------------------------------------------------------------- C24
pub const C24: Prop = Prop {
    id: "C24",
    rule: "Normals of every magnitude from subnormal to the largest, zeros and mixed arrays, normalized; length, direction and all other data are compared in double precision. Non-trivial: at least one normal which is not zero.",
    directed: &[c24_directed],
    run: c24,
};
/// What is wrong with a normalized array.
fn c24_judge(before: &Option<Vec<V3>>, after: &Option<Vec<V3>>) -> Option<String> {
    let (a, b) = match (before, after) {
        (None, None) => return None,
        (Some(a), Some(b)) => (a, b),
        _ => return Some("the array of normals appeared or disappeared".into()),
    };
    if a.len() != b.len() {
        return Some(format!("{} normals became {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let p = [x.0 as f64, x.1 as f64, x.2 as f64];
        let q = [y.0 as f64, y.1 as f64, y.2 as f64];
        if p.iter().any(|v| !v.is_finite()) {
            continue;
        }
        let m = p.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        if m == 0.0 {
            if q.iter().any(|v| *v != 0.0) {
                return Some(format!("zero normal {i} became {y:?}"));
            }
            continue;
        }
        // Scaled by a power of two and then some, so that squares are in range.
        let p = p.map(|v| v / m);
        let l = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
        let p = p.map(|v| v / l);
        let lq = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]).sqrt();
        if !((lq - 1.0).abs() <= 1e-5) {
            return Some(format!("normal {i} {x:?} became {y:?} of length {lq}"));
        }
        let d = (0..3).map(|k| (p[k] - q[k]).powi(2)).sum::<f64>().sqrt();
        if !(d <= 1e-5) {
            return Some(format!("normal {i} {x:?} became {y:?}, which points elsewhere"));
        }
    }
    None
}
fn c24_check(c: &mut Case, s: &Spec) {
    let mut m = s.mesh_via(&mut c.rng.clone());
    if c.lib("normalize", || m.normalize()).is_none() {
        return;
    }
    let ns = names(s);
    let got = Spec::of_with(&m, &ns);
    if let Some(n) = &s.n {
        c.stat("normals", n.len() as u64);
        if n.iter().any(|a| a.0 != 0.0 || a.1 != 0.0 || a.2 != 0.0) {
            c.nontrivial(&s.hash().to_le_bytes());
        }
    }
    if let Some(e) = c24_judge(&s.n, &got.n) {
        c.violation("normal", e);
    }
    let mut rest = Spec::of_with(&s.mesh(), &ns);
    rest.n = got.n.clone();
    if let Some(d) = diff(&rest, &got) {
        c.violation("other-data", format!("normalize changed other data: {d}"));
    }
    c.sample(|| format!("{:?}..", s.n.as_ref().map(|n| n.iter().take(4).cloned().collect::<Vec<_>>())));
}
fn any_normal(r: &mut Rng) -> V3 {
    let hi = F::MAX_10_EXP as f64;
    let lo = -(F::MIN_10_EXP as f64).abs() - 5.0;
    let scale = match r.below(6) {
        0 => 1.0,
        1 => r.log(lo, hi),
        2 => r.log(hi - 2.0, hi),
        3 => r.log(lo, lo + 12.0),
        _ => r.log(-3.0, 3.0),
    };
    let u = gen::unit(r);
    let mut v = (u.0 as f64 * scale, u.1 as f64 * scale, u.2 as f64 * scale);
    match r.below(12) {
        0 => return (0.0, -0.0, 0.0),
        1 => {
            // Components of very different magnitudes.
            v.0 *= r.log(-20.0, 0.0);
            v.1 *= r.log(-20.0, 0.0);
        }
        2 => return (F::MIN_POSITIVE * F::EPSILON, 0.0, 0.0),
        3 => return (F::MAX, -F::MAX, F::MAX),
        4 => {
            let k = gen::dict_float(r) as F;
            if k != 0.0 && k.is_finite() {
                return (k, u.1 * k, u.2 * k);
            }
        }
        _ => (),
    }
    let f = |x: f64| x.clamp(-(F::MAX as f64), F::MAX as f64) as F;
    (f(v.0), f(v.1), f(v.2))
}
fn c24(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = cap(c, if r.one_in(10) { 20_000 } else { 200 });
    let mut s = if r.bool() { gen::any_mesh(&mut r, max.min(200)) } else { Spec::default() };
    let n = gen::len(&mut r, max);
    let unit = r.one_in(5);
    s.n = if r.one_in(20) { None } else { Some(gen::vec_of(&mut r, n, |r| if unit { gen::unit(r) } else { any_normal(r) })) };
    c24_check(c, &s);
}
fn c24_directed(c: &mut Case) {
    let mut n = vec![];
    let top = F::MAX;
    for a in [0.0, -0.0, 1.0, -1.0, 1e-20, 1e-30, -1e-38, 1e-42, F::MIN_POSITIVE, F::MIN_POSITIVE * F::EPSILON, 1e18, 1e20, -1e30, top, -top] {
        for b in [0.0, 1.0, -a, 1e-20, top] {
            for d in [0.0, a, -1.0, 1e-40] {
                n.push((a as F, b as F, d as F));
                n.push((d as F, a as F, b as F));
                n.push((b as F, d as F, a as F));
            }
        }
    }
    let s = Spec { n: Some(n), v: Some(vec![(3.0, 4.0, 5.0)]), t: Some(vec![((0.0, 3.0, 0.0), 1.0)]), ..Spec::default() };
    c24_check(c, &s);
    c24_check(c, &Spec { n: Some(vec![]), ..Spec::default() });
    c24_check(c, &Spec::default());
}
