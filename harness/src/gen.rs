//! Workload generators. Lengths, values and names are also drawn from the literals of the source code under test.
use crate::rng::Rng;
use crate::spec::*;
use std::sync::OnceLock;
use tmf::{CustomData, FloatType as F, IndexType as I};
pub struct Dict {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub strs: Vec<String>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let dir = std::env::var("TMF_SRC").unwrap_or("/repo/src".into());
        let mut ints = std::collections::BTreeSet::new();
        let mut floats: Vec<f64> = vec![];
        let mut strs = std::collections::BTreeSet::new();
        let dir = if cfg!(miri) { String::new() } else { dir };
        let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            let Ok(text) = std::fs::read_to_string(&f) else { continue };
            let mut in_test = false;
            for line in text.lines() {
                if line.starts_with("#[cfg(test)]") || line.starts_with("#[cfg(all(feature = \"obj_import\", test))]") {
                    in_test = true;
                }
                if line.starts_with('}') || line.starts_with("];") {
                    in_test = false;
                }
                if in_test || line.trim_start().starts_with("//") {
                    continue;
                }
                let b: Vec<char> = line.chars().collect();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == '"' {
                        let st = i + 1;
                        i += 1;
                        while i < b.len() && b[i] != '"' {
                            i += if b[i] == '\\' { 2 } else { 1 };
                        }
                        let s: String = b[st.min(b.len())..i.min(b.len())].iter().collect();
                        if !s.is_empty() && s.len() <= 40 {
                            strs.insert(s);
                        }
                        i += 1;
                    } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                        let st = i;
                        while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || (b[i] == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())) {
                            i += 1;
                        }
                        let s: String = b[st..i].iter().filter(|c| **c != '_').collect();
                        let s = s.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u16").trim_end_matches("u8").trim_end_matches("f32").trim_end_matches("f64").to_string();
                        if let Some(h) = s.strip_prefix("0x") {
                            if let Ok(v) = u64::from_str_radix(h, 16) {
                                ints.insert(v);
                            }
                        } else if let Some(h) = s.strip_prefix("0b") {
                            if let Ok(v) = u64::from_str_radix(h, 2) {
                                ints.insert(v);
                            }
                        } else if let Ok(v) = s.parse::<u64>() {
                            ints.insert(v);
                        } else if let Ok(v) = s.parse::<f64>() {
                            floats.push(v);
                        }
                    } else {
                        i += 1;
                    }
                }
            }
        }
        floats.sort_by(|a, b| a.total_cmp(b));
        floats.dedup();
        let mut ints: Vec<u64> = ints.into_iter().collect();
        if ints.is_empty() {
            ints.push(7);
        }
        if floats.is_empty() {
            floats.push(0.5);
        }
        let mut strs: Vec<String> = strs.into_iter().collect();
        if strs.is_empty() {
            strs.push("name".into());
        }
        Dict { ints, floats, strs }
    })
}
/// Integer near a literal of the source.
pub fn dict_int(r: &mut Rng) -> u64 {
    let v = *r.pick(&dict().ints);
    match r.below(4) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 if v < 64 => 1 << v,
        _ => v,
    }
}
pub fn dict_float(r: &mut Rng) -> f64 {
    let v = *r.pick(&dict().floats);
    match r.below(5) {
        0 => -v,
        1 => v * (1.0 + 1e-6),
        2 => v * (1.0 - 1e-6),
        _ => v,
    }
}
/// Length of an array, at most `max`.
pub fn len(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(100) {
        0..=49 => r.us(13),
        50..=74 => r.us(100),
        75..=86 => r.us(1000),
        87..=90 => r.us(6000),
        91..=94 => {
            let p = 1u64 << r.below(17);
            (p as i64 + r.range(-1, 1)) as usize
        }
        _ => {
            let v = dict_int(r);
            if v <= max as u64 {
                v as usize
            } else {
                r.us(40)
            }
        }
    };
    n.min(if cfg!(miri) { max.min(9) } else { max })
}
/// Index of any size, boundary values likely.
pub fn index(r: &mut Rng) -> I {
    let max = I::MAX as u64;
    // 64 bit indices from 2^63 up can't be written (documented limit of the format).
    let max = max.min(u64::MAX >> 1);
    let v = match r.below(8) {
        0 => r.below(4),
        1 => r.below(256),
        2 => r.below(1 << 16),
        3 => {
            let b = r.below(64);
            (1u64 << b).wrapping_add(r.range(-1, 1) as u64)
        }
        4 => dict_int(r),
        5 => max - r.below(3),
        _ => r.u64() >> r.below(64),
    };
    if v > max {
        (max - (v & 1)) as I
    } else {
        v as I
    }
}
/// Index array with values below `limit` (exclusive), in one of many patterns.
pub fn indices(r: &mut Rng, n: usize, limit: u64) -> Vec<I> {
    if limit == 0 {
        return vec![];
    }
    let limit = limit.min((I::MAX as u64).saturating_add(1)).min(u64::MAX >> 1);
    let clip = |v: u64| (v % limit) as I;
    match r.below(14) {
        0 => (0..n).map(|i| clip(i as u64)).collect(),
        1 => vec![clip(limit - 1); n],
        2 => vec![0; n],
        3 => {
            // Low plateau, then high values: worth splitting.
            let cut = r.us(n + 1);
            let top = 1 << r.below(12);
            let lo = 1 + r.below(limit.min(top));
            (0..n).map(|i| if i < cut { clip(r.below(lo)) } else { clip(r.below(limit)) }).collect()
        }
        4 => {
            // High values first, low values later.
            let cut = r.us(n + 1);
            let top = 1 << r.below(12);
            let lo = 1 + r.below(limit.min(top));
            let base = limit - 1 - r.below(limit.min(200));
            (0..n).map(|i| if i < cut { clip(base + r.below(limit - base)) } else { clip(r.below(lo)) }).collect()
        }
        5 => {
            // Several blocks, each with its own base and range.
            let mut v = vec![];
            while v.len() < n {
                let k = 1 + r.us(1 + n / 2);
                let bits = r.below(64);
                let span = 1 + r.below(limit.min(1 << bits.min(62)));
                let base = r.below(limit);
                for _ in 0..k.min(n - v.len()) {
                    v.push(clip(base.saturating_add(r.below(span)).min(limit - 1)));
                }
            }
            v
        }
        6 => {
            let mut v: Vec<I> = (0..n).map(|_| r.below(limit) as I).collect();
            v.sort();
            if r.bool() {
                v.reverse();
            }
            v
        }
        7 => {
            // Narrow range far away from 0.
            let span = 1 + r.below(limit.min(8));
            let base = r.below(limit - span + 1);
            (0..n).map(|_| clip(base + r.below(span))).collect()
        }
        8 => (0..n).map(|_| clip(index(r) as u64)).collect(),
        9 => {
            // Growing power by power.
            (0..n).map(|i| { let b = (i * 64 / n.max(1)) as u64; clip(r.below(1u64 << b.min(62)).min(limit - 1)) }).collect()
        }
        10 | 11 => index_runs(r, n, limit),
        _ => (0..n).map(|_| r.below(limit) as I).collect(),
    }
}
/// Short runs of indices of a few magnitudes, over and over.
pub fn index_runs(r: &mut Rng, n: usize, limit: u64) -> Vec<I> {
    let bits = 64 - (limit - 1).leading_zeros() as u64;
    let levels: Vec<u64> = (0..2 + r.us(4)).map(|i| if i == 0 { limit - 1 } else { ((1u64 << r.below(bits + 1).min(62)) - r.below(2)).min(limit - 1) }).collect();
    let cycle: Vec<(u64, usize)> = (0..2 + r.us(5)).map(|_| (*r.pick(&levels), 1 + r.us(30))).collect();
    let mut v = Vec::with_capacity(n);
    'all: loop {
        for (l, k) in &cycle {
            for _ in 0..*k {
                if v.len() == n {
                    break 'all;
                }
                v.push(if r.one_in(9) { *l / 2 } else { *l } as I);
            }
        }
    }
    v
}
/// Short runs of vertices within a few boxes, over and over.
pub fn vertex_runs(r: &mut Rng, n: usize) -> Vec<V3> {
    let scale = r.log(-3.0, 6.0);
    let boxes: Vec<[f64; 3]> = (0..2 + r.us(3)).map(|_| [0; 3].map(|_| if r.bool() { scale } else { scale * r.log(-7.0, 0.0) })).collect();
    let cycle: Vec<([f64; 3], usize)> = (0..2 + r.us(5)).map(|_| (*r.pick(&boxes), 2 + r.us(30))).collect();
    let mut v: Vec<V3> = Vec::with_capacity(n);
    'all: loop {
        for (b, k) in &cycle {
            for i in 0..*k {
                if v.len() == n {
                    break 'all;
                }
                // Runs end close to the origin, and start at the corners of their box.
                let f = |r: &mut Rng, k: usize| (if i + 1 == *cycle.first().map(|(_, k)| k).unwrap() || i % 9 == 8 { r.uni(-1e-6, 1e-6) * b[k] } else if i < 2 { b[k] * if i == 0 { 1.0 } else { -1.0 } } else { r.uni(-1.0, 1.0) * b[k] }) as F;
                let q = (f(r, 0), f(r, 1), f(r, 2));
                v.push(q);
            }
        }
    }
    v
}
pub const MAX_COORD: f64 = if DOUBLE { 1e300 } else { 1e37 };
/// Vertices in one of many arrangements, coordinates of magnitude up to `MAX_COORD`.
pub fn vertices(r: &mut Rng, n: usize) -> Vec<V3> {
    if r.one_in(12) {
        return vertex_runs(r, n);
    }
    let scale = match r.below(12) {
        0 => r.log(-18.0, MAX_COORD.log10() - 1.0),
        1 => r.log(-9.0, -5.0),
        2 => r.log(4.0, 9.0),
        3 => dict_float(r).abs().clamp(1e-18, 1e17),
        _ => r.log(-2.5, 2.5),
    };
    let mut ax = [scale; 3];
    if r.one_in(3) {
        for a in &mut ax {
            *a *= match r.below(5) {
                0 => r.log(-6.0, 0.0),
                1 => r.log(-1.5, 1.5),
                2 => 0.0,
                _ => 1.0,
            };
        }
    }
    let mut off = [0.0; 3];
    if r.one_in(3) {
        for o in &mut off {
            *o = match r.below(4) {
                0 => scale * r.uni(-10.0, 10.0),
                1 => scale * r.log(0.0, 5.0) * if r.bool() { 1.0 } else { -1.0 },
                2 => dict_float(r),
                _ => 0.0,
            };
        }
    }
    let kind = r.below(10);
    let few: Vec<[f64; 3]> = (0..1 + r.us(4)).map(|_| [r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)]).collect();
    let cut = r.us(n + 1);
    let shrink = r.log(-4.0, -0.5);
    let mut out: Vec<V3> = (0..n)
        .map(|i| {
            let t = i as f64 / n.max(2) as f64;
            let mut p = [r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)];
            match kind {
                0 => p = [t, r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)],
                1 => p = [t, t * 0.5, 1.0 - t],
                2 => p = *r.pick(&few),
                3 => p = [r.below(5) as f64 / 4.0, r.below(5) as f64 / 4.0, r.below(5) as f64 / 4.0],
                4 if i < cut => p = [p[0] * shrink, p[1] * shrink, p[2] * shrink],
                5 if i >= cut => p = [p[0] * shrink, p[1] * shrink, p[2] * shrink],
                6 => p = [p[0].abs(), p[1].abs(), p[2].abs()],
                7 if r.one_in(10) => p = [p[0] * 30.0, p[1] * 30.0, p[2] * 30.0],
                _ => (),
            }
            let f = |k: usize| (p[k] * ax[k] + off[k]).clamp(-MAX_COORD, MAX_COORD) as F;
            (f(0), f(1), f(2))
        })
        .collect();
    if r.one_in(8) {
        for v in &mut out {
            if r.one_in(4) {
                let z = *r.pick(&[0.0, -0.0, F::MIN_POSITIVE, -F::MIN_POSITIVE, 1.0, -1.0]);
                match r.below(3) {
                    0 => v.0 = z,
                    1 => v.1 = z,
                    _ => v.2 = z,
                }
            }
        }
    }
    if r.one_in(10) && n > 1 {
        out.sort_by(|a, b| a.2.total_cmp(&b.2));
        if r.bool() {
            out.reverse();
        }
    }
    out
}
/// Unit vector, special directions likely.
pub fn unit(r: &mut Rng) -> V3 {
    let mut v: [f64; 3] = match r.below(10) {
        0 => {
            let mut v = [0.0; 3];
            v[r.us(3)] = if r.bool() { 1.0 } else { -1.0 };
            v
        }
        1 => {
            // Near the border of octants.
            let mut v = [r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)];
            v[r.us(3)] *= r.log(-8.0, -1.0);
            v
        }
        2 => {
            let e = r.log(-5.0, 0.0);
            let mut v = [r.uni(-1.0, 1.0) * e, r.uni(-1.0, 1.0) * e, 1.0];
            if r.bool() {
                v[2] = -1.0
            }
            v
        }
        3 => {
            let mut v = [r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)];
            v[r.us(3)] = 0.0;
            v
        }
        4 => {
            let mut v = [1.0, 1.0, 1.0];
            for x in &mut v {
                if r.bool() {
                    *x = -1.0
                }
            }
            v
        }
        _ => {
            let z = r.uni(-1.0, 1.0);
            let a = r.uni(0.0, std::f64::consts::TAU);
            let m = (1.0 - z * z as f64).sqrt();
            [m * a.cos(), m * a.sin(), z]
        }
    };
    let m = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    if m == 0.0 {
        return (1.0, 0.0, 0.0);
    }
    for x in &mut v {
        *x /= m;
        if *x == 0.0 && r.bool() {
            *x = -0.0;
        }
    }
    (v[0] as F, v[1] as F, v[2] as F)
}
pub fn uv(r: &mut Rng) -> V2 {
    let mut c = || match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => (r.below(1025) as f64 / 1024.0) as F,
        4 => dict_float(r).abs().fract() as F,
        5 => 1.0 - r.log(-7.0, -1.0) as F,
        _ => r.f64() as F,
    };
    let (a, b) = (c(), c());
    (a.clamp(0.0, 1.0), b.clamp(0.0, 1.0))
}
pub fn tangent(r: &mut Rng) -> T4 {
    (unit(r), if r.bool() { 1.0 } else { -1.0 })
}
pub fn vec_of<T>(r: &mut Rng, n: usize, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    (0..n).map(|_| f(r)).collect()
}
/// A list whose entries may resemble, or be the same as, those before them.
fn list_of<T: Copy>(r: &mut Rng, n: usize, f: impl Fn(&mut Rng) -> T, near: impl Fn(&mut Rng, T, f64) -> T) -> Vec<T> {
    let style = r.below(12);
    let step = r.log(-8.0, -0.5);
    let mut v: Vec<T> = Vec::with_capacity(n);
    for _ in 0..n {
        let x = match v.last().copied() {
            // A walk of small steps.
            Some(l) if style == 0 => near(r, l, step),
            // Runs, with steps of any size.
            Some(l) if style == 1 => match r.below(4) {
                0 => f(r),
                1 => l,
                _ => {
                    let e = r.log(-8.0, -0.5);
                    near(r, l, e)
                }
            },
            // Entries which were there before, or nearly.
            Some(_) if style == 2 && r.bool() => {
                let l = v[r.us(v.len())];
                if r.bool() {
                    l
                } else {
                    near(r, l, step)
                }
            }
            _ => f(r),
        };
        v.push(x);
    }
    v
}
fn near_unit(r: &mut Rng, a: V3, e: f64) -> V3 {
    let v = [a.0 as f64 + e * r.uni(-1.0, 1.0), a.1 as f64 + e * r.uni(-1.0, 1.0), a.2 as f64 + e * r.uni(-1.0, 1.0)];
    let m = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    ((v[0] / m) as F, (v[1] / m) as F, (v[2] / m) as F)
}
pub fn units(r: &mut Rng, n: usize) -> Vec<V3> {
    list_of(r, n, unit, near_unit)
}
pub fn uvs(r: &mut Rng, n: usize) -> Vec<V2> {
    list_of(r, n, uv, |r, a, e| {
        let mut f = |x: F| ((x as f64 + e * r.uni(-1.0, 1.0)) as F).clamp(0.0, 1.0);
        (f(a.0), f(a.1))
    })
}
pub fn tangents(r: &mut Rng, n: usize) -> Vec<T4> {
    list_of(r, n, tangent, |r, a, e| {
        let h = if r.one_in(3) { -a.1 } else { a.1 };
        (if r.one_in(4) { a.0 } else { near_unit(r, a.0, e) }, h)
    })
}
pub fn name(r: &mut Rng, max: usize) -> String {
    const WORDS: &[&str] = &["Suzanne", "mesh", "Cube.001", "a b", "ąęć", "名前", "\u{0}", "x/y", "", "o", "#", "\u{1F980}", " lead", "v 1 2 3", "-", "\\"];
    let mut s = match r.below(8) {
        0 => String::new(),
        1 => r.pick(&dict().strs).clone(),
        2 => {
            let n = len(r, max);
            "n".repeat(n)
        }
        3 => {
            let n = if r.one_in(10) { max - r.us(3) } else { r.us(300.min(max + 1)) };
            let mut s = "x".repeat(n);
            s.truncate(max);
            s
        }
        _ => (0..1 + r.us(3)).map(|_| *r.pick(WORDS)).collect(),
    };
    let mut n = max.min(s.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s.truncate(n);
    s
}
/// Valid name of custom data.
pub fn custom_name(r: &mut Rng) -> String {
    let mut s = name(r, 255);
    if s.is_empty() {
        s = r.pick(&["c", "custom", "custom_index", "ć"]).to_string();
    }
    s
}
pub fn custom(r: &mut Rng, max: usize) -> CustomData {
    let n = len(r, max);
    match r.below(4) {
        k @ 0..=1 => {
            let lim = *r.pick(&[1u64, 2, 3, 256, 1 << 16, u64::MAX >> 1]);
            let a: Box<[I]> = indices(r, n, lim).into();
            let top = a.iter().max().copied().unwrap_or(0) as u64;
            // Declared maximum: exact, or anything above.
            let m = match r.below(4) {
                0 => top.saturating_add(r.u64() >> r.below(64)),
                1 if !LONG => usize::MAX as u64,
                _ => top,
            };
            let m = if LONG { m.min(u64::MAX >> 1) } else { m } as usize;
            if k == 0 {
                CustomData::CustomIndex(a, m)
            } else {
                CustomData::CustomIntiger(a, m)
            }
        }
        2 => {
            let scale = if r.one_in(4) { r.log(-18.0, MAX_COORD.log10() - 0.1) } else { r.log(-3.0, 4.0) };
            let off = if r.one_in(3) { r.uni(-3.0, 3.0) * scale } else { 0.0 };
            let same = r.one_in(6);
            let c = r.uni(-1.0, 1.0);
            let a: Vec<F> = (0..n)
                .map(|_| {
                    let v = if same { c } else { r.uni(-1.0, 1.0) };
                    let v = if r.one_in(12) { dict_float(r) } else { v * scale + off };
                    v.clamp(-MAX_COORD, MAX_COORD) as F
                })
                .collect();
            let p = match r.below(6) {
                0 => scale * r.log(-12.0, 1.0),
                1 => dict_float(r).abs().max(1e-20),
                2 => r.log(-20.0, MAX_COORD.log10()),
                _ => scale * r.log(-5.0, -0.5),
            };
            CustomData::CustomFloat(a.into(), (p as F).max(F::MIN_POSITIVE))
        }
        _ => {
            let a: Vec<(F, F, F, F)> = (0..n)
                .map(|_| {
                    let (x, y) = uv(r);
                    let (z, w) = uv(r);
                    (x, y, z, w)
                })
                .collect();
            let p = match r.below(4) {
                0 => r.log(-9.0, 1.0),
                1 => dict_float(r).abs().max(1e-9),
                _ => r.log(-5.0, 0.0),
            };
            CustomData::CustomColorRGBA(a.into(), p as F)
        }
    }
}
pub fn customs(r: &mut Rng, max: usize) -> Vec<(String, CustomData)> {
    let k = if r.one_in(40) { r.us(20) } else { r.us(4) };
    let mut out: Vec<(String, CustomData)> = vec![];
    for _ in 0..k {
        let n = if !out.is_empty() && r.one_in(4) { out[r.us(out.len())].0.clone() } else { custom_name(r) };
        out.push((n, custom(r, max)));
    }
    out
}
/// Any mesh which can be saved: vertex indices are in range, the others need not be.
pub fn any_mesh(r: &mut Rng, max: usize) -> Spec {
    let mut s = Spec::default();
    let nv = len(r, max);
    let p = r.below(8);
    let has = |r: &mut Rng| match p {
        0 => true,
        1 => r.one_in(4),
        _ => r.bool(),
    };
    let small = |r: &mut Rng| if r.one_in(10) { 0 } else { len(r, max) };
    if has(r) || p == 2 {
        s.v = Some(vertices(r, nv));
    }
    if has(r) {
        let n = small(r);
        s.n = Some(units(r, n));
    }
    if has(r) {
        let n = small(r);
        s.uv = Some(uvs(r, n));
    }
    if has(r) {
        let n = small(r);
        s.t = Some(tangents(r, n));
    }
    let tri_len = |r: &mut Rng| {
        let n = small(r);
        if r.one_in(8) {
            n
        } else {
            n / 3 * 3
        }
    };
    if has(r) || p == 2 {
        let n = tri_len(r);
        let lim = match &s.v {
            Some(v) => v.len() as u64,
            None => *r.pick(&[1u64, 5, 300, 70000, u64::MAX >> 1]),
        };
        s.vt = Some(indices(r, n, lim));
    }
    let other = |r: &mut Rng, s: &Spec, data: Option<usize>| -> Vec<I> {
        let n = tri_len(r);
        let mut a = match r.below(8) {
            // Same, or nearly the same, as another index array.
            0..=2 if s.vt.is_some() => s.vt.clone().unwrap(),
            3 if s.nt.is_some() => s.nt.clone().unwrap(),
            4 if s.ut.is_some() => s.ut.clone().unwrap(),
            5 | 6 if data.is_some_and(|d| d > 0) => return indices(r, n, data.unwrap() as u64),
            _ => {
                let lim = *r.pick(&[1u64, 2, 17, 300, 70000, u64::MAX >> 1]);
                return indices(r, n, lim);
            }
        };
        match r.below(6) {
            0 if !a.is_empty() => {
                let i = if r.bool() { a.len() - 1 } else { r.us(a.len()) };
                a[i] = a[i].wrapping_add(1).min((I::MAX as u64).min(u64::MAX >> 1) as I);
            }
            1 => {
                let k = r.us(a.len() + 1);
                a.truncate(k)
            }
            _ => (),
        }
        a
    };
    if has(r) {
        let a = other(r, &s, s.n.as_ref().map(|a| a.len()));
        s.nt = Some(a);
    }
    if has(r) {
        let a = other(r, &s, s.uv.as_ref().map(|a| a.len()));
        s.ut = Some(a);
    }
    if has(r) {
        let a = other(r, &s, s.t.as_ref().map(|a| a.len()));
        s.tt = Some(a);
    }
    if r.one_in(3) {
        s.custom = customs(r, max.min(2000));
    }
    s
}
/// A mesh as applications have them: all index arrays in range and of the same length.
pub fn nice_mesh(r: &mut Rng, max: usize) -> Spec {
    let mut s = Spec::default();
    let nv = 1 + len(r, max);
    let nt = len(r, max / 3) * 3;
    s.v = Some(vertices(r, nv));
    s.vt = Some(indices(r, nt, nv as u64));
    if r.one_in(4) {
        s.vt = None;
    }
    let nt = s.vt.as_ref().map_or(nt, |a| a.len());
    let same = r.one_in(4);
    if r.bool() {
        let n = if same { nv } else { 1 + len(r, max) };
        s.n = Some(units(r, n));
        s.nt = Some(if same && s.vt.is_some() { s.vt.clone().unwrap() } else { indices(r, nt, n as u64) });
    }
    if r.bool() {
        let n = if same { nv } else { 1 + len(r, max) };
        s.uv = Some(uvs(r, n));
        s.ut = Some(if same && s.vt.is_some() { s.vt.clone().unwrap() } else { indices(r, nt, n as u64) });
    }
    if r.one_in(3) {
        let n = if same { nv } else { 1 + len(r, max) };
        s.t = Some(tangents(r, n));
        s.tt = Some(if same && s.vt.is_some() { s.vt.clone().unwrap() } else { indices(r, nt, n as u64) });
    }
    s
}
/// Precision settings with the numbers they were made from.
#[derive(Clone, Copy, Debug)]
pub struct Prec {
    pub p: F,
    pub deg: F,
    pub rad: bool,
    pub res: f32,
    pub dev: f32,
    pub tdeg: F,
    pub trad: bool,
}
impl Prec {
    pub fn info(&self) -> tmf::TMFPrecisionInfo {
        tmf::TMFPrecisionInfo {
            vertex_precision: tmf::VertexPrecisionMode(self.p),
            normal_precision: if self.rad { tmf::NormalPrecisionMode::from_rad_dev(self.deg) } else { tmf::NormalPrecisionMode::from_deg_dev(self.deg) },
            uv_prec: tmf::UvPrecisionMode::form_texture_resolution(self.res, self.dev),
            tangent_prec: if self.trad { tmf::TangentPrecisionMode::from_rad_dev(self.tdeg) } else { tmf::TangentPrecisionMode::from_deg_dev(self.tdeg) },
        }
    }
    pub fn default() -> Self {
        Prec { p: 0.1, deg: 1.0, rad: false, res: 1024.0, dev: 0.1, tdeg: 1.0, trad: false }
    }
    /// Maximal deviation of normals in radians.
    pub fn norm_rad(&self) -> f64 {
        if self.rad { self.deg as f64 } else { (self.deg as f64).to_radians() }
    }
    pub fn tan_rad(&self) -> f64 {
        if self.trad { self.tdeg as f64 } else { (self.tdeg as f64).to_radians() }
    }
}
pub fn angle(r: &mut Rng, rad: bool) -> F {
    let deg = match r.below(8) {
        0 => r.log(-9.0, -3.0),
        1 => r.uni(45.0, 130.0),
        2 => 90.0 / (1u64 << r.below(40)) as f64,
        3 => dict_float(r).abs().clamp(1e-9, 400.0),
        _ => r.log(-3.0, 1.5),
    };
    if rad { deg.to_radians() as F } else { deg as F }
}
pub fn prec(r: &mut Rng) -> Prec {
    if r.one_in(8) {
        return Prec::default();
    }
    let p = match r.below(8) {
        0 => r.log(-12.0, -4.0),
        1 => r.log(-0.5, 3.0),
        2 => 1.0 / (1u64 << r.below(20)) as f64,
        3 => dict_float(r).abs().clamp(1e-12, 1e3),
        _ => r.log(-4.0, -0.3),
    } as F;
    let (rad, trad) = (r.bool(), r.bool());
    let res = match r.below(4) {
        0 => (1u64 << r.below(15)) as f32,
        1 => r.uni(1.0, 20000.0) as f32,
        _ => *r.pick(&[256.0f32, 512.0, 1024.0, 2048.0, 4096.0]),
    };
    let dev = match r.below(6) {
        0 => r.log(-9.0, -3.0) as f32,
        1 => res * r.uni(0.1, 3.0) as f32,
        2 => 1.0 / (1u64 << r.below(12)) as f32,
        _ => r.log(-3.0, 0.5) as f32,
    };
    Prec { p, deg: angle(r, rad), rad, res, dev, tdeg: angle(r, trad), trad }
}
pub type Named = Vec<(tmf::TMFMesh, String)>;
pub fn write(ms: &[(tmf::TMFMesh, String)], p: &tmf::TMFPrecisionInfo) -> Result<Vec<u8>, tmf::TMFExportError> {
    let mut out = vec![];
    tmf::TMFMesh::write_tmf(ms, &mut out, p)?;
    Ok(out)
}
pub fn read(b: &[u8]) -> Result<Named, tmf::TMFImportError> {
    tmf::TMFMesh::read_tmf(&mut &b[..])
}
