//! Properties of a mesh written to TMF and read back: C01 to C06, C09, C12, C21, C25, C27.
use crate::codec;
use crate::fw::*;
use crate::gen;
use crate::rng::{hash_bytes, Rng};
use crate::spec::*;
use std::io::Read;
use tmf::{CustomData, FloatType as F, IndexType as I, TMFMesh};
pub const EPS: f64 = F::EPSILON as f64;
/// Longest arrays made; an index type of 16 bits allows for no more.
pub fn max_len(c: &Case) -> usize {
    if c.thorough {
        70_000.min(I::MAX as usize)
    } else {
        20_000.min(I::MAX as usize)
    }
}
pub fn key(specs: &[(Spec, String)], extra: &str) -> Vec<u8> {
    let mut b = vec![];
    for (s, n) in specs {
        b.extend(s.hash().to_le_bytes());
        b.extend(n.as_bytes());
    }
    b.extend(extra.as_bytes());
    b
}
fn meshes(specs: &[(Spec, String)]) -> gen::Named {
    meshes_via(specs, 0)
}
/// Meshes put together in ways which depend on `salt` and their shape.
fn meshes_via(specs: &[(Spec, String)], salt: u64) -> gen::Named {
    specs
        .iter()
        .enumerate()
        .map(|(i, (s, n))| {
            let seed = lens(s).iter().fold(salt.wrapping_add(i as u64), |h, l| crate::rng::mix(h ^ l.map_or(u64::MAX, |l| l as u64)));
            (s.mesh_via(&mut crate::rng::Rng::new(seed)), n.clone())
        })
        .collect()
}
/// Writes and reads back. Violations are reported under `what`.
fn round(c: &mut Case, specs: &[(Spec, String)], p: &gen::Prec) -> Option<(Vec<u8>, gen::Named)> {
    let ms = meshes(specs);
    let info = p.info();
    let bytes = match c.lib("write_tmf", || gen::write(&ms, &info))? {
        Ok(b) => b,
        Err(e) => {
            c.violation("write-error", format!("write_tmf failed: {e} ({p:?}, {})", shapes(specs)));
            return None;
        }
    };
    let got = match c.lib("read_tmf", || gen::read(&bytes))? {
        Ok(g) => g,
        Err(e) => {
            c.violation("read-error", format!("read_tmf of a written file failed: {e} ({p:?}, {})", shapes(specs)));
            return None;
        }
    };
    c.stat("bytes_written", bytes.len() as u64);
    if got.len() != specs.len() {
        c.violation("mesh-count", format!("{} meshes became {}", specs.len(), got.len()));
        return None;
    }
    Some((bytes, got))
}
fn shapes(specs: &[(Spec, String)]) -> String {
    specs.iter().map(|(s, _)| s.shape()).collect::<Vec<_>>().join("; ")
}
fn lens(s: &Spec) -> [Option<usize>; 8] {
    [
        s.v.as_ref().map(|a| a.len()),
        s.n.as_ref().map(|a| a.len()),
        s.uv.as_ref().map(|a| a.len()),
        s.t.as_ref().map(|a| a.len()),
        s.vt.as_ref().map(|a| a.len()),
        s.nt.as_ref().map(|a| a.len()),
        s.ut.as_ref().map(|a| a.len()),
        s.tt.as_ref().map(|a| a.len()),
    ]
}
fn mesh_list(r: &mut Rng, max: usize) -> Vec<(Spec, String)> {
    let n = match r.below(10) {
        0 => 0,
        1 => 2 + r.us(4),
        2 => 1 + r.us(3),
        3 if r.one_in(8) => r.us(300),
        _ => 1,
    };
    let max = if n > 6 { 40 } else if n > 1 { max.min(3000) } else { max };
    let same = r.one_in(6);
    let mut out: Vec<(Spec, String)> = vec![];
    for _ in 0..n {
        let s = if same && !out.is_empty() { out[0].0.clone() } else if r.one_in(4) { gen::nice_mesh(r, max) } else { gen::any_mesh(r, max) };
        let name = if n > 6 { gen::name(r, 60) } else { gen::name(r, 65535) };
        out.push((s, name));
    }
    out
}
// ---------------------------------------------------------------- C01
pub const C01: Prop = Prop {
    id: "C01",
    rule: "Lists of 0 to 300 meshes, any subset of the arrays, index patterns which do and do not make segments split, any precision, names up to 65535 bytes; non-trivial: at least one array with entries was written and compared. Directed: names and segment counts the format can't represent.",
    directed: &[|c| c01_segments(c, 65534), |c| c01_segments(c, 65536), c01_long_name, c01_empty_arrays, c01_big_split, c01_many],
    run: c01,
};
fn c01_compare(c: &mut Case, specs: &[(Spec, String)], got: &gen::Named) {
    for (i, ((s, n), (m, gn))) in specs.iter().zip(got).enumerate() {
        if n != gn {
            c.violation("name", format!("name {i} {:?} became {:?}", &n.chars().take(80).collect::<String>(), gn.chars().take(80).collect::<String>()));
        }
        let g = Spec::of(m);
        if lens(s) != lens(&g) {
            c.violation("arrays", format!("mesh {i}: arrays {} became {}", s.shape(), g.shape()));
        } else if let Some(d) = diff_indices(s, &g) {
            c.violation("indices", format!("mesh {i} ({}): {d}", s.shape()));
        }
        c.stat("indices_compared", [&s.vt, &s.nt, &s.ut, &s.tt].iter().filter_map(|a| a.as_ref()).map(|a| a.len() as u64).sum());
        c.stat("arrays_compared", lens(s).iter().flatten().count() as u64);
    }
}
fn c01(c: &mut Case) {
    let mut r = c.rng.clone();
    let specs = mesh_list(&mut r, max_len(c));
    let p = gen::prec(&mut r);
    let Some((bytes, got)) = round(c, &specs, &p) else { return };
    if specs.iter().any(|(s, _)| lens(s).iter().flatten().any(|l| *l > 0)) {
        c.nontrivial(&key(&specs, &format!("{p:?}")));
    }
    c.sample(|| format!("{} meshes: {}; {} bytes", specs.len(), shapes(&specs), bytes.len()));
    c01_compare(c, &specs, &got);
    if let Ok(f) = codec::decode(&bytes) {
        let segs: usize = f.meshes.iter().map(|m| m.segs.len()).sum();
        let arrays: usize = specs.iter().map(|(s, _)| lens(s).iter().flatten().count() + s.custom.len()).sum();
        c.stat("segments", segs as u64);
        if segs > arrays {
            c.stat("files_with_split_arrays", 1);
        }
        if f.meshes.iter().any(|m| m.segs.iter().any(|s| matches!(s, codec::Seg::Shared(..)))) {
            c.stat("files_with_shared_segments", 1);
        }
    }
}
fn c01_long_name(c: &mut Case) {
    for n in [0usize, 1, 255, 256, 257, 65534, 65535, 65536, 65537, 65536 + 5, 131071, 131072] {
        let name: String = "ż".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" };
        let ms = vec![(gen::nice_mesh(&mut c.rng, 20).mesh(), name.clone())];
        let Some(w) = c.lib("write_tmf", || gen::write(&ms, &Default::default())) else { continue };
        c.nontrivial(&n.to_le_bytes());
        match w {
            Ok(b) => match c.lib("read_tmf", || gen::read(&b)) {
                Some(Ok(g)) if g.len() == 1 && g[0].1 == name => (),
                Some(Ok(g)) => c.violation("name", format!("name of {n} bytes became one of {:?} bytes", g.first().map(|g| g.1.len()))),
                Some(Err(e)) => c.violation("read-error", format!("file with a name of {n} bytes does not read back: {e}")),
                None => (),
            },
            Err(_) if n > 65535 => c.stat("refused", 1),
            Err(e) => c.violation("write-error", format!("name of {n} bytes refused: {e}")),
        }
    }
}
fn c01_segments(c: &mut Case, n: usize) {
    let mut m = TMFMesh::empty();
    m.set_vertices(vec![(0.0, 1.0, 2.0)]);
    for _ in 0..n - 1 {
        m.add_custom_data(CustomData::CustomIndex(vec![1].into(), 1), "c").unwrap();
    }
    m.add_custom_data(CustomData::CustomIndex(vec![7 as I].into(), 7), "last").unwrap();
    // n + 1 segments.
    let ms = vec![(m, "many".to_string())];
    let Some(w) = c.lib("write_tmf", || gen::write(&ms, &Default::default())) else { return };
    c.nontrivial(&n.to_le_bytes());
    match w {
        Ok(b) => match c.lib("read_tmf", || gen::read(&b)) {
            Some(Ok(g)) => {
                let ok = g.len() == 1 && g[0].0.get_vertices().is_some_and(|v| v.len() == 1) && matches!(g[0].0.lookup_custom_data("last"), Some(CustomData::CustomIndex(a, _)) if a[..] == [7]);
                if !ok {
                    c.violation("arrays", format!("a mesh of {} segments reads back differently", n + 1));
                }
            }
            Some(Err(e)) => c.violation("read-error", format!("a mesh of {} segments does not read back: {e}", n + 1)),
            None => (),
        },
        Err(_) if n + 1 > 65535 => c.stat("refused", 1),
        Err(e) => c.violation("write-error", format!("a mesh of {} segments refused: {e}", n + 1)),
    }
}
/// More meshes than 16 bits can count.
fn c01_many(c: &mut Case) {
    for n in [65535usize, 65536, 65537, 70_001] {
        let ms: gen::Named = (0..n)
            .map(|i| {
                let mut m = TMFMesh::empty();
                if i % 5000 == 17 {
                    m.set_vertices(vec![(i as F, 0.0, 1.0)]);
                }
                (m, if i % 3 == 0 { String::new() } else { format!("{i}") })
            })
            .collect();
        c.nontrivial(&n.to_le_bytes());
        let Some(Ok(b)) = c.lib("write_tmf", || gen::write(&ms, &Default::default())) else {
            c.violation("write-error", format!("{n} meshes could not be written"));
            return;
        };
        match c.lib("read_tmf", || gen::read(&b)) {
            Some(Ok(g)) => {
                if g.len() != n {
                    c.violation("mesh-count", format!("{n} meshes became {}", g.len()));
                } else if let Some(i) = (0..n).find(|i| g[*i].1 != ms[*i].1 || g[*i].0.get_vertices().map(|v| v.len()) != ms[*i].0.get_vertices().map(|v| v.len())) {
                    c.violation("arrays", format!("mesh {i} of {n} became another one"));
                }
            }
            Some(Err(e)) => c.violation("read-error", format!("{n} meshes do not read back: {e}")),
            None => (),
        }
    }
}
fn c01_empty_arrays(c: &mut Case) {
    // Every subset of present arrays, all empty, or all of one element.
    for size in 0..2usize {
        for mask in 0..256u32 {
            let mut s = Spec::default();
            let on = |b: u32| mask >> b & 1 != 0;
            if on(0) {
                s.v = Some(vec![(1.0, 2.0, 3.0); size]);
            }
            if on(1) {
                s.n = Some(vec![(0.0, 1.0, 0.0); size]);
            }
            if on(2) {
                s.uv = Some(vec![(0.5, 0.25); size]);
            }
            if on(3) {
                s.t = Some(vec![((0.0, 1.0, 0.0), 1.0); size]);
            }
            if on(4) {
                s.vt = Some(vec![0; 3 * size.min(on(0) as usize)]);
            }
            if on(5) {
                s.nt = Some(vec![0; 3 * size]);
            }
            if on(6) {
                s.ut = Some(vec![0; 3 * size]);
            }
            if on(7) {
                s.tt = Some(vec![0; 3 * size]);
            }
            let specs = vec![(s, String::new())];
            if let Some((_, got)) = round(c, &specs, &gen::Prec::default()) {
                c01_compare(c, &specs, &got);
            }
            c.nontrivial(&[mask as u8, size as u8]);
        }
    }
}
fn c01_big_split(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = if c.thorough { 1_000_000 } else { 120_000 };
    let n = n.min(I::MAX as usize);
    let mut s = Spec::default();
    s.v = Some(gen::vertices(&mut r, n));
    for k in 0..if c.thorough { 12 } else { 3 } {
        s.vt = Some(gen::indices(&mut r, n / 3 * 3, n as u64));
        s.nt = if k % 2 == 0 { s.vt.clone() } else { Some(gen::indices(&mut r, n, u64::MAX >> 1)) };
        s.ut = Some((0..n as u64).map(|i| (i * i % (1 << 20).min(I::MAX as u64)) as I).collect());
        let specs = vec![(s.clone(), "big".into())];
        if let Some((_, got)) = round(c, &specs, &gen::Prec::default()) {
            c01_compare(c, &specs, &got);
        }
        c.nontrivial(&s.hash().to_le_bytes());
    }
}
// ---------------------------------------------------------------- C02
pub const C02: Prop = Prop {
    id: "C02",
    rule: "Meshes of any scale (1e-18 to 1e37, to 1e300 in double precision), offset, flatness and triangle list, vertex precision from 1e-12 to 1e3; the deviation of every vertex and every edge is measured in double precision. Non-trivial: at least two different vertices.",
    directed: &[c02_big, c02_directed],
    run: c02,
};
fn d64(a: V3) -> [f64; 3] {
    [a.0 as f64, a.1 as f64, a.2 as f64]
}
fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    // Scaled, since squares of tiny values vanish.
    let d = [(a[0] - b[0]).abs(), (a[1] - b[1]).abs(), (a[2] - b[2]).abs()];
    let m = d[0].max(d[1]).max(d[2]);
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * ((d[0] / m).powi(2) + (d[1] / m).powi(2) + (d[2] / m).powi(2)).sqrt()
}
pub fn shortest_edge(s: &Spec) -> f64 {
    let (Some(v), Some(t)) = (&s.v, &s.vt) else { return 0.1 };
    let mut e = f64::INFINITY;
    for t in t.chunks_exact(3) {
        for (a, b) in [(0, 1), (1, 2), (2, 0)] {
            let l = dist(d64(v[t[a] as usize]), d64(v[t[b] as usize]));
            if l > 0.0 {
                e = e.min(l);
            }
        }
    }
    if e.is_finite() {
        e
    } else {
        0.1
    }
}
fn c02_check(c: &mut Case, s: &Spec, p: &gen::Prec) {
    let specs = vec![(s.clone(), "m".to_string())];
    let Some((_, got)) = round(c, &specs, p) else { return };
    let v = s.v.as_ref().unwrap();
    let Some(g) = got[0].0.get_vertices().filter(|g| g.len() == v.len()) else {
        c.violation("count", format!("{} vertices became {:?}", v.len(), got[0].0.get_vertices().map(|g| g.len())));
        return;
    };
    if v.iter().any(|a| *a != v[0]) {
        c.nontrivial(&key(&specs, &format!("{}", p.p)));
    }
    let e = shortest_edge(s);
    let lim = p.p as f64 * e;
    // Rounding at the scale of the model, per axis.
    let mut slack = [0.0f64; 3];
    for a in v {
        let a = d64(*a);
        for k in 0..3 {
            slack[k] = slack[k].max(a[k].abs());
        }
    }
    let slack = slack.map(|m| 8.0 * EPS * m + 16.0 * F::MIN_POSITIVE as f64);
    let slack3 = (slack[0].powi(2) + slack[1].powi(2) + slack[2].powi(2)).sqrt().max(slack[0]).max(slack[1]).max(slack[2]);
    c.stat("vertices_compared", v.len() as u64);
    let mut worst = 0.0f64;
    for (i, (a, b)) in v.iter().zip(g).enumerate() {
        let d = dist(d64(*a), d64(*b));
        if !(d <= lim * (1.0 + 1e-5) + slack3) {
            c.violation("position", format!("vertex {i} {a:?} became {b:?}: moved by {d:e}, allowed {lim:e} (precision {} of edge {e:e}, rounding {slack3:e})", p.p));
            return;
        }
        if slack3 < lim * 1e-2 {
            worst = worst.max(d / lim);
        }
    }
    c.maxi("worst deviation / allowed", worst);
    let Some(t) = &s.vt else { return };
    let fine = |i: usize| {
        let (a, b) = (d64(v[i]), d64(g[i]));
        (0..3).all(|k| (a[k] - b[k]).abs() <= lim / 2.0 * (1.0 + 1e-5) + slack[k])
    };
    for t in t.chunks_exact(3) {
        for (a, b) in [(0, 1), (1, 2), (2, 0)] {
            let (i, j) = (t[a] as usize, t[b] as usize);
            let (l0, l1) = (dist(d64(v[i]), d64(v[j])), dist(d64(g[i]), d64(g[j])));
            c.stat("edges_compared", 1);
            let dev = (l0 - l1).abs();
            if dev <= lim * (1.0 + 1e-5) + 2.0 * slack3 {
                continue;
            }
            if fine(i) && fine(j) {
                // Both ends are within half of the allowed deviation along each axis, so at most sqrt(3) of it together.
                c.known("edge-length", format!("edge {:?}-{:?} of length {l0:e} became {l1:e}: {:.2} of the allowed deviation {lim:e}", v[i], v[j], dev / lim));
            } else {
                c.violation("edge-length", format!("edge {:?}-{:?} of length {l0:e} became {:?}-{:?} of length {l1:e}, allowed deviation {lim:e}", v[i], v[j], g[i], g[j]));
                return;
            }
        }
    }
}
fn c02(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = max_len(c).min(if r.one_in(10) { usize::MAX } else { 2000 });
    let mut s = Spec::default();
    let n = 1 + gen::len(&mut r, max - 1);
    let mut v = gen::vertices(&mut r, n);
    if r.one_in(4) {
        // A close pair of vertices makes a short edge.
        let e = r.log(-6.0, 0.0) as F;
        let i = r.us(n);
        let x = v[i];
        let m = x.0.abs().max(x.1.abs()).max(x.2.abs());
        v.push((x.0 + m * e, x.1, x.2));
    }
    let n = v.len() as u64;
    s.v = Some(v);
    match r.below(6) {
        0 => (),
        1 => s.vt = Some(vec![]),
        2 => {
            let k = gen::len(&mut r, 3000);
            s.vt = Some(gen::indices(&mut r, k, n));
        }
        3 => {
            // A few triangles only, so that the shortest edge is not tiny.
            let k = 3 * (1 + r.us(3));
            s.vt = Some((0..k).map(|_| r.below(n) as I).collect());
        }
        _ => {
            let k = gen::len(&mut r, 1000) * 3;
            s.vt = Some((0..k).map(|_| r.below(n) as I).collect());
        }
    }
    if let Some(t) = s.vt.as_mut().filter(|t| r.one_in(8) && t.len() >= 3) {
        // The same triangles over and over, and others after them.
        let k = t.len() / 3 * 3;
        let first: Vec<I> = t[..(3 * (1 + r.us(4))).min(k)].to_vec();
        let times = gen::len(&mut r, 40_000) / first.len();
        *t = first.repeat(times + 1).into_iter().chain(t.iter().copied()).collect();
    }
    let p = gen::prec(&mut r);
    c.sample(|| format!("{} shortest edge {:e} precision {}", s.shape(), shortest_edge(&s), p.p));
    c02_check(c, &s, &p);
}
fn c02_big(c: &mut Case) {
    // The shortest edge is the last one of many, then the first.
    let mut r = c.rng.clone();
    let n = if c.thorough { 300_000 } else { 70_000 }.min(I::MAX as usize - 3);
    for first in [false, true] {
        let mut v: Vec<V3> = (0..n).map(|i| ((i as f64 * 0.001 + 1.0) as F, (i % 7) as F * 10.0, r.uni(-3.0, 3.0) as F)).collect();
        v.extend([(5.0, 5.0, 5.0), (5.01, 5.0, 5.0), (5.0, 5.02, 5.0)]);
        let mut t: Vec<I> = (0..n / 3 * 3).map(|i| ((i * 7919 + (i % 3) * 31) % n) as I).collect();
        // Long edges only.
        t = t.chunks_exact(3).filter(|t| (0..3).all(|k| dist(d64(v[t[k] as usize]), d64(v[t[(k + 1) % 3] as usize])) > 1.0)).flatten().copied().collect();
        let last = [n as I, n as I + 1, n as I + 2];
        if first {
            t.splice(0..0, last);
        } else {
            t.extend(last);
        }
        let s = Spec { v: Some(v), vt: Some(t), ..Spec::default() };
        for p in [0.1, 0.9] {
            c02_check(c, &s, &gen::Prec { p: p as F, ..gen::Prec::default() });
        }
    }
}
fn c02_directed(c: &mut Case) {
    // Regular grids at every scale, thin in every combination of axes, and precisions next to powers of two.
    let mut r = c.rng.clone();
    for scale in [1e-15, 1e-9, 1e-6, 1e-3, 0.1, 1.0, 3.7, 1e3, 1e6, 1e12, 1e17] {
        for thin in 0..8 {
            for p in [1e-6, 1e-3, 0.0999, 0.1, 0.25, 0.5, 1.0, 2.0] {
                let mut s = Spec::default();
                s.v = Some(
                    (0..40)
                        .map(|_| {
                            let f = |k: u32, r: &mut Rng| (r.uni(-1.0, 1.0) * if thin >> k & 1 != 0 { scale * 1e-3 } else { scale }) as F;
                            (f(0, &mut r), f(1, &mut r), f(2, &mut r))
                        })
                        .collect(),
                );
                s.vt = Some((0..39).map(|i| i as I).collect());
                let p = gen::Prec { p: p as F, ..gen::Prec::default() };
                c02_check(c, &s, &p);
            }
        }
    }
}
// ---------------------------------------------------------------- C03, C04
pub const C03: Prop = Prop {
    id: "C03",
    rule: "Unit normals in all octants, along axes, near octant borders and poles, saved with deviations from 1e-9 to 400 degrees given in degrees or radians; length, signs and angle measured in double precision. Non-trivial: at least one normal.",
    directed: &[c03_big, c03_directed],
    run: c03,
};
pub const C04: Prop = Prop {
    id: "C04",
    rule: "Tangents with unit directions in all octants and both handednesses, saved with deviations from 1e-9 to 400 degrees; handedness, length, signs and angle compared. Non-trivial: at least one tangent.",
    directed: &[c04_big, c04_directed],
    run: c04,
};
fn angle(a: [f64; 3], b: [f64; 3]) -> f64 {
    let x = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let s = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
    s.atan2(a[0] * b[0] + a[1] * b[1] + a[2] * b[2])
}
/// Judges one direction. `d` is the allowed angle in radians.
fn check_dir(c: &mut Case, what: &str, i: usize, a: V3, b: V3, d: f64) -> bool {
    let (o, g) = (d64(a), d64(b));
    let fast = cfg!(feature = "fast_trig");
    let len = (g[0] * g[0] + g[1] * g[1] + g[2] * g[2]).sqrt();
    if !((len - 1.0).abs() <= if fast { 1e-3 } else { 1e-5 }) {
        c.violation("length", format!("{what} {i} {a:?} became {b:?} of length {len}"));
        return false;
    }
    for k in 0..3 {
        let noise = if fast { 1e-3 } else { 1e-6 };
        if (o[k] > 0.0 && g[k] < -noise) || (o[k] < 0.0 && g[k] > noise) || (o[k].abs() > noise && g[k] * o[k] < 0.0 && g[k].abs() > noise) {
            c.violation("sign", format!("{what} {i} {a:?} became {b:?}: component {k} changed its sign"));
            return false;
        }
    }
    let an = angle(o, g);
    let sin = (o[0] * o[0] + o[1] * o[1]).sqrt().max((g[0] * g[0] + g[1] * g[1]).sqrt());
    let mut slack = (20.0 * EPS + 4.0 * EPS / sin.max(1e-30)).min(2.0 * EPS.sqrt());
    if fast {
        slack += 0.03;
    }
    if an <= d * (1.0 + 1e-5) + slack {
        if d > 1e-3 && !fast {
            c.maxi("worst angle / allowed", an / d);
        }
        return true;
    }
    // The encoding stores the azimuth within an octant, and z, as fractions of 2^bits - 1. Close to the poles a step of z
    // is an angle bigger than allowed: known, as long as both are the closest that can be stored.
    let q = (std::f64::consts::FRAC_PI_2 / d).log2();
    let bits = (q - 1e-5).ceil().clamp(1.0, 63.0) as i32;
    let step = 1.0 / (2f64.powi(bits) - 1.0);
    let az = |v: [f64; 3]| v[0].abs().atan2(v[1].abs()) / std::f64::consts::FRAC_PI_2;
    let gxy = (g[0] * g[0] + g[1] * g[1]).sqrt();
    let az_slack = 8.0 * EPS + if fast { 2e-3 } else { 0.0 };
    let az_ok = gxy < 1e-6 || sin < 1e-6 || (az(o) - az(g)).abs() <= step / 2.0 * (1.0 + 1e-5) + az_slack;
    let z_ok = (o[2].abs() - g[2].abs()).abs() <= step / 2.0 * (1.0 + 1e-5) + 8.0 * EPS + if fast { 1e-3 } else { 0.0 };
    if az_ok && z_ok {
        c.known("pole", format!("{what} {a:?} saved with a maximal deviation of {:.5} degrees reads back {:.5} degrees off: {b:?}", d.to_degrees(), an.to_degrees()));
        return true;
    }
    c.violation("angle", format!("{what} {i} {a:?} became {b:?}: {:.7} degrees off, allowed {:.7}", an.to_degrees(), d.to_degrees()));
    false
}
fn c03_check(c: &mut Case, n: Vec<V3>, p: &gen::Prec) {
    let mut s = Spec::default();
    if !n.is_empty() {
        c.nontrivial(&key(&[], &format!("{n:?}{}{}", p.deg, p.rad)));
    }
    s.n = Some(n);
    let specs = vec![(s, "m".to_string())];
    let Some((_, got)) = round(c, &specs, p) else { return };
    let n = specs[0].0.n.as_ref().unwrap();
    let Some(g) = got[0].0.get_normals().filter(|g| g.len() == n.len()) else {
        c.violation("count", format!("{} normals became {:?}", n.len(), got[0].0.get_normals().map(|g| g.len())));
        return;
    };
    c.stat("normals_compared", n.len() as u64);
    for i in 0..n.len() {
        if !check_dir(c, "normal", i, n[i], g[i], p.norm_rad()) {
            return;
        }
    }
}
fn c03(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = gen::len(&mut r, max_len(c));
    let n = gen::units(&mut r, n);
    let p = gen::prec(&mut r);
    c.sample(|| format!("{} normals within {} {}", n.len(), p.deg, if p.rad { "radians" } else { "degrees" }));
    c03_check(c, n, &p);
}
/// More entries than 16 bits count.
fn big(c: &Case) -> usize {
    if c.thorough { 300_000 } else { 66_000 }.min(I::MAX as usize)
}
fn c03_big(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = (0..big(c)).map(|_| gen::unit(&mut r)).collect();
    c03_check(c, n, &gen::prec(&mut r));
}
fn c04_big(c: &mut Case) {
    let mut r = c.rng.clone();
    let t = (0..big(c)).map(|_| gen::tangent(&mut r)).collect();
    c04_check(c, t, &gen::prec(&mut r));
}
fn c05_big(c: &mut Case) {
    let mut r = c.rng.clone();
    let uv = (0..big(c)).map(|_| gen::uv(&mut r)).collect();
    c05_check(c, uv, &gen::prec(&mut r));
}
fn dirs() -> Vec<V3> {
    let mut out = vec![];
    for x in -3..=3 {
        for y in -3..=3 {
            for z in -3..=3 {
                let m = ((x * x + y * y + z * z) as f64).sqrt();
                if m > 0.0 {
                    out.push(((x as f64 / m) as F, (y as f64 / m) as F, (z as f64 / m) as F));
                }
            }
        }
    }
    out
}
const DEVS: [f64; 16] = [1e-7, 1e-4, 0.01, 0.1, 0.3515625, 0.5, 0.703125, 1.0, 1.40625, 2.0, 5.0, 11.25, 22.5, 45.0, 90.0, 100.0];
fn c03_directed(c: &mut Case) {
    for d in DEVS {
        for rad in [false, true] {
            let deg = if rad { d.to_radians() } else { d } as F;
            c03_check(c, dirs(), &gen::Prec { deg, rad, ..gen::Prec::default() });
        }
    }
}
fn c04_check(c: &mut Case, t: Vec<T4>, p: &gen::Prec) {
    let mut s = Spec::default();
    if !t.is_empty() {
        c.nontrivial(&key(&[], &format!("{t:?}{}{}", p.tdeg, p.trad)));
    }
    s.t = Some(t);
    let specs = vec![(s, "m".to_string())];
    let Some((_, got)) = round(c, &specs, p) else { return };
    let t = specs[0].0.t.as_ref().unwrap();
    let Some(g) = got[0].0.get_tangents().filter(|g| g.len() == t.len()) else {
        c.violation("count", format!("{} tangents became {:?}", t.len(), got[0].0.get_tangents().map(|g| g.len())));
        return;
    };
    c.stat("tangents_compared", t.len() as u64);
    for i in 0..t.len() {
        if t[i].1 != g[i].1 {
            c.violation("handedness", format!("tangent {i} {:?} became {:?}", t[i], g[i]));
            return;
        }
        if !check_dir(c, "tangent", i, t[i].0, g[i].0, p.tan_rad()) {
            return;
        }
    }
}
fn c04(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = gen::len(&mut r, max_len(c));
    let t = gen::tangents(&mut r, n);
    let p = gen::prec(&mut r);
    c.sample(|| format!("{} tangents within {} {}", t.len(), p.tdeg, if p.trad { "radians" } else { "degrees" }));
    c04_check(c, t, &p);
}
fn c04_directed(c: &mut Case) {
    for d in DEVS {
        for trad in [false, true] {
            let tdeg = if trad { d.to_radians() } else { d } as F;
            for k in 0..3 {
                let t = dirs().into_iter().enumerate().map(|(i, d)| (d, if [i % 2 == 0, true, false][k] { 1.0 } else { -1.0 })).collect();
                c04_check(c, t, &gen::Prec { tdeg, trad, ..gen::Prec::default() });
            }
        }
    }
}
// ---------------------------------------------------------------- C05
pub const C05: Prop = Prop {
    id: "C05",
    rule: "UVs in [0,1] (borders and texel centres likely) saved for texture resolutions 1 to 20000 and deviations from 1e-9 pixels to several textures; every component compared. Non-trivial: at least one UV.",
    directed: &[c05_big, c05_directed],
    run: c05,
};
fn c05_check(c: &mut Case, uv: Vec<V2>, p: &gen::Prec) {
    let mut s = Spec::default();
    if !uv.is_empty() {
        c.nontrivial(&key(&[], &format!("{uv:?}{}{}", p.res, p.dev)));
    }
    s.uv = Some(uv);
    let specs = vec![(s, "m".to_string())];
    let Some((_, got)) = round(c, &specs, p) else { return };
    let uv = specs[0].0.uv.as_ref().unwrap();
    let Some(g) = got[0].0.get_uvs().filter(|g| g.len() == uv.len()) else {
        c.violation("count", format!("{} UVs became {:?}", uv.len(), got[0].0.get_uvs().map(|g| g.len())));
        return;
    };
    c.stat("uvs_compared", uv.len() as u64);
    let lim = p.dev as f64 / p.res as f64;
    for (i, (a, b)) in uv.iter().zip(g).enumerate() {
        let d = (a.0 as f64 - b.0 as f64).abs().max((a.1 as f64 - b.1 as f64).abs());
        let range = (0.0..=1.0).contains(&b.0) && (0.0..=1.0).contains(&b.1);
        if !range || !(d <= lim * (1.0 + 1e-5) + 2.0 * EPS) {
            c.violation(if range { "deviation" } else { "range" }, format!("UV {i} {a:?} became {b:?}: moved by {d:e}, allowed {lim:e} ({} pixels of {})", p.dev, p.res));
            return;
        }
        if lim > 1e-4 {
            c.maxi("worst deviation / allowed", d / lim);
        }
    }
}
fn c05(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = gen::len(&mut r, max_len(c));
    let uv = gen::uvs(&mut r, n);
    let p = gen::prec(&mut r);
    c.sample(|| format!("{} UVs within {} pixels of {}", uv.len(), p.dev, p.res));
    c05_check(c, uv, &p);
}
fn c05_directed(c: &mut Case) {
    let mut uv = vec![];
    for x in 0..=64 {
        for y in [0.0, 0.3, 0.5, 1.0] {
            uv.push(((x as f64 / 64.0) as F, y as F));
            uv.push((y as F, (x as f64 / 64.0) as F));
        }
    }
    for res in [1.0f32, 2.0, 3.0, 100.0, 256.0, 1000.0, 1024.0, 4096.0, 8192.0, 16384.0] {
        for dev in [1e-6f32, 1e-3, 0.1, 0.125, 0.25, 0.3, 0.5, 1.0, 2.0, 7.0, 64.0] {
            c05_check(c, uv.clone(), &gen::Prec { res, dev, ..gen::Prec::default() });
        }
    }
}
// ---------------------------------------------------------------- C06
pub const C06: Prop = Prop {
    id: "C06",
    rule: "Up to 20 custom arrays of every kind per mesh, shared names included, names of 1 to 255 bytes of any UTF-8, values over the whole index type, floats up to 1e37 (1e300), any positive precision; lookups of every name and of similar absent names compared; what was read is saved and read again. Non-trivial: at least one array.",
    directed: &[c06_names, c06_extremes],
    run: c06,
};
pub fn c06_compare(c: &mut Case, name: &str, a: &CustomData, b: &CustomData) {
    if custom_kind(a) != custom_kind(b) {
        c.violation("kind", format!("custom data {name:?}: {} became {}", custom_kind(a), custom_kind(b)));
        return;
    }
    if custom_len(a) != custom_len(b) {
        c.violation("count", format!("custom data {name:?}: length {} became {}", custom_len(a), custom_len(b)));
        return;
    }
    c.stat("entries_compared", custom_len(a) as u64);
    match (a, b) {
        (CustomData::CustomIndex(x, m), CustomData::CustomIndex(y, _)) | (CustomData::CustomIntiger(x, m), CustomData::CustomIntiger(y, _)) => {
            if let Some(i) = (0..x.len()).find(|i| x[*i] != y[*i]) {
                c.violation("value", format!("custom {} {name:?}[{i}]: {} became {} (declared maximum {m})", custom_kind(a), x[i], y[i]));
            }
        }
        (CustomData::CustomFloat(x, p), CustomData::CustomFloat(y, _)) => {
            let scale = x.iter().fold(0.0f64, |m, v| m.max((*v as f64).abs()));
            let lim = *p as f64;
            for i in 0..x.len() {
                let d = (x[i] as f64 - y[i] as f64).abs();
                if !(d <= lim * (1.0 + 1e-5) + 8.0 * EPS * scale + F::MIN_POSITIVE as f64) {
                    c.violation("value", format!("custom float {name:?}[{i}]: {:e} became {:e}, off by {d:e}, precision {lim:e}", x[i], y[i]));
                    return;
                }
                if lim > 100.0 * EPS * scale {
                    c.maxi("worst float deviation / precision", d / lim);
                }
            }
        }
        (CustomData::CustomColorRGBA(x, p), CustomData::CustomColorRGBA(y, _)) => {
            let lim = *p as f64;
            for i in 0..x.len() {
                let (u, v) = ([x[i].0, x[i].1, x[i].2, x[i].3], [y[i].0, y[i].1, y[i].2, y[i].3]);
                for k in 0..4 {
                    let d = (u[k] as f64 - v[k] as f64).abs();
                    if !(d <= lim * (1.0 + 1e-5) + 2.0 * EPS) {
                        c.violation("value", format!("custom colour {name:?}[{i}].{k}: {} became {}, precision {lim:e}", u[k], v[k]));
                        return;
                    }
                }
            }
        }
        _ => unreachable!(),
    }
}
/// The precision or maximum stated by an array which was read.
pub fn c06_declared(c: &mut Case, name: &str, a: &CustomData, b: &CustomData) {
    match (a, b) {
        (CustomData::CustomIndex(..), CustomData::CustomIndex(y, m)) | (CustomData::CustomIntiger(..), CustomData::CustomIntiger(y, m)) => {
            if let Some(v) = y.iter().find(|v| **v as u64 > *m as u64) {
                c.violation("declared", format!("custom {} {name:?} was read with the declared maximum {m} and contains {v}", custom_kind(b)));
            }
        }
        (CustomData::CustomFloat(x, p), CustomData::CustomFloat(_, q)) => {
            let scale = x.iter().fold(0.0f64, |m, v| m.max((*v as f64).abs()));
            let lim = (*p as f64) * (1.0 + 1e-5) + 8.0 * EPS * scale + F::MIN_POSITIVE as f64;
            if !x.is_empty() && !(*q >= 0.0 && *q as f64 <= lim) {
                c.violation("declared", format!("custom float {name:?} saved with precision {p:e} states precision {q:e} after reading"));
            }
        }
        (CustomData::CustomColorRGBA(x, p), CustomData::CustomColorRGBA(_, q)) => {
            let lim = (*p as f64) * (1.0 + 1e-5) + 2.0 * EPS;
            if !x.is_empty() && !(*q >= 0.0 && *q as f64 <= lim) {
                c.violation("declared", format!("custom colour {name:?} saved with precision {p:e} states precision {q:e} after reading"));
            }
        }
        _ => {}
    }
}
fn c06_check(c: &mut Case, s: Spec, p: &gen::Prec) {
    if !s.custom.is_empty() {
        c.nontrivial(&key(&[(s.clone(), String::new())], ""));
    }
    let specs = vec![(s, "m".to_string())];
    let Some((_, got)) = round(c, &specs, p) else { return };
    let g = &got[0].0;
    let s = &specs[0].0;
    let m = s.mesh();
    let mut seen: Vec<&str> = vec![];
    for (name, _) in &s.custom {
        if seen.contains(&name.as_str()) {
            c.stat("shared_names", 1);
            continue;
        }
        seen.push(name);
        let first = &s.custom.iter().find(|(n, _)| n == name).unwrap().1;
        // Before saving, a lookup gives the first array added under the name.
        match m.lookup_custom_data(name) {
            Some(d) => {
                let (mut x, mut y) = (vec![], vec![]);
                custom_bytes(&mut x, first);
                custom_bytes(&mut y, d);
                if x != y {
                    c.violation("lookup", format!("{name:?} does not resolve to the first array added under it"));
                }
            }
            None => c.violation("lookup", format!("{name:?} was added and is not found")),
        }
        match g.lookup_custom_data(name) {
            Some(d) => c06_compare(c, name, first, d),
            None => c.violation("missing", format!("custom data {name:?} ({}) is missing after reading", custom_kind(first))),
        }
        c.stat("lookups", 1);
    }
    // What was read states how precise it is, and can be saved again as precisely.
    let mut again = Spec::default();
    for name in &seen {
        let first = &s.custom.iter().find(|(n, _)| n == name).unwrap().1;
        if let Some(d) = g.lookup_custom_data(name) {
            c06_declared(c, name, first, d);
            again.custom.push((name.to_string(), d.clone()));
        }
    }
    if !again.custom.is_empty() && c.out.violations.is_empty() {
        let specs2 = vec![(again, "m".to_string())];
        let Some((_, got2)) = round(c, &specs2, p) else { return };
        for (name, d) in &specs2[0].0.custom {
            match got2[0].0.lookup_custom_data(name) {
                Some(d2) => {
                    c06_compare(c, name, d, d2);
                    c06_declared(c, name, d, d2);
                }
                None => c.violation("missing", format!("custom data {name:?} ({}) is missing after reading, saving and reading", custom_kind(d))),
            }
            c.stat("second_generation_arrays", 1);
        }
    }
    // Names which were not added are not found.
    for (name, _) in &s.custom {
        let mut other = vec![format!("{name}\u{0}"), format!(" {name}"), format!("{name} "), name.to_uppercase()];
        if let Some((i, _)) = name.char_indices().last() {
            other.push(name[..i].to_string());
        }
        for o in other {
            if !s.custom.iter().any(|(n, _)| *n == o) {
                if g.lookup_custom_data(&o).is_some() {
                    c.violation("lookup", format!("{o:?} was never added and is found"));
                }
                c.stat("lookups_of_absent_names", 1);
            }
        }
    }
}
fn c06(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut s = if r.one_in(5) { gen::nice_mesh(&mut r, 100) } else { Spec::default() };
    let max = max_len(c);
    s.custom = if r.one_in(30) {
        let k = 1 + r.us(20);
        (0..k).map(|_| (gen::custom_name(&mut r), gen::custom(&mut r, 200))).collect()
    } else {
        gen::customs(&mut r, max)
    };
    if s.custom.is_empty() {
        s.custom.push((gen::custom_name(&mut r), gen::custom(&mut r, max)));
    }
    let p = gen::prec(&mut r);
    c.sample(|| s.custom.iter().map(|(n, d)| format!("{:?} {} x{}", n.chars().take(20).collect::<String>(), custom_kind(d), custom_len(d))).collect::<Vec<_>>().join(", "));
    c06_check(c, s, &p);
}
fn c06_names(c: &mut Case) {
    for n in 0..600usize {
        for ch in ["n", "ł", "€", "🦀"] {
            if n % ch.len() != 0 && ch.len() > 1 {
                continue;
            }
            let name = ch.repeat(n / ch.len());
            let mut m = TMFMesh::empty();
            let Some(r) = c.lib("add_custom_data", || m.add_custom_data(CustomData::CustomIndex(vec![3].into(), 3), &name)) else { return };
            let ok = (1..=255).contains(&name.len());
            if r.is_ok() != ok {
                c.violation("name-length", format!("a name of {} bytes is {}", name.len(), if ok { "refused" } else { "accepted" }));
                return;
            }
            if m.lookup_custom_data(&name).is_some() != ok {
                c.violation("name-length", format!("a name of {} bytes is looked up wrong", name.len()));
            }
            if ok {
                let mut s = Spec::default();
                s.custom.push((name.clone(), CustomData::CustomIndex(vec![1, 2, 3].into(), 3)));
                c06_check(c, s, &gen::Prec::default());
            } else {
                c.stat("names_refused", 1);
            }
        }
    }
}
fn c06_extremes(c: &mut Case) {
    let big = (I::MAX as u64).min(u64::MAX >> 1);
    let mut ints: Vec<Vec<I>> = vec![vec![], vec![0], vec![big as I], vec![0, big as I], vec![big as I, big as I - 1]];
    for b in 0..63u32 {
        if (1u64 << b) <= big {
            let v = (1u64 << b) as I;
            ints.push(vec![v - 1, v, 0]);
            ints.push(vec![v, v]);
            ints.push(vec![v - 1]);
        }
    }
    for v in ints {
        let top = v.iter().max().copied().unwrap_or(0) as usize;
        for m in [top, top + 1, top.saturating_mul(2) + 1, usize::MAX >> 1] {
            let mut s = Spec::default();
            s.custom.push(("a".into(), CustomData::CustomIndex(v.clone().into(), m)));
            s.custom.push(("b".into(), CustomData::CustomIntiger(v.clone().into(), m)));
            s.custom.push(("a".into(), CustomData::CustomFloat(vec![1.0].into(), 0.1)));
            c06_check(c, s, &gen::Prec::default());
        }
    }
    let floats: Vec<Vec<F>> = vec![
        vec![], vec![0.0], vec![-0.0, 0.0], vec![1.0; 4], vec![-1.0, 1.0], vec![0.0, 1.0], vec![1e18, -1e18], vec![1e-30, 2e-30], vec![5.0, 5.0, 5.25], vec![-7.0, -7.5], vec![1e18], vec![0.1, 0.2, 0.3],
        (0..1000).map(|i| (i as F).sin()).collect(),
    ];
    for v in floats {
        for p in [1e-30, 1e-20, 1e-12, 1e-6, 1e-3, 0.01, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1.0, 1.5, 2.0, 10.0, 1e6, 1e18, 1e30] {
            let mut s = Spec::default();
            s.custom.push(("f".into(), CustomData::CustomFloat(v.clone().into(), p as F)));
            let k = |x: F| (x.abs() % 1.0).min(1.0);
            s.custom.push(("c".into(), CustomData::CustomColorRGBA(v.iter().map(|x| (k(*x), 1.0, 0.0, 1.0 - k(*x))).collect(), p as F)));
            c06_check(c, s, &gen::Prec::default());
        }
    }
}
// ---------------------------------------------------------------- C09
pub const C09: Prop = Prop {
    id: "C09",
    rule: "Mesh lists as for C01 and C06 are written, decoded by an independent strict decoder of the published layout, and compared with what the library reads from the same bytes. Non-trivial: the file has at least one segment with entries.",
    directed: &[],
    run: c09,
};
/// Compares what the library read with the values a file encodes.
pub fn compare_data(c: &mut Case, what: &str, d: &codec::Data, m: &TMFMesh) {
    fn len<T>(a: &Option<Vec<T>>) -> Option<usize> {
        a.as_ref().map(|a| a.len())
    }
    let g = Spec::of(m);
    let dl = [len(&d.v), len(&d.n), len(&d.uv), len(&d.t), len(&d.vt), len(&d.nt), len(&d.ut), len(&d.tt)];
    if dl != lens(&g) {
        c.violation("arrays", format!("{what}: the file encodes arrays of lengths {dl:?}, the library reads {:?} (vertices, normals, UVs, tangents, and their indices)", lens(&g)));
        return;
    }
    for (name, a, b) in [("vertex", &d.vt, &g.vt), ("normal", &d.nt, &g.nt), ("UV", &d.ut, &g.ut), ("tangent", &d.tt, &g.tt)] {
        if let (Some(a), Some(b)) = (a, b) {
            if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i] as u64) {
                c.violation("indices", format!("{what}: {name} index {i} is {} in the file, and read as {}", a[i], b[i]));
                return;
            }
            c.stat("indices_compared", a.len() as u64);
        }
    }
    if let (Some(a), Some(b)) = (&d.v, &g.v) {
        c.stat("values_compared", a.len() as u64);
        for i in 0..a.len() {
            let v = d64(b[i]);
            for k in 0..3 {
                let tol = 6.0 * EPS * d.v_scale[i] + 4.0 * F::MIN_POSITIVE as f64;
                if !((a[i][k] - v[k]).abs() <= tol) {
                    c.violation("vertex", format!("{what}: vertex {i} is {:?} in the file, and read as {:?}", a[i], b[i]));
                    return;
                }
            }
        }
    }
    let near = |a: [f64; 3], b: V3| {
        let m = (a[0] * a[0] + a[1] * a[1]).sqrt();
        let tol = if cfg!(feature = "fast_trig") { 4e-3 } else { (8.0 * EPS + 8.0 * EPS / m.max(1e-30)).min(4.0 * EPS.sqrt()) };
        let b = d64(b);
        (0..3).all(|k| (a[k] - b[k]).abs() <= tol)
    };
    if let (Some(a), Some(b)) = (&d.n, &g.n) {
        c.stat("values_compared", a.len() as u64);
        if let Some(i) = (0..a.len()).find(|i| !near(a[*i], b[*i])) {
            c.violation("normal", format!("{what}: normal {i} is {:?} in the file, and read as {:?}", a[i], b[i]));
            return;
        }
    }
    if let (Some(a), Some(b)) = (&d.t, &g.t) {
        c.stat("values_compared", a.len() as u64);
        if let Some(i) = (0..a.len()).find(|i| !near(a[*i].0, b[*i].0) || a[*i].1 != b[*i].1 as f64) {
            c.violation("tangent", format!("{what}: tangent {i} is {:?} in the file, and read as {:?}", a[i], b[i]));
            return;
        }
    }
    if let (Some(a), Some(b)) = (&d.uv, &g.uv) {
        c.stat("values_compared", a.len() as u64);
        if let Some(i) = (0..a.len()).find(|i| !((a[*i][0] - b[*i].0 as f64).abs() <= 4.0 * EPS && (a[*i][1] - b[*i].1 as f64).abs() <= 4.0 * EPS)) {
            c.violation("uv", format!("{what}: UV {i} is {:?} in the file, and read as {:?}", a[i], b[i]));
            return;
        }
    }
    let mut seen: Vec<&[u8]> = vec![];
    for (name, x) in &d.custom {
        if seen.contains(&&name[..]) {
            continue;
        }
        seen.push(name);
        let Ok(n) = std::str::from_utf8(name) else { continue };
        let Some(y) = m.lookup_custom_data(n) else {
            c.violation("custom", format!("{what}: custom data {n:?} is in the file and was not read"));
            return;
        };
        c.stat("custom_compared", 1);
        let same = match (x, y) {
            (codec::DCustom::Index(a), CustomData::CustomIndex(b, _)) | (codec::DCustom::Integer(a), CustomData::CustomIntiger(b, _)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| *a == *b as u64),
            (codec::DCustom::Float(a, s), CustomData::CustomFloat(b, _)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| (*a - *b as f64).abs() <= 4.0 * EPS * s + F::MIN_POSITIVE as f64),
            (codec::DCustom::Rgba(a), CustomData::CustomColorRGBA(b, _)) => {
                a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| [b.0, b.1, b.2, b.3].iter().zip(a).all(|(b, a)| (*a - *b as f64).abs() <= 4.0 * EPS))
            }
            _ => false,
        };
        if !same {
            c.violation("custom", format!("{what}: custom data {n:?} is read differently from what the file encodes"));
            return;
        }
    }
}
fn c09(c: &mut Case) {
    let mut r = c.rng.clone();
    let specs = mesh_list(&mut r, max_len(c));
    let p = gen::prec(&mut r);
    let Some((bytes, got)) = round(c, &specs, &p) else { return };
    let f = match codec::decode(&bytes) {
        Ok(f) => f,
        Err(e) => {
            c.violation("layout", format!("the written file does not conform to the layout: {e} ({})", shapes(&specs)));
            return;
        }
    };
    if f.used != bytes.len() {
        c.violation("trailing", format!("{} bytes follow the last segment", bytes.len() - f.used));
    }
    if f.meshes.len() != specs.len() {
        c.violation("mesh-count", format!("{} meshes are declared, {} were written", f.meshes.len(), specs.len()));
        return;
    }
    // Narrow segment headers and the base of indices need 0.2.
    if f.ver[2] != 0 || f.ver[3] != 2 || (f.ver[0], f.ver[1]) < (f.ver[2], f.ver[3]) {
        c.violation("version", format!("declared versions {:?}", f.ver));
    }
    for (i, (fm, (m, n))) in f.meshes.iter().zip(&got).enumerate() {
        if fm.name != n.as_bytes() {
            c.violation("name", format!("mesh {i} is named {:?} in the file, and read as {n:?}", String::from_utf8_lossy(&fm.name)));
        }
        if let Some(s) = fm.segs.iter().find(|s| matches!(s, codec::Seg::Unknown(..))) {
            c.violation("type", format!("a segment of unknown type was written: {s:?}"));
        }
        if fm.segs.iter().any(|s| !matches!(s, codec::Seg::Unknown(..))) {
            c.nontrivial(&hash_bytes(i as u64, &bytes).to_le_bytes());
        }
        c.stat("segments_decoded", fm.segs.len() as u64);
        compare_data(c, &format!("mesh {i}"), &codec::eval(fm), m);
    }
    c.sample(|| format!("{} bytes, segments {:?}", bytes.len(), f.meshes.iter().map(|m| m.segs.len()).collect::<Vec<_>>()));
}
// ---------------------------------------------------------------- C12
pub const C12: Prop = Prop {
    id: "C12",
    rule: "Meshes verify accepts, with triangle lists that are empty, degenerate, repeated, incomplete or ordinary, of up to 100000 entries (a million in the thorough tier), coordinates up to 1e37 (1e300), any precision setting (zero, negative, infinite and NaN included) are written and read back. Non-trivial: verify accepted the mesh.",
    directed: &[c12_directed, c12_runs, c12_long],
    run: c12,
};
fn c12_check(c: &mut Case, s: &Spec, info: &tmf::TMFPrecisionInfo, what: &str) {
    let m = s.mesh_via(&mut c.rng.clone());
    match c.lib("verify", || m.verify()) {
        Some(Ok(())) => (),
        _ => {
            c.stat("not_verified", 1);
            return;
        }
    }
    c.nontrivial(&key(&[(s.clone(), what.into())], ""));
    let ms = vec![(m, "m".to_string())];
    let Some(w) = c.lib("write_tmf", || gen::write(&ms, info)) else { return };
    let b = match w {
        Ok(b) => b,
        Err(e) => {
            c.violation("write-error", format!("a verified mesh ({}) could not be written: {e} ({what})", s.shape()));
            return;
        }
    };
    match c.lib("read_tmf", || gen::read(&b)) {
        Some(Ok(g)) if g.len() == 1 => {
            if let Some(Err(e)) = c.lib("verify", || g[0].0.verify()) {
                c.violation("verify", format!("a verified mesh ({}) no longer verifies after a round trip: {e} ({what})", s.shape()));
            }
            c.stat("verified_after_round_trip", 1);
        }
        Some(Ok(g)) => c.violation("mesh-count", format!("1 mesh became {}", g.len())),
        Some(Err(e)) => c.violation("read-error", format!("a verified mesh ({}) does not read back: {e} ({what})", s.shape())),
        None => (),
    }
}
/// Long arrays which change their range over and over, on a stack of the default size of a thread.
fn c12_runs(c: &mut Case) {
    let n = if c.thorough { 120_000 } else { 45_000 }.min(I::MAX as usize) / 3 * 3;
    for k in 0..6 {
        let mut r = Rng::new(c.rng.u64());
        let mut s = Spec::default();
        s.v = Some(match k {
            0 => (0..n)
                .map(|i| match i % 8 {
                    0 => (1e6, -1.0, -1.0),
                    1 | 2 => (1e6, 1.0, 1.0),
                    4 => (-1.0, 1e6, -1.0),
                    5 | 6 => (1.0, 1e6, 1.0),
                    _ => (0.1, 0.1, 0.1),
                })
                .collect(),
            1 | 2 => gen::vertex_runs(&mut r, n),
            _ => gen::vertices(&mut r, n),
        });
        s.vt = Some(match k {
            3 => {
                let hi = (n - 1) as I;
                (0..n).map(|i| [500.min(hi), 1, 500.min(hi), hi][i / 9 % 4]).collect()
            }
            _ => gen::index_runs(&mut r, n, n as u64),
        });
        let m = s.mesh();
        if !matches!(lib(|| m.verify()), Ok(Ok(()))) {
            continue;
        }
        c.nontrivial(&s.hash().to_le_bytes());
        let t = std::time::Instant::now();
        let done = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || lib(|| {
                let b = gen::write(&[(m, "m".to_string())], &Default::default()).map_err(|e| format!("is not written: {e}"))?;
                let g = gen::read(&b).map_err(|e| format!("does not read back: {e}"))?;
                g[0].0.verify().map_err(|e| format!("no longer verifies: {e}"))
            }))
            .expect("thread")
            .join()
            .expect("caught");
        c.maxi("seconds_for_runs", t.elapsed().as_secs_f64());
        match done {
            Ok(Ok(())) => c.stat("verified_after_round_trip", 1),
            Ok(Err(e)) => c.violation("runs", format!("a verified mesh of {n} vertices and indices in short runs {e}")),
            Err(LibPanic(m)) => c.violation("panic:runs", format!("a verified mesh of {n} vertices and indices in short runs makes writing panic: {m}")),
        }
    }
}
/// Long index arrays of every kind, the ends of which need not be whole triangles.
fn c12_long(c: &mut Case) {
    let mut r = c.rng.clone();
    let info = tmf::TMFPrecisionInfo::default();
    let sizes: &[usize] = if c.thorough { &[999, 4096, 32_767, 65_535, 131_070, 300_000, 999_999] } else { &[999, 4096, 32_767, 99_999] };
    for n in sizes.iter().copied() {
        for extra in 0..3 {
            for kind in 0..5 {
                let nv = *r.pick(&[1u64, 2, 3, 7, 1000, n as u64 / 3]);
                let nv = nv.min(I::MAX as u64);
                let k = n + extra;
                let list: Vec<I> = match kind {
                    0 => vec![r.below(nv) as I; k],
                    1 => (0..k).map(|i| (i as u64 % nv) as I).collect(),
                    2 => (0..k).map(|i| (i as u64 / 3 % nv) as I).collect(),
                    3 => (0..k).map(|_| r.below(nv) as I).collect(),
                    _ => (0..k).map(|i| (i as u64 / 2 % nv) as I).collect(),
                };
                let mut s = Spec { v: Some(gen::vertices(&mut r, nv as usize)), vt: Some(list.clone()), ..Spec::default() };
                match r.below(3) {
                    0 => (s.n, s.nt) = (Some(gen::units(&mut r, nv as usize)), Some(list)),
                    1 => (s.uv, s.ut) = (Some(gen::uvs(&mut r, nv as usize)), Some(list[..r.us(k)].to_vec())),
                    _ => (),
                }
                c12_check(c, &s, &info, "long");
            }
        }
    }
}
fn weird_info(r: &mut Rng) -> (tmf::TMFPrecisionInfo, String) {
    let mut w = || -> F {
        match r.below(10) {
            0 => 0.0,
            1 => -1.0,
            2 => F::INFINITY,
            3 => F::NAN,
            4 => F::MIN_POSITIVE,
            5 => F::MAX,
            6 => -0.0,
            7 => F::NEG_INFINITY,
            _ => r.log(-30.0, 30.0) as F,
        }
    };
    let v = [w(), w(), w(), w(), w()];
    (
        tmf::TMFPrecisionInfo {
            vertex_precision: tmf::VertexPrecisionMode(v[0]),
            normal_precision: if v[4] > 1.0 { tmf::NormalPrecisionMode::from_rad_dev(v[1]) } else { tmf::NormalPrecisionMode::from_deg_dev(v[1]) },
            uv_prec: tmf::UvPrecisionMode::form_texture_resolution(v[2] as f32, v[4] as f32),
            tangent_prec: if v[4] > 1.0 { tmf::TangentPrecisionMode::from_rad_dev(v[3]) } else { tmf::TangentPrecisionMode::from_deg_dev(v[3]) },
        },
        format!("{v:?}"),
    )
}
fn c12(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = max_len(c);
    let mut s = gen::nice_mesh(&mut r, max.min(3000));
    let (nv, nn, nu) = (s.v.as_ref().map_or(0, |a| a.len()) as u64, s.n.as_ref().map_or(0, |a| a.len()) as u64, s.uv.as_ref().map_or(0, |a| a.len()) as u64);
    if r.one_in(6) {
        s = Spec { custom: gen::customs(&mut r, 50), ..s };
    }
    // Triangle lists of every kind, lengths that need not agree.
    let list = |r: &mut Rng, n: u64| -> Option<Vec<I>> {
        if n == 0 {
            return None;
        }
        let most = if r.one_in(4) { 70_000 } else { 2000 };
        let k = gen::len(r, most);
        Some(match r.below(8) {
            0 => vec![],
            1 => vec![r.below(n) as I; k],
            2 => {
                // Degenerate: two equal corners.
                (0..k).flat_map(|_| { let (a, b) = (r.below(n) as I, r.below(n) as I); [a, a, b] }).collect()
            }
            3 => {
                let a = [r.below(n) as I, r.below(n) as I, r.below(n) as I];
                (0..k).flat_map(|_| a).collect()
            }
            4 => gen::indices(r, k / 3 * 3 + 1, n),
            5 => gen::indices(r, k / 3 * 3 + 2, n),
            6 => gen::indices(r, k / 3 * 3, n),
            _ => return None,
        })
    };
    if r.bool() {
        if r.one_in(8) {
            s.v = Some(vec![]);
            s.vt = Some(vec![]);
        } else {
            s.vt = list(&mut r, nv);
        }
        s.nt = list(&mut r, nn);
        s.ut = list(&mut r, nu);
    }
    if let Some(n) = &mut s.n {
        // Anything verify takes for a unit vector.
        if r.bool() {
            for v in n.iter_mut() {
                let k = (1.0 + r.uni(-0.00099, 0.00099)) as F;
                *v = (v.0 * k, v.1 * k, v.2 * k);
            }
        }
    }
    if r.one_in(6) {
        let t = [F::NAN, 0.0, 1e18, -1e18, F::INFINITY, 1.0];
        s.t = Some((0..r.us(20)).map(|_| ((*r.pick(&t), *r.pick(&t), *r.pick(&t)), *r.pick(&t))).collect());
    }
    let (info, what) = if r.one_in(3) {
        weird_info(&mut r)
    } else {
        let p = gen::prec(&mut r);
        (p.info(), format!("{p:?}"))
    };
    c.sample(|| format!("{} {what}", s.shape()));
    c12_check(c, &s, &info, &what);
}
fn c12_directed(c: &mut Case) {
    let mut r = c.rng.clone();
    let info = tmf::TMFPrecisionInfo::default();
    for n in 0..8usize {
        for k in 0..10usize {
            for scale in [0.0, 1e-45, 1e-30, 1e-18, 1.0, 1e17] {
                let mut s = Spec::default();
                s.v = Some((0..n).map(|_| { let mut f = || (r.uni(-1.0, 1.0) * scale) as F; (f(), f(), f()) }).collect());
                for mode in 0..4 {
                    let k = if n == 0 { 0 } else { k };
                    s.vt = Some((0..k).map(|i| match mode { 0 => 0, 1 => (i % n) as I, 2 => (i / 2 % n) as I, _ => (n - 1) as I }).collect());
                    c12_check(c, &s, &info, "directed");
                }
            }
        }
    }
}
// ---------------------------------------------------------------- C21
pub const C21: Prop = Prop {
    id: "C21",
    rule: "Mesh lists are written repeatedly, from clones, on other threads, one by one and in lists (bytes compared); several files are put back to back in one stream and read one after the other through a counting source. Digests are also compared between processes. Non-trivial: at least one segment was written.",
    directed: &[],
    run: c21,
};
struct Counted<'a>(&'a [u8], usize, usize);
impl Read for Counted<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len() - self.1).min(self.2.max(1));
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn c21(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = max_len(c).min(if r.one_in(8) { usize::MAX } else { 3000 });
    let specs = mesh_list(&mut r, max);
    let p = gen::prec(&mut r);
    let ms = meshes(&specs);
    let before: Vec<u64> = ms.iter().zip(&specs).map(|((m, _), (s, _))| Spec::of_with(m, &names(s)).hash()).collect();
    let info = p.info();
    let Some(Ok(bytes)) = c.lib("write_tmf", || gen::write(&ms, &info)) else { return };
    c.nontrivial(&hash_bytes(0, &bytes).to_le_bytes());
    c.digest(hash_bytes(3, &bytes));
    // Unchanged by writing.
    for (i, ((m, n), (s, n0))) in ms.iter().zip(&specs).enumerate() {
        if Spec::of_with(m, &names(s)).hash() != before[i] || n != n0 {
            c.violation("pure", format!("writing changed mesh {i} ({})", s.shape()));
        }
    }
    // Same bytes again: repeated, clone, rebuilt, other thread (concurrently), tiny sinks.
    let clone = ms.clone();
    let rebuilt = meshes_via(&specs, 1 + c.idx);
    let other: Option<Vec<u8>> = if r.one_in(6) {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..3).map(|_| s.spawn(|| lib(|| gen::write(&clone, &p.info())).ok().and_then(|r| r.ok()))).collect();
            let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            if rs.windows(2).any(|w| w[0] != w[1]) {
                Some(vec![])
            } else {
                rs.into_iter().next().unwrap()
            }
        })
    } else {
        Some(bytes.clone())
    };
    // After other calls, most of which fail.
    if r.one_in(4) {
        crate::p_read::disturb(c, &mut r, &ms, &info);
        let b = c.lib("write_tmf", || gen::write(&ms, &info)).and_then(|r| r.ok());
        c.stat("rewrites_compared", 1);
        if b.as_ref() != Some(&bytes) {
            c.violation("determinism", format!("writing after other calls which failed gives other bytes ({})", shapes(&specs)));
        }
    }
    for (what, b) in [
        ("a second time", c.lib("write_tmf", || gen::write(&ms, &info)).and_then(|r| r.ok())),
        ("from clones", c.lib("write_tmf", || gen::write(&clone, &info)).and_then(|r| r.ok())),
        ("from rebuilt meshes with settings made anew", c.lib("write_tmf", || gen::write(&rebuilt, &p.info())).and_then(|r| r.ok())),
        ("on other threads", other),
    ] {
        c.stat("rewrites_compared", 1);
        if b.as_ref() != Some(&bytes) {
            c.violation("determinism", format!("writing {what} gives other bytes ({})", shapes(&specs)));
        }
    }
    // A list stores each mesh as writing it alone does.
    let mut joined = bytes[..15.min(bytes.len())].to_vec();
    for i in 0..ms.len() {
        let Some(Ok(one)) = c.lib("write_tmf", || gen::write(&ms[i..i + 1], &info)) else { return };
        if one.len() < 15 || bytes.len() < 15 || one[..11] != bytes[..11] {
            c.violation("list", "the header of a file depends on its meshes");
            return;
        }
        joined.extend(&one[15..]);
    }
    if joined != bytes {
        c.violation("list", format!("meshes of a list are stored differently from those written alone ({})", shapes(&specs)));
    }
    // Back to back.
    let k = 2 + r.us(3);
    let mut files = vec![bytes.clone()];
    for _ in 1..k {
        let s = vec![(gen::any_mesh(&mut r, 200), gen::name(&mut r, 100))];
        let Some(Ok(b)) = c.lib("write_tmf", || gen::write(&meshes(&s), &info)) else { return };
        files.push(b);
    }
    r.shuffle(&mut files);
    let mut stream: Vec<u8> = files.concat();
    stream.extend(b"TMFtail");
    let chunk = *r.pick(&[1usize, 7, 4096, usize::MAX]);
    let mut src = Counted(&stream, 0, chunk);
    let mut end = 0;
    let all: Vec<String> = specs.iter().flat_map(|(s, _)| names(s)).collect();
    for (i, f) in files.iter().enumerate() {
        end += f.len();
        let Some(got) = c.lib("read_tmf", || TMFMesh::read_tmf(&mut src)) else { return };
        let alone = gen::read(f);
        if src.1 != end {
            c.violation("delimit", format!("reading file {i} of a stream left the source at byte {}, not {end}", src.1));
            return;
        }
        if result_digest(&got, &all) != result_digest(&alone, &all) {
            c.violation("delimit", format!("file {i} of a stream reads differently from the file alone"));
            return;
        }
        c.stat("files_read_from_streams", 1);
    }
    c.sample(|| format!("{} meshes, {} bytes, stream of {} files in chunks of {chunk}", ms.len(), bytes.len(), files.len()));
}
pub fn names(s: &Spec) -> Vec<String> {
    s.custom.iter().map(|(n, _)| n.clone()).collect()
}
// ---------------------------------------------------------------- C25
pub const C25: Prop = Prop {
    id: "C25",
    rule: "TMF and OBJ files with 0 to 5 meshes, and broken ones, are read by the single and the multiple mesh readers and the results compared; single and list writers are compared byte by byte. Non-trivial: the multiple mesh reader succeeded.",
    directed: &[],
    run: c25,
};
fn c25(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = r.us(6).min(r.us(4));
    let specs: Vec<(Spec, String)> = (0..n).map(|_| (if r.bool() { gen::nice_mesh(&mut r, 60) } else { gen::any_mesh(&mut r, 60) }, gen::name(&mut r, 50))).collect();
    let ms = meshes(&specs);
    let p = gen::prec(&mut r);
    let info = p.info();
    let Some(Ok(mut b)) = c.lib("write_tmf", || gen::write(&ms, &info)) else { return };
    if r.one_in(8) && !b.is_empty() {
        let k = r.us(b.len());
        match r.below(3) {
            0 => b.truncate(k),
            1 => b[k] ^= 1 << r.us(8),
            _ => b.push(0),
        }
        if codec::zero_width(&b) > 1 << 20 {
            return;
        }
    }
    let all: Vec<String> = specs.iter().flat_map(|(s, _)| names(s)).collect();
    let Some(multi) = c.lib("read_tmf", || gen::read(&b)) else { return };
    let want: Result<gen::Named, tmf::TMFImportError> = match multi {
        Ok(l) if l.is_empty() => Err(tmf::TMFImportError::NoMeshes),
        Ok(l) if l.len() > 1 => Err(tmf::TMFImportError::TooManyMeshes),
        x => x,
    };
    if want.is_ok() {
        c.stat("single", 1);
    }
    c.nontrivial(&hash_bytes(0, &b).to_le_bytes());
    let want_d = result_digest(&want, &all);
    let sync = c.lib("read_tmf_one", || TMFMesh::read_tmf_one(&mut &b[..]));
    let asy = c.lib("read_tmf_one_async", || futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut &b[..])));
    for (what, g) in [("read_tmf_one", sync), ("read_tmf_one_async", asy)] {
        let Some(g) = g else { return };
        let g = g.map(|m| vec![m]);
        if result_digest(&g, &all) != want_d {
            let show = |r: &Result<gen::Named, tmf::TMFImportError>| match r {
                Ok(_) => "the mesh".to_string(),
                Err(e) => err_kind(e),
            };
            c.violation("tmf-one", format!("{what} of a file with {n} meshes gives {}, expected {}", show(&g), show(&want)));
        }
        c.stat("compared", 1);
    }
    // Writers.
    for i in 0..ms.len() {
        let mut one = vec![];
        let r1 = c.lib("write_tmf_one", || ms[i].0.write_tmf_one(&mut one, &info, ms[i].1.clone()));
        let list = c.lib("write_tmf", || gen::write(&ms[i..i + 1], &info));
        let same = match (&r1, &list) {
            (Some(Ok(_)), Some(Ok(l))) => *l == one,
            (Some(Err(_)), Some(Err(_))) => true,
            _ => false,
        };
        if !same {
            c.violation("write-one", format!("write_tmf_one differs from write_tmf with one mesh ({})", specs[i].0.shape()));
        }
        let (mut a, mut b) = (vec![], vec![]);
        // Panics with indices no file could have are not judged here.
        let r1 = lib(|| ms[i].0.write_obj_one(&mut a, &ms[i].1)).ok().and_then(|r| r.ok());
        let r2 = lib(|| TMFMesh::write_obj(&ms[i..i + 1], &mut b)).ok().and_then(|r| r.ok());
        if r1.is_some() != r2.is_some() || (r1.is_some() && a != b) {
            c.violation("write-one", "write_obj_one differs from write_obj with one mesh".to_string());
        }
        c.stat("writers_compared", 2);
    }
    // OBJ readers.
    let k = r.us(5);
    let nice: gen::Named = (0..k)
        .map(|_| {
            let mut s = gen::nice_mesh(&mut r, 30);
            if s.vt.as_ref().is_none_or(|a| a.is_empty()) || s.nt.as_ref().is_some_and(|a| a.len() != s.vt.as_ref().unwrap().len()) {
                s = Spec { v: s.v, ..Spec::default() };
            }
            (s.mesh(), format!("m{}", r.below(100)))
        })
        .collect();
    let mut text = vec![];
    if let Some(Ok(())) = c.lib("write_obj", || TMFMesh::write_obj(&nice, &mut text)) {
        if r.one_in(10) {
            text.extend(b"f 1 2\n");
        }
        let multi = c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut &text[..]));
        let one = c.lib("read_from_obj_one", || TMFMesh::read_from_obj_one(&mut &text[..]));
        if let (Some(multi), Some(one)) = (multi, one) {
            let ok = match (&multi, &one) {
                (Ok(l), Ok((m, n))) => l.len() == 1 && l[0].1 == *n && diff(&Spec::of(&l[0].0), &Spec::of(m)).is_none(),
                (Ok(l), Err(_)) => l.len() != 1,
                (Err(_), Err(_)) => true,
                (Err(_), Ok(_)) => false,
            };
            c.stat("obj_compared", 1);
            if !ok {
                c.violation("obj-one", format!("read_from_obj_one disagrees with read_from_obj, which gives {:?} meshes", multi.as_ref().map(|l| l.len()).ok()));
            }
        }
    }
    c.sample(|| format!("{n} TMF meshes, {} bytes; {k} OBJ meshes, {} bytes", b.len(), text.len()));
}
// ---------------------------------------------------------------- C27
pub const C27: Prop = Prop {
    id: "C27",
    rule: "Sizes of written files are compared with the bits their arrays need at the requested precision plus a constant for each segment the file holds (counted by the independent decoder). Non-trivial: a file of more than 100 bytes.",
    directed: &[c27_shared],
    run: c27,
};
fn bits_of(max: u64) -> u64 {
    64 - max.leading_zeros() as u64
}
/// ceil(log2(x)) within 1 and 63, rounded up where rounding of x could matter.
fn ceil_bits(x: f64) -> u64 {
    if x.is_nan() {
        return 63;
    }
    ((x.log2() + 1e-4).ceil()).clamp(1.0, 63.0) as u64
}
/// Bits the arrays of a mesh need, and bytes of names.
fn needed(s: &Spec, p: &gen::Prec) -> (u64, u64) {
    let mut bits = 0u64;
    if let Some(v) = &s.v {
        let e = shortest_edge(s);
        let mut per = 0;
        for k in 0..3 {
            let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
            for a in v {
                let a = d64(*a)[k];
                lo = lo.min(a);
                hi = hi.max(a);
            }
            // Extents below the smallest normal number count as that number.
            let extent = (hi - lo).max(F::MIN_POSITIVE as f64);
            per += ceil_bits(extent / (p.p as f64 * e) + 1.0);
        }
        bits += v.len() as u64 * per;
    }
    let dir = |rad: f64| ceil_bits(std::f64::consts::FRAC_PI_2 / rad);
    if let Some(n) = &s.n {
        bits += n.len() as u64 * (3 + 2 * dir(p.norm_rad()));
    }
    if let Some(t) = &s.t {
        bits += t.len() as u64 * (4 + 2 * dir(p.tan_rad()));
    }
    if let Some(u) = &s.uv {
        bits += u.len() as u64 * 2 * ceil_bits(p.res as f64 / p.dev as f64 + 1.0);
    }
    let ind = |a: &Vec<I>| a.len() as u64 * bits_of(a.iter().max().copied().unwrap_or(0) as u64);
    let mut seen: Vec<&Vec<I>> = vec![];
    for a in [&s.vt, &s.nt, &s.ut].into_iter().flatten() {
        if !seen.contains(&a) {
            bits += ind(a);
            seen.push(a);
        }
    }
    if let Some(a) = &s.tt {
        bits += ind(a);
    }
    let mut name_bytes = 0;
    for (n, d) in &s.custom {
        name_bytes += n.len() as u64;
        bits += match d {
            CustomData::CustomIndex(a, m) | CustomData::CustomIntiger(a, m) => a.len() as u64 * bits_of((*m as u64).min(I::MAX as u64)).min(63),
            CustomData::CustomFloat(a, p) => {
                let (lo, hi) = a.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x as f64), h.max(*x as f64)));
                a.len() as u64 * ceil_bits((hi - lo).max(0.0) / *p as f64 + 1.0)
            }
            CustomData::CustomColorRGBA(a, p) => a.len() as u64 * 4 * ceil_bits(1.0 / *p as f64 + 1.0),
        };
    }
    (bits, name_bytes)
}
fn c27_check(c: &mut Case, s: &Spec, p: &gen::Prec) {
    let specs = vec![(s.clone(), "m".to_string())];
    let Some((bytes, _)) = round(c, &specs, p) else { return };
    let f = match codec::decode(&bytes) {
        Ok(f) => f,
        Err(e) => {
            c.violation("layout", format!("the written file can't be decoded: {e}"));
            return;
        }
    };
    if bytes.len() > 100 {
        c.nontrivial(&hash_bytes(0, &bytes).to_le_bytes());
    }
    let (bits, name_bytes) = needed(s, p);
    // Headers of segments (65 bytes for vertices, up to 26 for others), and the unused bits of their last bytes.
    let head: u64 = f.meshes[0].segs.iter().map(|s| if matches!(s, codec::Seg::Vertex { .. }) { 72 } else { 40 }).sum();
    // Index arrays are not split where this makes the file bigger, vertices not over and over.
    for (i, a) in [&s.vt, &s.nt, &s.ut, &s.tt].into_iter().enumerate() {
        let Some(a) = a else { continue };
        let kind = [2u8, 4, 6, 10][i];
        let (mut parts, mut size, mut shared) = (0u64, 0u64, 0);
        for (seg, n) in f.meshes[0].segs.iter().zip(&f.meshes[0].seg_bytes) {
            let mine = match seg {
                codec::Seg::Tri(k, _) => *k == kind,
                codec::Seg::Shared(m, _) => {
                    shared |= (m >> i & 1) as u64;
                    m >> i & 1 != 0
                }
                _ => false,
            };
            if mine {
                parts += 1;
                size += *n as u64;
            }
        }
        let whole = 23 + shared + (a.len() as u64 * bits_of(a.iter().max().copied().unwrap_or(0) as u64)).div_ceil(8);
        c.stat("index_arrays", 1);
        if parts > 1 {
            c.stat("split_index_arrays", 1);
            c.stat("bytes_saved_by_splitting", whole.saturating_sub(size));
        }
        if size > whole + 8 + parts {
            c.violation("split", format!("{} indices take {size} bytes in {parts} segments, {whole} bytes in one ({})", a.len(), s.shape()));
        }
    }
    let vertex_parts = f.meshes[0].segs.iter().filter(|s| matches!(s, codec::Seg::Vertex { .. })).count() as u64;
    c.maxi("vertex_segments", vertex_parts as f64);
    let head = head - 72 * vertex_parts.saturating_sub(100);
    let limit = bits / 8 + 1 + head + name_bytes + 15 + 8;
    c.stat("bytes", bytes.len() as u64);
    c.stat("bytes_allowed", limit);
    c.stat("segments", f.meshes[0].segs.len() as u64);
    if bytes.len() as u64 > limit {
        c.violation("size", format!("{} bytes were written for {}, {limit} are enough ({} segments, {p:?})", bytes.len(), s.shape(), f.meshes[0].segs.len()));
    }
    // Each array is stored once: the entries of all segments together.
    let count = |f: &dyn Fn(&codec::Seg) -> usize| -> usize { specs_segs(&bytes).iter().map(f).sum() };
    let stored = count(&|s| match s {
        codec::Seg::Tri(10, _) => 0,
        codec::Seg::Tri(_, t) | codec::Seg::Shared(_, t) => t.vals.len(),
        _ => 0,
    });
    let mut seen: Vec<&Vec<I>> = vec![];
    let mut want = 0;
    for a in [&s.vt, &s.nt, &s.ut].into_iter().flatten() {
        if !seen.contains(&a) {
            seen.push(a);
            want += a.len();
        } else {
            c.stat("shared_arrays", 1);
        }
    }
    if stored > want {
        c.violation("shared", format!("{stored} indices are stored, {want} are different ({})", s.shape()));
    }
    c.sample(|| format!("{}: {} bytes of at most {limit}", s.shape(), bytes.len()));
}
fn specs_segs(bytes: &[u8]) -> Vec<codec::Seg> {
    codec::decode(bytes).map(|f| f.meshes.into_iter().flat_map(|m| m.segs).collect()).unwrap_or_default()
}
fn c27(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = max_len(c);
    let s = if r.bool() { gen::nice_mesh(&mut r, max) } else { gen::any_mesh(&mut r, max) };
    let p = gen::prec(&mut r);
    c27_check(c, &s, &p);
}
fn c27_shared(c: &mut Case) {
    let mut r = c.rng.clone();
    for n in [0usize, 3, 30, 3000, 40000, 70001, 200000] {
        for mask in 0..16 {
            // Long arrays in a few of the ways only.
            if n > 3000 && !matches!(mask, 3 | 7 | 13) {
                continue;
            }
            let a: Vec<I> = (0..n).map(|_| r.below(50) as I).collect();
            let mut b = a.clone();
            if n > 0 {
                b[n - 1] += 1;
            }
            let mut s = Spec::default();
            s.v = Some(gen::vertices(&mut r, 60));
            let pick = |k: u32| Some(if mask >> k & 1 != 0 { a.clone() } else { b.clone() });
            s.vt = pick(0);
            s.nt = pick(1);
            s.ut = pick(2);
            s.tt = pick(3);
            c27_check(c, &s, &gen::Prec::default());
        }
    }
}
