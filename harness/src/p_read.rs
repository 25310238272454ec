//! Properties of reading: C07, C08, C10, C20, C26.
use crate::alloc;
use crate::codec::{self, BitsOut, Norm, Seg, Tris};
use crate::fw::*;
use crate::gen;
use crate::p_round::{compare_data, max_len, names};
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec::*;
use std::future::Future;
use std::io::{Error, ErrorKind, Read, Write};
use std::pin::pin;
use std::task::{Context, Poll, Wake, Waker};
use tmf::{IndexType as I, TMFImportError, TMFMesh};
// ---------------------------------------------------------------- Files made without the library
fn bits(r: &mut Rng, p: u8) -> u64 {
    let max = ((1u128 << p) - 1) as u64;
    match r.below(6) {
        0 => 0,
        1 => max,
        2 => max - r.below(max.min(3) + 1),
        _ => r.u64() & max,
    }
}
fn prec(r: &mut Rng) -> u8 {
    match r.below(8) {
        0 => 1 + r.below(63) as u8,
        1 => *r.pick(&[1, 2, 31, 32, 33, 62, 63, 8, 16]),
        2 => (gen::dict_int(r) % 63 + 1) as u8,
        _ => 1 + r.below(24) as u8,
    }
}
fn tris(r: &mut Rng, n: usize, old: bool) -> Tris {
    let lim = *r.pick(&[1u64, 2, 300, 70_000, 1 << 32, u64::MAX >> 1]);
    let vals: Vec<u64> = gen::indices(r, n, lim).into_iter().map(|v| v as u64).collect();
    let lo = vals.iter().min().copied().unwrap_or(0);
    let min = if old || r.one_in(4) { 0 } else { lo - if r.one_in(4) { r.below(lo + 1) } else { 0 } };
    let need = vals.iter().map(|v| 64 - (v - min).leading_zeros()).max().unwrap_or(0) as u8;
    let prec = need + if r.one_in(3) { r.below(64 - need as u64) as u8 } else { 0 };
    Tris { prec, min, vals }
}
fn box_of(r: &mut Rng) -> [f64; 6] {
    let mut b = [0.0; 6];
    for k in 0..3 {
        let s = match r.below(4) {
            0 => r.log(-9.0, 18.0),
            1 => gen::dict_float(r).abs().min(1e18),
            _ => r.log(-1.0, 2.0),
        };
        let (x, y) = (r.uni(-s, s), r.uni(-s, s));
        b[2 * k] = x.min(y);
        b[2 * k + 1] = if r.one_in(10) { b[2 * k] } else { x.max(y) };
    }
    b
}
fn norm(r: &mut Rng, p: u8) -> Norm {
    Norm { neg: [r.bool(), r.bool(), r.bool()], az: bits(r, p), z: bits(r, p) }
}
/// Any segment the format allows, except for those with entries of zero width other than indices.
pub fn seg(r: &mut Rng, max: usize, old: bool) -> Seg {
    let n = gen::len(r, max);
    let p = prec(r);
    let name = |r: &mut Rng| if r.one_in(3) { "shared name".into() } else { gen::custom_name(r).into_bytes() };
    match r.below(14) {
        0 | 1 => {
            let prec = [p, prec(r), prec(r)];
            let bb = box_of(r);
            Seg::Vertex { bb, prec, raw: gen::vec_of(r, n, |r| [bits(r, prec[0]), bits(r, prec[1]), bits(r, prec[2])]) }
        }
        2 => Seg::Normal { prec: p, raw: gen::vec_of(r, n, |r| norm(r, p)) },
        3 => Seg::Uv { prec: p, raw: gen::vec_of(r, n, |r| [bits(r, p), bits(r, p)]) },
        4 => Seg::Tangent { prec: p, raw: gen::vec_of(r, n, |r| (r.bool(), norm(r, p))) },
        5..=7 => Seg::Tri(*r.pick(&[2, 4, 6, 10]), tris(r, n, old)),
        8 | 9 => Seg::Shared(1 + r.below(7) as u8, tris(r, n, old)),
        10 => Seg::CustomInt(*r.pick(&[15, 24]), name(r), tris(r, n, old)),
        11 => {
            let b = box_of(r);
            Seg::CustomFloat { name: name(r), min: b[0], max: b[1], prec: p, raw: gen::vec_of(r, n, |r| bits(r, p)) }
        }
        12 => Seg::CustomRgba { name: name(r), prec: p, raw: gen::vec_of(r, n, |r| [bits(r, p), bits(r, p), bits(r, p), bits(r, p)]) },
        _ => unknown(r, old),
    }
}
const KNOWN: [u16; 13] = [1, 2, 3, 4, 5, 6, 9, 10, 15, 16, 23, 24, 25];
fn unknown(r: &mut Rng, old: bool) -> Seg {
    let ty = loop {
        let t = match r.below(3) {
            // In the older layout types have 16 bits; those whose low byte is that of a known type are unknown, too.
            0 if old => (1 + r.below(255) as u16) << 8 | *r.pick(&KNOWN),
            1 if old => r.u64() as u16,
            _ => r.u64() as u8 as u16,
        };
        if !KNOWN.contains(&t) {
            break t;
        }
    };
    let n = gen::len(r, 300);
    Seg::Unknown(ty, 0, r.bytes(n))
}
pub type Model = Vec<(Vec<u8>, Vec<Seg>)>;
pub fn model(r: &mut Rng, max: usize, old: bool) -> Model {
    let k = match r.below(10) {
        0 => 0,
        1 => r.us(20),
        _ => 1 + r.us(3),
    };
    (0..k)
        .map(|_| {
            let mut n = if r.one_in(20) { r.us(40) } else { r.us(7) };
            let mut segs = vec![];
            while n > 0 {
                let s = seg(r, max, old);
                segs.push(s);
                // The same kind again, so that arrays are split over segments which are not neighbours.
                if n > 1 && r.one_in(3) {
                    let s: Seg = segs[r.us(segs.len())].clone();
                    segs.push(s);
                    n -= 1;
                }
                n -= 1;
            }
            let top = if r.one_in(30) { 65535 } else { 100 };
            (gen::name(r, top).into_bytes(), segs)
        })
        .collect()
}
fn version(r: &mut Rng, old: bool) -> [u16; 4] {
    // What wrote the file does not matter, only what it requires of readers.
    let (a, b) = match r.below(4) {
        0 => (r.u64() as u16, r.u64() as u16),
        1 => (0, 3 + r.below(5) as u16),
        _ => (0, 2),
    };
    [a, b, 0, if old { 1 } else { 2 }]
}
pub fn custom_names(m: &[(Vec<u8>, Vec<Seg>)]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for (_, s) in m {
        for s in s {
            if let Seg::CustomInt(_, n, _) | Seg::CustomFloat { name: n, .. } | Seg::CustomRgba { name: n, .. } = s {
                let n = String::from_utf8_lossy(n).into_owned();
                if !out.contains(&n) {
                    out.push(n);
                }
            }
        }
    }
    out
}
/// Valid file, from the library's writer or from the independent encoder, and names of custom data in it.
pub fn valid_file(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<String>) {
    if r.bool() {
        let old = r.one_in(3);
        let m = model(r, max, old);
        let v = version(r, old);
        (codec::encode(v, &m), custom_names(&m))
    } else {
        let k = 1 + r.us(3);
        let specs: Vec<(Spec, String)> = (0..k).map(|_| (if r.bool() { gen::nice_mesh(r, max) } else { gen::any_mesh(r, max) }, gen::name(r, 60))).collect();
        let ms: gen::Named = specs.iter().map(|(s, n)| (s.mesh(), n.clone())).collect();
        let info = gen::prec(r).info();
        let b = lib(|| gen::write(&ms, &info)).ok().and_then(|b| b.ok());
        (b.unwrap_or_else(|| codec::encode([0, 2, 0, 2], &[])), specs.iter().flat_map(|(s, _)| names(s)).collect())
    }
}
// ---------------------------------------------------------------- C10
pub const C10: Prop = Prop {
    id: "C10",
    rule: "Files are made by an independent encoder of the published layout: current and older (0.1) layout, up to 40 segments in each mesh, every kind of segment and precision 1 to 63, index bases, arrays split over segments, shared index segments of every mask, unknown segment types; what the library reads is compared with what the file encodes. Refusals: wrong magic, newer versions, compressed segments, unknown compression, every bit width from 64 to 255 in every field, indices too large. Non-trivial: a segment of a known type was compared, or a refusal was judged.",
    directed: &[c10_versions, c10_compression, c10_widths],
    run: c10,
};
fn c10_check(c: &mut Case, ver: [u16; 4], m: &Model) {
    let b = codec::encode(ver, m);
    let Some(got) = c.lib("read_tmf", || gen::read(&b)) else { return };
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            c.violation("refused", format!("a well-formed file (version {ver:?}, segments {:?}) is refused: {e}", kinds(m)));
            return;
        }
    };
    if got.len() != m.len() {
        c.violation("mesh-count", format!("{} meshes are in the file, {} were read", m.len(), got.len()));
        return;
    }
    for (i, ((name, segs), (mesh, n))) in m.iter().zip(&got).enumerate() {
        if name != n.as_bytes() {
            c.violation("name", format!("mesh {i} is named {:?} in the file, and read as {n:?}", String::from_utf8_lossy(name)));
        }
        let fm = codec::FMesh { name: name.clone(), segs: segs.clone(), seg_bytes: vec![], bytes: 0 };
        compare_data(c, &format!("mesh {i} of a file of version {ver:?} with segments {:?}", kinds(m)), &codec::eval(&fm), mesh);
        c.stat("segments", segs.len() as u64);
        c.stat("unknown segments", segs.iter().filter(|s| matches!(s, Seg::Unknown(..))).count() as u64);
        c.stat("shared segments", segs.iter().filter(|s| matches!(s, Seg::Shared(..))).count() as u64);
    }
    c.stat(if ver[3] <= 1 { "older layout" } else { "current layout" }, 1);
    if m.iter().any(|(_, s)| s.iter().any(|s| !matches!(s, Seg::Unknown(..)))) {
        c.nontrivial(&hash_bytes(0, &b).to_le_bytes());
    }
    c.sample(|| format!("version {ver:?}, segments {:?}", kinds(m)));
}
fn kinds(m: &Model) -> Vec<Vec<String>> {
    m.iter()
        .map(|(_, s)| {
            s.iter()
                .map(|s| match s {
                    Seg::Vertex { raw, prec, .. } => format!("vertex*{} {prec:?}", raw.len()),
                    Seg::Normal { raw, prec } => format!("normal*{} {prec}", raw.len()),
                    Seg::Uv { raw, prec } => format!("uv*{} {prec}", raw.len()),
                    Seg::Tangent { raw, prec } => format!("tangent*{} {prec}", raw.len()),
                    Seg::Tri(t, x) => format!("tri{t}*{} {} from {}", x.vals.len(), x.prec, x.min),
                    Seg::Shared(t, x) => format!("shared{t}*{} {} from {}", x.vals.len(), x.prec, x.min),
                    Seg::CustomInt(t, n, x) => format!("custom{t} {:?}*{} {} from {}", String::from_utf8_lossy(n), x.vals.len(), x.prec, x.min),
                    Seg::CustomFloat { name, raw, prec, .. } => format!("float {:?}*{} {prec}", String::from_utf8_lossy(name), raw.len()),
                    Seg::CustomRgba { name, raw, prec } => format!("rgba {:?}*{} {prec}", String::from_utf8_lossy(name), raw.len()),
                    Seg::Unknown(t, _, d) => format!("type {t}, {} bytes", d.len()),
                })
                .collect()
        })
        .collect()
}
/// The file must be refused, and with an error of `want` if that is given.
fn c10_refuse(c: &mut Case, what: &str, b: &[u8], want: Option<&str>) {
    let Some(got) = c.lib("read_tmf", || gen::read(b)) else { return };
    c.nontrivial(&hash_bytes(1, b).to_le_bytes());
    c.stat(&format!("refusals: {}", want.unwrap_or("index").split(':').next().unwrap()), 1);
    match got {
        Ok(_) => c.violation("accepted", format!("a file with {what} is accepted")),
        Err(e) => {
            let k = err_kind(&e);
            if want.is_some_and(|w| w != k && !(w == "UnsuportedCompressionType" && k.starts_with(w))) {
                c.violation("wrong-error", format!("a file with {what} is refused with {k} instead of {}", want.unwrap()));
            }
        }
    }
}
fn c10(c: &mut Case) {
    let mut r = c.rng.clone();
    let old = r.one_in(3);
    let max = max_len(c).min(if r.one_in(6) { 20_000 } else { 400 });
    let m = model(&mut r, max, old);
    let ver = version(&mut r, old);
    if !r.one_in(4) {
        return c10_check(c, ver, &m);
    }
    match r.below(4) {
        0 => {
            let mut b = codec::encode(ver, &m);
            let k = r.us(3);
            b[k] = if r.bool() { b[k] ^ 1 << r.us(8) } else { b[k].to_ascii_lowercase() };
            c10_refuse(c, "a wrong magic", &b, Some("NotTMFFile"));
        }
        1 => {
            let mut v = ver;
            match r.below(3) {
                0 => v[3] = 3 + r.below(9) as u16,
                1 => v[3] = (3 + r.below(65533)) as u16,
                _ => {
                    v[2] = if r.bool() { 1 } else { 1 + r.below(65535) as u16 };
                    v[3] = if r.bool() { r.below(4) as u16 } else { r.u64() as u16 };
                }
            }
            let mut b = codec::encode(ver, &m);
            b[7..9].copy_from_slice(&v[2].to_le_bytes());
            b[9..11].copy_from_slice(&v[3].to_le_bytes());
            c10_refuse(c, &format!("required version {}.{}", v[2], v[3]), &b, Some("NewerVersionRequired"));
        }
        2 => {
            // One segment of a known type is compressed.
            let places: Vec<(usize, usize)> =
                m.iter().enumerate().flat_map(|(i, (_, s))| s.iter().enumerate().filter(|(_, s)| !matches!(s, Seg::Unknown(..))).map(move |(j, _)| (i, j))).collect();
            if places.is_empty() {
                return;
            }
            let at = *r.pick(&places);
            let comp = if r.bool() { *r.pick(&[1u8, 2, 255]) } else { 3 + r.below(252) as u8 };
            let want = if matches!(comp, 1 | 2 | 255) { "UnsuportedCompressionType".to_string() } else { format!("CompressionTypeUnknown:{comp}") };
            let mut b = vec![];
            codec::header(&mut b, ver, m.len() as u32);
            for (i, (name, segs)) in m.iter().enumerate() {
                b.extend((name.len() as u16).to_le_bytes());
                b.extend(name);
                b.extend((segs.len() as u16).to_le_bytes());
                for (j, s) in segs.iter().enumerate() {
                    let (ty, _, data) = codec::seg_data(s, old);
                    codec::put_seg(&mut b, ty, if (i, j) == at { comp } else { 0 }, &data, old);
                }
            }
            c10_refuse(c, &format!("compression {comp} of {:?}", kinds(&m)[at.0][at.1]), &b, Some(&want));
        }
        _ => {
            if old && LONG {
                return;
            }
            // An index just beyond the index type.
            let n = 1 + gen::len(&mut r, 50);
            let over = if LONG { 1u64 << 63 } else { I::MAX as u64 + 1 };
            let min = if LONG {
                u64::MAX - r.below(over / 2)
            } else if old {
                0
            } else {
                match r.below(3) {
                    0 => over - r.below(over.min(1000)),
                    1 => u64::MAX - r.below(1000),
                    _ => r.below(over),
                }
            };
            // Smallest raw value which overflows.
            let lim = if LONG { (u64::MAX - min).wrapping_add(1) } else { over.saturating_sub(min) };
            let lim = if min > u64::MAX - 1000 && !LONG { 0 } else { lim };
            let need = (64 - lim.leading_zeros()) as u8;
            if need > 63 {
                return;
            }
            let prec = need.max(1) + r.below(64 - need.max(1) as u64) as u8;
            let mut raws: Vec<u64> = (0..n).map(|_| r.below(lim.max(1))).collect();
            let at = if r.bool() { n - 1 } else { r.us(n) };
            raws[at] = (lim + if r.bool() { 0 } else { r.below(1000) }).min(((1u128 << prec) - 1) as u64);
            let mut bo = BitsOut::default();
            for v in &raws {
                bo.put(prec, *v);
            }
            let ty = *r.pick(&[2u16, 4, 6, 10, 15, 24, 25]);
            let mut d = vec![];
            match ty {
                15 | 24 => d.extend([1, b'c']),
                25 => d.push(1 + r.below(7) as u8),
                _ => (),
            }
            d.push(prec);
            d.extend((n as u64).to_le_bytes());
            if !old {
                d.extend(min.to_le_bytes());
            }
            d.extend(bo.b);
            let mut b = vec![];
            codec::header(&mut b, ver, 1);
            b.extend([1, 0, b'm', 1, 0]);
            codec::put_seg(&mut b, ty, 0, &d, old);
            c10_refuse(c, &format!("index {at} of {n} of type {ty} being {} + {min}", raws[at]), &b, None);
        }
    }
}
fn c10_versions(c: &mut Case) {
    let m: Model = vec![(b"m".to_vec(), vec![Seg::Tri(2, Tris { prec: 3, min: 0, vals: vec![1, 2, 3, 4, 5] })])];
    for ver in [[0, 1, 0, 1], [0, 2, 0, 1], [0, 2, 0, 2], [9, 9, 0, 2], [65535, 65535, 0, 1], [0, 0, 0, 2]] {
        c10_check(c, ver, &m);
    }
    for ver in [[0, 3, 0, 3], [1, 0, 1, 0], [1, 0, 1, 1], [0, 2, 0, 65535], [0, 2, 65535, 0], [0, 256, 0, 256], [0, 2, 0, 258], [0, 2, 256, 2]] {
        let b = codec::encode(ver, &m);
        c10_refuse(c, &format!("required version {}.{}", ver[2], ver[3]), &b, Some("NewerVersionRequired"));
    }
}
/// Every compression code with every known type, in both layouts.
fn c10_compression(c: &mut Case) {
    let mut r = c.rng.clone();
    for old in [false, true] {
        for ty in KNOWN {
            let data = loop {
                let s = seg(&mut r, 10, old);
                let (t, _, d) = codec::seg_data(&s, old);
                if t == ty {
                    break d;
                }
            };
            for comp in 1..=255u8 {
                let mut b = vec![];
                codec::header(&mut b, [0, 2, 0, if old { 1 } else { 2 }], 1);
                b.extend([1, 0, b'm', 1, 0]);
                codec::put_seg(&mut b, ty, comp, &data, old);
                let want = if matches!(comp, 1 | 2 | 255) { "UnsuportedCompressionType".to_string() } else { format!("CompressionTypeUnknown:{comp}") };
                c10_refuse(c, &format!("compression {comp} of a segment of type {ty}"), &b, Some(&want));
            }
        }
    }
}
/// Every bit width beyond 63 with every type which declares one, in both layouts.
fn c10_widths(c: &mut Case) {
    for old in [false, true] {
        for ty in KNOWN {
            for p in 64..=255u8 {
                for field in 0..if ty == 1 { 3 } else { 1 } {
                    for n in [1u64, 2, 5] {
                        let mut d = vec![];
                        match ty {
                            15 | 24 | 16 | 23 => d.extend([1, b'c']),
                            25 => d.push(7),
                            _ => (),
                        }
                        match ty {
                            1 => {
                                d.extend(n.to_le_bytes());
                                for x in [0.0f64, 1.0, 0.0, 1.0, 0.0, 1.0] {
                                    d.extend(x.to_le_bytes());
                                }
                                let mut w = [5u8; 3];
                                w[field] = p;
                                d.extend(w);
                            }
                            3 | 9 | 23 => {
                                d.extend(n.to_le_bytes());
                                d.push(p);
                            }
                            16 => {
                                d.extend(n.to_le_bytes());
                                d.extend(0.0f64.to_le_bytes());
                                d.extend(1.0f64.to_le_bytes());
                                d.push(p);
                            }
                            5 => {
                                d.push(p);
                                d.extend(n.to_le_bytes());
                            }
                            _ => {
                                d.push(p);
                                d.extend(n.to_le_bytes());
                                if !old {
                                    d.extend(0u64.to_le_bytes());
                                }
                            }
                        }
                        // Enough data for everything.
                        d.resize(d.len() + 900, 0);
                        let mut b = vec![];
                        codec::header(&mut b, [0, 2, 0, if old { 1 } else { 2 }], 1);
                        b.extend([1, 0, b'm', 1, 0]);
                        codec::put_seg(&mut b, ty, 0, &d, old);
                        c10_refuse(c, &format!("{n} values of {p} bits in a segment of type {ty}"), &b, Some(&format!("InvalidPrecision:{p}")));
                    }
                }
            }
        }
    }
}
// ---------------------------------------------------------------- C07
pub const C07: Prop = Prop {
    id: "C07",
    rule: "Random bytes, valid files of both layouts with bits flipped, bytes changed, inserted, removed, spliced or cut off, and files built of segments with hostile lengths, counts, precisions, boxes and names are read; panics, aborts, non-termination and the peak of the heap are watched. Non-trivial: the header was accepted (input read beyond it).",
    directed: &[c07_counts, c07_cut],
    run: c07,
};
fn hostile(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1 + r.below(40),
        2 => (1u64 << 31).wrapping_add(r.range(-2, 2) as u64),
        3 => u64::MAX - r.below(3),
        4 => 1 << r.below(64),
        5 => (u64::MAX / (1 + r.below(70))).wrapping_add(r.below(3)),
        6 => (1u64 << 61).wrapping_add(r.range(-1, 1) as u64),
        7 => gen::dict_int(r),
        8 => r.below(1 << 16),
        _ => r.u64() >> r.below(64),
    }
}
fn hostile_prec(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => r.below(9) as u8,
        1 => *r.pick(&[0, 1, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255]),
        2 => r.below(66) as u8,
        _ => r.u64() as u8,
    }
}
fn hostile_float(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => f64::NAN,
        1 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.0, -0.0, 5e-324]),
        2 => f64::from_bits(r.u64()),
        _ => r.uni(-10.0, 10.0),
    }
}
/// Data of a segment with chosen fields.
fn hostile_data(r: &mut Rng, ty: u16, count: u64, precs: [u8; 3], payload: usize, old: bool) -> Vec<u8> {
    let mut d = vec![];
    if matches!(ty, 15 | 16 | 23 | 24) {
        let n = r.us(6);
        d.push(if r.one_in(6) { r.u64() as u8 } else { n as u8 });
        d.extend(r.bytes(n));
    }
    match ty {
        1 => {
            d.extend(count.to_le_bytes());
            for _ in 0..6 {
                d.extend(hostile_float(r).to_le_bytes());
            }
            d.extend(precs);
        }
        3 | 9 | 23 => {
            d.extend(count.to_le_bytes());
            d.push(precs[0]);
        }
        5 => {
            d.push(precs[0]);
            d.extend(count.to_le_bytes());
        }
        16 => {
            d.extend(count.to_le_bytes());
            d.extend(hostile_float(r).to_le_bytes());
            d.extend(hostile_float(r).to_le_bytes());
            d.push(precs[0]);
        }
        _ => {
            if ty == 25 {
                d.push(r.u64() as u8);
            }
            d.push(precs[0]);
            d.extend(count.to_le_bytes());
            if !old {
                d.extend(hostile(r).to_le_bytes());
            }
        }
    }
    d.extend(r.bytes(payload));
    d
}
/// Text which is UTF-8 but for one place.
pub fn not_utf8(r: &mut Rng) -> Vec<u8> {
    let n = 1 + gen::len(r, 300);
    let mut name: Vec<u8> = if r.bool() { (0..n).map(|_| 32 + r.below(95) as u8).collect() } else { "ż".repeat(n).into_bytes() };
    match r.below(3) {
        0 => {
            name.pop();
            name.push(0xC5);
        }
        1 => {
            let at = r.us(name.len());
            name[at] = 0x80 | r.u64() as u8;
        }
        _ => {
            let at = r.us(name.len());
            name.splice(at..at, [0xED, 0xA0, 0x80]);
        }
    }
    name
}
/// Names must be what the type of text promises.
pub fn check_text(c: &mut Case, got: &gen::Named) {
    for (_, n) in got {
        c.stat("names checked", 1);
        if let Err(e) = std::str::from_utf8(n.as_bytes()) {
            c.violation("utf8", format!("a name which was read is not UTF-8: {e}, {:02x?}", &n.as_bytes()[..n.len().min(80)]));
        }
    }
}
pub fn hostile_file(r: &mut Rng) -> Vec<u8> {
    let old = r.one_in(3);
    let k = 1 + r.us(3);
    let mut b = vec![];
    let ver = [r.below(4) as u16, r.below(4) as u16, 0, if old { r.below(2) as u16 } else { 2 }];
    let declared = if r.one_in(5) { hostile(r) as u32 } else { k as u32 };
    codec::header(&mut b, ver, declared);
    for _ in 0..k {
        let n = gen::name(r, 20);
        let mut name = n.into_bytes();
        if r.one_in(10) {
            name = match r.below(3) {
                0 => r.bytes(5),
                1 => {
                    let k = gen::len(r, 400);
                    r.bytes(k)
                }
                _ => not_utf8(r),
            };
        }
        b.extend((if r.one_in(20) { r.u64() as u16 } else { name.len() as u16 }).to_le_bytes());
        b.extend(&name);
        let s = r.us(6);
        b.extend((if r.one_in(8) { hostile(r) as u16 } else { s as u16 }).to_le_bytes());
        for _ in 0..s {
            let ty = if r.one_in(12) { r.u64() as u16 } else { *r.pick(&KNOWN) };
            let mut data = if r.bool() {
                let count = hostile(r);
                let precs = [hostile_prec(r), hostile_prec(r), if r.bool() { 0 } else { hostile_prec(r) }];
                let payload = if r.one_in(10) { r.us(3000) } else { r.us(60) };
                hostile_data(r, ty, count, precs, payload, old)
            } else {
                let s = seg(r, 60, old);
                codec::seg_data(&s, old).2
            };
            if r.one_in(6) {
                let k = r.us(data.len() + 1);
                data.truncate(k);
            }
            let comp = if r.one_in(15) { r.u64() as u8 } else { 0 };
            let len = if r.one_in(12) { hostile(r) } else { data.len() as u64 };
            if old {
                b.extend(ty.to_le_bytes());
                b.extend(len.to_le_bytes());
            } else {
                b.push(ty as u8);
                b.extend((len as u32).to_le_bytes());
            }
            b.push(comp);
            b.extend(data);
        }
    }
    b
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.us(3) {
        if b.is_empty() {
            return;
        }
        // The beginning of a file holds most of what is not plain data.
        let at = if r.bool() { r.us(b.len().min(80)) } else { r.us(b.len()) };
        match r.below(10) {
            0 | 1 => b[at] ^= 1 << r.us(8),
            2 => b[at] = *r.pick(&[0, 1, 2, 63, 64, 127, 128, 255]),
            3 => b[at] = r.u64() as u8,
            4 => b.truncate(at),
            5 => {
                let k = r.us(12).min(b.len() - at);
                b.drain(at..at + k);
            }
            6 => {
                let k = r.us(12);
                let x = r.bytes(k);
                b.splice(at..at, x);
            }
            7 => {
                let v = hostile(r).to_le_bytes();
                let w = (*r.pick(&[2usize, 4, 8])).min(b.len() - at);
                b[at..at + w].copy_from_slice(&v[..w]);
            }
            8 => {
                let from = r.us(b.len());
                let k = r.us(64).min(b.len() - from);
                let x = b[from..from + k].to_vec();
                b.splice(at..at, x);
            }
            _ => {
                let from = r.us(b.len());
                let k = r.us(16).min(b.len() - from).min(b.len() - at);
                let x = b[from..from + k].to_vec();
                b[at..at + k].copy_from_slice(&x);
            }
        }
    }
}
pub fn hostile_input(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<String>) {
    match r.below(10) {
        0 => {
            let n = gen::len(r, 2000);
            (r.bytes(n), vec![])
        }
        1 => {
            let mut b = vec![];
            codec::header(&mut b, [0, 2, 0, r.below(3) as u16], r.below(4) as u32);
            let n = gen::len(r, 2000);
            b.extend(if r.bool() { r.bytes(n) } else { (0..n).map(|_| r.below(4) as u8).collect() });
            (b, vec![])
        }
        2..=5 => (hostile_file(r), vec![]),
        _ => {
            let (mut b, n) = valid_file(r, max);
            mutate(r, &mut b);
            if r.one_in(20) {
                let (x, _) = valid_file(r, max);
                let k = r.us(b.len() + 1);
                let j = r.us(x.len());
                b.truncate(k);
                b.extend(&x[j..]);
            }
            (b, n)
        }
    }
}
/// Entries of zero bits are not judged when there are more than this many.
pub const ZERO_WIDTH_LIMIT: u64 = 1 << 20;
fn c07_check(c: &mut Case, b: &[u8]) {
    let zero = codec::zero_width(b);
    if zero > ZERO_WIDTH_LIMIT {
        c.stat("skipped: many entries of zero bits", 1);
        return;
    }
    if b.len() > 15 && b.starts_with(b"TMF") {
        c.nontrivial(&hash_bytes(0, b).to_le_bytes());
    }
    let Some((got, peak, _)) = c.lib("read_tmf", || alloc::measured(|| gen::read(b))) else { return };
    let w = if DOUBLE || LONG { 2 } else { 1 };
    let limit = (96 << 20) + w * 1200 * b.len() + w * 64 * zero as usize;
    if !b.is_empty() {
        c.maxi("heap above 24 MB, per byte of input", peak.saturating_sub(24 << 20) as f64 / b.len() as f64);
    }
    c.maxi("peak of the heap, MB", peak as f64 / 1e6);
    if peak > limit {
        c.violation("memory", format!("reading {} bytes used {peak} bytes of heap; the file begins {:02x?}", b.len(), &b[..b.len().min(100)]));
    }
    match &got {
        Ok(m) => {
            c.stat("accepted", 1);
            c.stat("meshes", m.len() as u64);
        }
        Err(e) => {
            let k = err_kind(e);
            let k = k.split(':').next().unwrap().to_string();
            c.stat(&format!("refused: {k}"), 1);
        }
    }
    // The other readers must stay calm, too.
    if c.rng.one_in(8) {
        let _ = c.lib("read_tmf_one", || TMFMesh::read_tmf_one(&mut &b[..]).is_ok());
        let _ = c.lib("read_tmf_async", || futures::executor::block_on(TMFMesh::read_tmf_async(&mut &b[..])).is_ok());
    }
    if let Ok(ms) = got {
        check_text(c, &ms);
        // So must what is done with meshes that could be read.
        for (m, _) in &ms {
            let _ = c.lib("verify", || m.verify().is_ok());
            let _ = c.lib("get_vertex_buffer", || m.get_vertex_buffer().is_some());
        }
    }
}
fn c07(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = if r.one_in(20) { 3000 } else { 60 };
    let (b, _) = hostile_input(&mut r, max);
    c.sample(|| format!("{} bytes beginning {:02x?}", b.len(), &b[..b.len().min(40)]));
    c07_check(c, &b);
}
/// Hostile counts and precisions for every type, one at a time.
fn c07_counts(c: &mut Case) {
    let mut r = c.rng.clone();
    const COUNTS: [u64; 16] = [0, 1, 2, 255, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 61) - 1, 1 << 61, 1 << 62, 1 << 63, u64::MAX - 1, u64::MAX];
    const PRECS: [u8; 14] = [0, 1, 7, 8, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255];
    for old in [false, true] {
        for ty in KNOWN {
            for count in COUNTS {
                for p in PRECS {
                    // Counts just beyond what overflows when multiplied by the width.
                    for count in [count, (u64::MAX / (p as u64).max(1)).wrapping_add(1), u64::MAX / (3 + 2 * p as u64) + 1] {
                        let precs = [p, if r.bool() { p } else { 0 }, *r.pick(&PRECS)];
                        let data = hostile_data(&mut r, ty, count, precs, 24, old);
                        let mut b = vec![];
                        codec::header(&mut b, [0, 2, 0, if old { 1 } else { 2 }], 1);
                        b.extend([1, 0, b'm', 1, 0]);
                        codec::put_seg(&mut b, ty, 0, &data, old);
                        c07_check(c, &b);
                    }
                }
            }
        }
    }
    // Declared lengths and counts of the containers.
    for old in [false, true] {
        for v in COUNTS {
            let mut b = vec![];
            codec::header(&mut b, [0, 2, 0, if old { 1 } else { 2 }], v as u32);
            c07_check(c, &b);
            b.extend([1, 0, b'm']);
            b.extend((v as u16).to_le_bytes());
            c07_check(c, &b);
            if old {
                b.extend([1, 0]);
                b.extend(v.to_le_bytes());
            } else {
                b.push(1);
                b.extend((v as u32).to_le_bytes());
            }
            b.push(0);
            b.extend([0; 30]);
            c07_check(c, &b);
        }
    }
}
/// Files cut off and changed at every byte.
fn c07_cut(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..6 {
        let (b, _) = valid_file(&mut r, 12);
        for k in 0..b.len().min(1500) {
            c07_check(c, &b[..k]);
            for v in [0, 255, b[k] ^ 1, b[k] ^ 128] {
                let mut m = b.clone();
                m[k] = v;
                c07_check(c, &m);
            }
        }
    }
}
// ---------------------------------------------------------------- C08
pub const C08: Prop = Prop {
    id: "C08",
    rule: "Sources that fail with each of many kinds of errors, or end, at a byte of a TMF file (every byte of small files), sinks that fail at a byte of TMF or OBJ output, failing OBJ sources, and sources and sinks that transfer any smaller number of bytes or are interrupted now and then. Non-trivial: a fault was injected before the end, or a transfer was split.",
    directed: &[],
    run: c08,
};
const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
];
/// Source or sink which transfers as it likes and fails at byte `fail`.
struct Flaky<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    pos: usize,
    fail: usize,
    /// None: end of file (sources), or no progress (sinks).
    kind: Option<ErrorKind>,
    rng: Rng,
    /// 0: whole, 1: random, 2: byte by byte.
    style: u64,
    interrupts: bool,
}
impl<'a> Flaky<'a> {
    fn new(data: &'a [u8], fail: usize, kind: Option<ErrorKind>, rng: Rng, style: u64, interrupts: bool) -> Self {
        Flaky { data, out: vec![], pos: 0, fail, kind, rng, style, interrupts }
    }
    fn step(&mut self, want: usize) -> std::io::Result<usize> {
        if want == 0 {
            return Ok(0);
        }
        if self.interrupts && self.rng.one_in(3) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.pos >= self.fail {
            return match self.kind {
                Some(k) => Err(Error::new(k, "injected")),
                None => Ok(0),
            };
        }
        let n = want.min(self.fail - self.pos);
        Ok(match self.style {
            0 => n,
            1 => 1 + self.rng.us(n),
            _ => 1,
        })
    }
}
impl Read for Flaky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.step(buf.len().min(self.data.len() - self.pos.min(self.data.len())))?;
        // At the end of the data a source may still fail.
        if n == 0 && !buf.is_empty() && self.pos >= self.fail {
            if let Some(k) = self.kind {
                return Err(Error::new(k, "injected"));
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Flaky<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.step(buf.len())?;
        self.out.extend(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Other calls on this thread, which mostly fail, and must leave no trace on later ones.
pub fn disturb(c: &mut Case, r: &mut Rng, ms: &[(TMFMesh, String)], info: &tmf::TMFPrecisionInfo) {
    for _ in 0..1 + r.us(3) {
        let fail = if r.bool() { r.us(200) } else { r.log(0.0, 6.0) as usize };
        let kind = if r.bool() { None } else { Some(*r.pick(&KINDS)) };
        match r.below(6) {
            0 | 1 => {
                let mut w = Flaky::new(&[], fail, kind, r.clone(), 0, false);
                c.lib("write_tmf", || TMFMesh::write_tmf(ms, &mut w, info).is_err());
                c.stat("disturbing writes", 1);
            }
            2 => {
                let mut w = Flaky::new(&[], fail, kind, r.clone(), 0, false);
                c.lib("write_obj", || TMFMesh::write_obj(&obj_meshes(&mut r.clone(), 5), &mut w).is_err());
                c.stat("disturbing writes", 1);
            }
            3 => {
                let (b, _) = valid_file(r, 20);
                let mut src = Flaky::new(&b, fail.min(b.len()), kind, r.clone(), 0, false);
                let one = r.bool();
                c.lib("reading", || if one { TMFMesh::read_tmf_one(&mut src).is_err() } else { TMFMesh::read_tmf(&mut src).is_err() });
                c.stat("disturbing reads", 1);
            }
            4 => {
                let (mut b, _) = valid_file(r, 20);
                mutate(r, &mut b);
                if codec::zero_width(&b) <= ZERO_WIDTH_LIMIT {
                    c.lib("reading", || gen::read(&b).is_err());
                    c.stat("disturbing reads", 1);
                }
            }
            _ => {
                let text = b"o a\nv 1 2 3\nv 4 5 6\nv 7 8 9\nvn 0 0 1\nvt 0 1\nf 1/1/1 2/1/1 3/1/1\nf 1 2 99 3\n";
                let mut src = Flaky::new(text, fail.min(text.len()), kind, r.clone(), 0, false);
                c.lib("reading", || TMFMesh::read_from_obj(&mut src).is_err());
                c.stat("disturbing reads", 1);
            }
        }
    }
}
fn fault_points(r: &mut Rng, len: usize, all: usize) -> Vec<usize> {
    if len <= all {
        return (0..len).collect();
    }
    let mut v: Vec<usize> = (0..20).chain(len - 8..len).chain((0..all / 2).map(|_| r.us(len))).collect();
    v.sort();
    v.dedup();
    v
}
fn obj_meshes(r: &mut Rng, max: usize) -> gen::Named {
    (0..1 + r.us(3))
        .map(|_| {
            let mut s = gen::nice_mesh(r, max);
            s.t = None;
            s.tt = None;
            if s.vt.as_ref().is_none_or(|a| a.is_empty()) {
                s = Spec { v: s.v, ..Spec::default() };
            }
            (s.mesh(), format!("m {}", r.below(100)))
        })
        .collect()
}
fn c08(c: &mut Case) {
    let mut r = c.rng.clone();
    let all = if c.thorough { 1500 } else { 250 };
    let max = if r.one_in(20) { 5000 } else { 25 };
    match r.below(5) {
        // Faults while reading TMF.
        0 | 1 => {
            let (b, names) = valid_file(&mut r, max);
            let Ok(first) = lib(|| gen::read(&b)) else { return };
            if first.is_err() {
                return;
            }
            for k in fault_points(&mut r, b.len(), all) {
                let kind = if r.bool() { None } else { Some(*r.pick(&KINDS)) };
                let mut src = Flaky::new(&b, k, kind, r.clone(), r.clone().below(3), r.one_in(4));
                let way = r.below(8);
                let got = c.lib("reading", || match way {
                    0 => TMFMesh::read_tmf_one(&mut src).map(|_| ()),
                    1 => futures::executor::block_on(TMFMesh::read_tmf_async(&mut src)).map(|_| ()),
                    2 => futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut src)).map(|_| ()),
                    _ => TMFMesh::read_tmf(&mut src).map(|_| ()),
                });
                c.stat(if kind.is_some() { "tmf source faults" } else { "tmf source ends" }, 1);
                match got {
                    None => return,
                    Some(Ok(())) => {
                        c.violation("read-fault", format!("a TMF file of {} bytes whose source {} at byte {k} is read successfully", b.len(), kind.map_or("ends".into(), |k| format!("fails ({k:?})"))));
                        return;
                    }
                    Some(Err(_)) => (),
                }
            }
            // Failures leave no trace.
            if r.one_in(4) {
                let before = result_digest(&first, &names);
                let Some(again) = c.lib("read_tmf", || gen::read(&b)) else { return };
                c.stat("good reads after faults", 1);
                if result_digest(&again, &names) != before {
                    c.violation("after-fault", format!("after reads which failed a TMF file of {} bytes reads differently", b.len()));
                }
            }
            c.nontrivial(&hash_bytes(0, &b).to_le_bytes());
            c.sample(|| format!("TMF source of {} bytes failing at {} points", b.len(), fault_points(&mut r, b.len(), all).len()));
        }
        // Faults while writing.
        2 => {
            let obj = r.bool();
            let ms = if obj {
                obj_meshes(&mut r, max)
            } else {
                (0..1 + r.us(3)).map(|_| (gen::any_mesh(&mut r, max).mesh(), gen::name(&mut r, 30))).collect()
            };
            let info = gen::prec(&mut r).info();
            let one = r.one_in(4);
            let write = |w: &mut Flaky| -> Result<(), String> {
                match (obj, one) {
                    (true, true) => ms[0].0.write_obj_one(w, &ms[0].1).map_err(|e| e.to_string()),
                    (true, false) => TMFMesh::write_obj(&ms, w).map_err(|e| e.to_string()),
                    (false, true) => ms[0].0.write_tmf_one(w, &info, ms[0].1.clone()).map_err(|e| e.to_string()),
                    (false, false) => TMFMesh::write_tmf(&ms, w, &info).map_err(|e| e.to_string()),
                }
            };
            let mut ideal = Flaky::new(&[], usize::MAX, None, r.clone(), 0, false);
            let Some(Ok(())) = c.lib("writing", || write(&mut ideal)) else { return };
            let ideal = ideal.out;
            for style in 0..3 {
                let mut w = Flaky::new(&[], usize::MAX, None, r.clone(), style, r.bool());
                let got = c.lib("writing", || write(&mut w));
                c.stat("split writes", 1);
                if got != Some(Ok(())) || w.out != ideal {
                    c.violation("short-write", format!("a sink which transfers less at a time gives {got:?} and other data"));
                }
            }
            for k in fault_points(&mut r, ideal.len(), all) {
                let kind = if r.one_in(3) { None } else { Some(*r.pick(&KINDS)) };
                let style = r.below(3);
                let mut w = Flaky::new(&[], k, kind, r.clone(), style, r.one_in(4));
                let got = c.lib("writing", || write(&mut w));
                c.stat(if obj { "obj sink faults" } else { "tmf sink faults" }, 1);
                match got {
                    None => return,
                    Some(Ok(())) => {
                        c.violation("write-fault", format!("writing {} bytes of {} succeeds although the sink fails ({kind:?}) at byte {k}", ideal.len(), if obj { "OBJ" } else { "TMF" }));
                        return;
                    }
                    Some(Err(_)) => (),
                }
                if !ideal.starts_with(&w.out) {
                    c.violation("write-prefix", format!("what a failing sink got before byte {k} is not the beginning of the file"));
                    return;
                }
            }
            let mut w = Flaky::new(&[], usize::MAX, None, r.clone(), 0, false);
            let got = c.lib("writing", || write(&mut w));
            c.stat("good writes after faults", 1);
            if got != Some(Ok(())) || w.out != ideal {
                c.violation("after-fault", format!("after writes which failed, writing {} bytes gives {got:?} and other data", ideal.len()));
            }
            c.nontrivial(&hash_bytes(1, &ideal).to_le_bytes());
        }
        // Faults while reading OBJ.
        3 => {
            let ms = obj_meshes(&mut r, max);
            let mut text = vec![];
            let Some(Ok(())) = c.lib("write_obj", || TMFMesh::write_obj(&ms, &mut text)) else { return };
            let Some(first) = c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut &text[..])).map(|a| obj_digest(&a)) else { return };
            let mut points = fault_points(&mut r, text.len(), all);
            points.push(text.len());
            for k in points {
                let kind = *r.pick(&KINDS);
                let mut src = Flaky::new(&text, k, Some(kind), r.clone(), r.clone().below(3), r.one_in(4));
                let one = r.one_in(4);
                let got = c.lib("reading", || if one { TMFMesh::read_from_obj_one(&mut src).map(|_| ()) } else { TMFMesh::read_from_obj(&mut src).map(|_| ()) });
                c.stat("obj source faults", 1);
                match got {
                    None => return,
                    Some(Ok(())) => {
                        c.violation("obj-read-fault", format!("an OBJ file of {} bytes whose source fails ({kind:?}) at byte {k} is imported successfully", text.len()));
                        return;
                    }
                    Some(Err(_)) => (),
                }
            }
            let again = c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut &text[..]));
            c.stat("good reads after faults", 1);
            if again.map(|a| obj_digest(&a)) != Some(first) {
                c.violation("after-fault", format!("after reads which failed an OBJ file of {} bytes reads differently", text.len()));
            }
            c.nontrivial(&hash_bytes(2, &text).to_le_bytes());
        }
        // Split transfers.
        _ => {
            let (mut b, names) = valid_file(&mut r, max);
            if r.one_in(6) {
                mutate(&mut r, &mut b);
                if codec::zero_width(&b) > ZERO_WIDTH_LIMIT {
                    return;
                }
            }
            let Some(want) = c.lib("read_tmf", || gen::read(&b)) else { return };
            let want = result_digest(&want, &names);
            for style in 0..3 {
                let mut src = Flaky::new(&b, usize::MAX, None, r.clone(), style, r.bool());
                let way = r.one_in(3);
                let Some(got) = c.lib("reading", || if way { futures::executor::block_on(TMFMesh::read_tmf_async(&mut src)) } else { TMFMesh::read_tmf(&mut src) }) else { return };
                c.stat("split reads", 1);
                if result_digest(&got, &names) != want {
                    c.violation("short-read", format!("a source which transfers less at a time gives another result for a TMF file of {} bytes", b.len()));
                }
            }
            let ms = obj_meshes(&mut r, max);
            let mut text = vec![];
            let Some(Ok(())) = c.lib("write_obj", || TMFMesh::write_obj(&ms, &mut text)) else { return };
            if r.one_in(4) {
                let k = r.us(text.len());
                text[k] = r.u64() as u8;
            }
            let Some(want) = c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut &text[..])) else { return };
            for style in 0..3 {
                let mut src = Flaky::new(&text, usize::MAX, None, r.clone(), style, r.bool());
                let Some(got) = c.lib("reading", || TMFMesh::read_from_obj(&mut src)) else { return };
                c.stat("split reads", 1);
                if obj_digest(&got) != obj_digest(&want) {
                    c.violation("short-read", format!("a source which transfers less at a time gives another result for an OBJ file of {} bytes", text.len()));
                }
            }
            c.nontrivial(&hash_bytes(3, &text).to_le_bytes());
        }
    }
}
pub fn obj_digest(r: &std::io::Result<gen::Named>) -> u64 {
    let mut b = vec![];
    match r {
        Ok(ms) => {
            for (m, n) in ms {
                b.extend(n.as_bytes());
                b.push(0xff);
                Spec::of(m).bytes(&mut b);
            }
        }
        Err(_) => b.push(2),
    }
    hash_bytes(5, &b)
}
// ---------------------------------------------------------------- C20
pub const C20: Prop = Prop {
    id: "C20",
    rule: "Valid and broken TMF files are read by the synchronous and asynchronous readers, under several executors, by several threads at once, with segment decodings delayed and reordered, and every result (each value bit for bit, or the kind of error) is compared with the first, and by the driver with that of builds with other features. Non-trivial: at least two segments or an error.",
    directed: &[],
    run: c20,
};
struct Noop;
impl Wake for Noop {
    fn wake(self: std::sync::Arc<Self>) {}
}
struct Flag(std::thread::Thread);
impl Wake for Flag {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.unpark();
    }
}
/// Executor which polls whenever it likes, also without having been woken.
fn eager<T>(f: impl Future<Output = T>, r: &mut Rng) -> T {
    let mut f = pin!(f);
    let noop = Waker::from(std::sync::Arc::new(Noop));
    let flag = Waker::from(std::sync::Arc::new(Flag(std::thread::current())));
    loop {
        // A new waker for every poll: an earlier one need not be kept.
        let w = if r.bool() { &noop } else { &flag };
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(w)) {
            return v;
        }
        if r.bool() {
            std::thread::yield_now();
        }
    }
}
/// Reading polled along with other futures, which has it polled by their wakers.
fn joined<T>(f: impl Future<Output = T>, k: u32) -> T {
    let mut left = k;
    let other = std::future::poll_fn(move |cx| {
        if left == 0 {
            return Poll::Ready(());
        }
        left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    });
    futures::executor::block_on(async { futures::join!(f, other).0 })
}
#[cfg(tmf_monitor)]
mod hook {
    use super::*;
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Mutex;
    pub static SEED: AtomicU64 = AtomicU64::new(0);
    pub static LOG: Mutex<Vec<(u64, bool)>> = Mutex::new(Vec::new());
    /// Instrumented readings run one case at a time, so that the log is that of one case.
    pub static TURN: Mutex<()> = Mutex::new(());
    pub fn hook(e: tmf::monitor::Event) -> tmf::monitor::Delay {
        use tmf::monitor::Event::*;
        let seed = SEED.load(Ordering::Relaxed);
        if seed == 0 {
            return Default::default();
        }
        let (n, begin) = match e {
            Begin(n) => (n, true),
            End(n) => (n, false),
        };
        if let Ok(mut l) = LOG.lock() {
            l.push((n, begin));
        }
        if !begin {
            return Default::default();
        }
        let h = mix(seed ^ mix(n));
        tmf::monitor::Delay { yields: (h & 7) as u32 * (h >> 3 & 1) as u32, sleep_us: if h >> 8 & 3 == 0 { h >> 16 & 127 } else { 0 } }
    }
}
/// Runs `f` with delayed decodings; afterwards the order of events is part of the statistics.
#[cfg(tmf_monitor)]
fn delayed<T>(c: &mut Case, seed: u64, f: impl FnOnce() -> T) -> Option<T> {
    use std::sync::atomic::Ordering;
    let _turn = hook::TURN.lock().unwrap_or_else(|e| e.into_inner());
    tmf::monitor::set_hook(Some(hook::hook));
    hook::LOG.lock().unwrap().clear();
    hook::SEED.store(seed | 1, Ordering::Relaxed);
    let r = c.lib("a delayed reading", f);
    hook::SEED.store(0, Ordering::Relaxed);
    let log = std::mem::take(&mut *hook::LOG.lock().unwrap());
    let first = log.iter().map(|e| e.0).min().unwrap_or(0);
    let mut open = 0i64;
    let mut b = vec![];
    let mut last = 0;
    let mut inversions = 0;
    for (n, begin) in &log {
        open += if *begin { 1 } else { -1 };
        c.maxi("decodings in progress at once", open as f64);
        b.extend((n - first).to_le_bytes());
        b.push(*begin as u8);
        if !begin {
            if *n < last {
                inversions += 1;
            }
            last = *n;
        }
    }
    c.stat("decoding events observed", log.len() as u64);
    c.stat("completions out of order", inversions);
    if log.len() > 2 {
        // Distinct orders of events are counted by the runner.
        let h = hash_bytes(9, &b);
        c.interleaving(h);
    }
    r
}
#[cfg(not(tmf_monitor))]
fn delayed<T>(c: &mut Case, _seed: u64, f: impl FnOnce() -> T) -> Option<T> {
    c.lib("a reading", f)
}
fn c20(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = if r.one_in(12) { 5000 } else { 40 };
    let (mut b, names) = valid_file(&mut r, max);
    if r.one_in(3) {
        if r.bool() {
            mutate(&mut r, &mut b);
        } else {
            b = hostile_file(&mut r);
        }
    }
    // Entries of zero bits make for large results.
    if codec::zero_width(&b) > 1 << 14 {
        return;
    }
    let digest = |x: &Result<gen::Named, TMFImportError>| result_digest(x, &names);
    let Some(first) = c.lib("read_tmf", || gen::read(&b)) else { return };
    let want = digest(&first);
    c.digest(want);
    let segs = codec::decode(&b).map_or(0, |f| f.meshes.iter().map(|m| m.segs.len()).sum());
    if segs > 1 || first.is_err() {
        c.nontrivial(&hash_bytes(0, &b).to_le_bytes());
    }
    c.stat(if first.is_ok() { "files read" } else { "files refused" }, 1);
    let judge = |c: &mut Case, what: &str, got: u64| {
        c.stat("results compared", 1);
        if got != want {
            c.violation("differs", format!("{what} gives another result than read_tmf did for a file of {} bytes with {segs} segments", b.len()));
        }
    };
    let seed = r.u64();
    let asy = || {
        let b = b.clone();
        async move { TMFMesh::read_tmf_async(&mut &b[..]).await }
    };
    if let Some(d) = delayed(c, seed, || digest(&gen::read(&b))) {
        judge(c, "read_tmf with delays", d);
    }
    if let Some(d) = delayed(c, mix(seed), || digest(&futures::executor::block_on(asy()))) {
        judge(c, "read_tmf_async under block_on", d);
    }
    match r.below(5) {
        0 => {
            let mut q = r.clone();
            if let Some(d) = delayed(c, mix(seed ^ 1), || digest(&eager(asy(), &mut q))) {
                judge(c, "read_tmf_async under an executor polling at random", d);
            }
        }
        1 => {
            let k = r.us(9) as u32;
            if let Some(d) = delayed(c, mix(seed ^ 2), || digest(&joined(asy(), k))) {
                judge(c, "read_tmf_async joined with another future", d);
            }
        }
        2 => {
            let d = delayed(c, mix(seed ^ 3), || {
                use futures::task::LocalSpawnExt;
                let mut pool = futures::executor::LocalPool::new();
                let out = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
                let k = 1 + seed as usize % 4;
                for _ in 0..k {
                    let (out, b, names) = (out.clone(), b.clone(), names.clone());
                    pool.spawner()
                        .spawn_local(async move {
                            let g = TMFMesh::read_tmf_async(&mut &b[..]).await;
                            out.borrow_mut().push(result_digest(&g, &names));
                        })
                        .unwrap();
                }
                pool.run();
                let o = out.borrow();
                if o.len() != k || o.iter().any(|d| *d != o[0]) {
                    0
                } else {
                    o[0]
                }
            });
            if let Some(d) = d {
                judge(c, "read_tmf_async by tasks of a LocalPool", d);
            }
        }
        3 => {
            // Threads, some of which read another file, and one of which writes.
            let (other, onames) = valid_file(&mut r, 40);
            let Some(ow) = c.lib("read_tmf", || result_digest(&gen::read(&other), &onames)) else { return };
            let m = vec![(gen::nice_mesh(&mut r, 40).mesh(), "w".to_string())];
            let p = gen::prec(&mut r);
            let n = 2 + r.us(6);
            let res = delayed(c, mix(seed ^ 4), || {
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..n)
                        .map(|i| {
                            let (b, other, names, onames, m, p) = (&b, &other, &names, &onames, &m, &p);
                            s.spawn(move || {
                                lib(|| match i % 4 {
                                    3 => result_digest(&gen::read(other), onames) == ow,
                                    2 => result_digest(&futures::executor::block_on(TMFMesh::read_tmf_async(&mut &b[..])), names) == want,
                                    1 if i > 4 => gen::write(m, &p.info()).ok() == gen::write(m, &p.info()).ok(),
                                    _ => result_digest(&gen::read(b), names) == want,
                                })
                                .unwrap_or(false)
                            })
                        })
                        .collect();
                    hs.into_iter().all(|h| h.join().unwrap_or(false))
                })
            });
            c.stat("concurrent readings", n as u64);
            if res == Some(false) {
                c.violation("threads", format!("one of {n} threads reading and writing at once got another result than alone"));
            }
        }
        _ => {
            #[cfg(feature = "tokio_rt")]
            {
                let d = delayed(c, mix(seed ^ 5), || {
                    let rt = if seed & 1 == 0 {
                        tokio::runtime::Builder::new_current_thread().build().unwrap()
                    } else {
                        tokio::runtime::Builder::new_multi_thread().worker_threads(2).build().unwrap()
                    };
                    digest(&rt.block_on(asy()))
                });
                if let Some(d) = d {
                    judge(c, "read_tmf_async under a tokio runtime", d);
                }
            }
            let Some(one) = c.lib("read_tmf_one", || TMFMesh::read_tmf_one(&mut &b[..]).map(|m| vec![m])) else { return };
            let Some(one_a) = delayed(c, mix(seed ^ 6), || futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut &b[..])).map(|m| vec![m])) else { return };
            c.stat("results compared", 1);
            if digest(&one) != digest(&one_a) {
                c.violation("differs", "read_tmf_one and read_tmf_one_async give different results".to_string());
            }
        }
    }
    // After readings given up part way, and after other calls which failed.
    if r.one_in(4) {
        delayed(c, mix(seed ^ 7), || {
            use std::future::Future;
            for polls in 0..4 {
                let mut f = Box::pin(asy());
                let w = futures::task::noop_waker();
                let mut cx = std::task::Context::from_waker(&w);
                for _ in 0..polls {
                    if f.as_mut().poll(&mut cx).is_ready() {
                        break;
                    }
                }
            }
        });
        c.stat("readings given up", 4);
        let ms = vec![(gen::any_mesh(&mut r, 30).mesh(), "w".to_string())];
        let info = gen::prec(&mut r).info();
        disturb(c, &mut r, &ms, &info);
        let Some(again) = c.lib("read_tmf", || gen::read(&b)) else { return };
        judge(c, "read_tmf after other calls which failed or were given up", digest(&again));
    }
    c.sample(|| format!("{} bytes, {segs} segments, result {want:016x}", b.len()));
}
// ---------------------------------------------------------------- C26
pub const C26: Prop = Prop {
    id: "C26",
    rule: "Valid and broken TMF and OBJ data are read, the meshes edited and written, twice: with fresh heap memory filled with 0xAA and with 0x55; every result must be the same, which it is not if memory nobody initialised shows in it. The same workload runs under AddressSanitizer (and, in the thorough tier, MemorySanitizer and Miri), which watch every access. Non-trivial: the input holds at least one segment, face or bit.",
    directed: &[c26_names],
    run: c26,
};
/// Names of meshes and custom data with one byte wrong, at every place.
fn c26_names(c: &mut Case) {
    if cfg!(miri) {
        return;
    }
    for len in (1..40).chain([255, 256, 1000]) {
        for at in (0..len.min(40)).chain([len - 1]) {
            for bad in [0x80u8, 0xC3, 0xFF, 0xF8] {
                let mut name = vec![b'a'; len];
                name[at] = bad;
                for custom in [false, true] {
                    if custom && len > 255 {
                        continue;
                    }
                    let model = vec![if custom {
                        (b"m".to_vec(), vec![Seg::CustomInt(15, name.clone(), Tris { prec: 3, min: 0, vals: vec![1, 2] })])
                    } else {
                        (name.clone(), vec![])
                    }];
                    let b = codec::encode([0, 2, 0, 2], &model);
                    c.nontrivial(&hash_bytes(3, &b).to_le_bytes());
                    let mut text = b"o ".to_vec();
                    text.extend(&name);
                    text.extend(b"\nv 0 0 0\nf 1 1 1\n");
                    if let Some(Ok(g)) = c.lib("read_tmf", || gen::read(&b)) {
                        check_text(c, &g);
                        for (m, _) in &g {
                            let ok: String = "a".repeat(len);
                            if m.lookup_custom_data(&ok).is_some() {
                                c.violation("custom-name", "custom data is found under another name than its own");
                            }
                        }
                    }
                    if let Some(Ok(g)) = c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut &text[..])) {
                        check_text(c, &g);
                    }
                }
            }
        }
    }
}
/// Everything that can be done with a mesh; returns a digest of what it led to.
fn exercise(m: &TMFMesh, name: &str, info: &tmf::TMFPrecisionInfo, names: &[String]) -> u64 {
    let mut d = vec![];
    Spec::of_with(m, names).bytes(&mut d);
    // `verify` before anything which may panic on meshes it refuses.
    let ok = m.verify().is_ok();
    d.push(ok as u8);
    for b in [m.get_vertex_buffer(), m.get_normal_buffer()] {
        for v in b.iter().flat_map(|b| b.iter()) {
            Spec { v: Some(vec![*v]), ..Spec::default() }.bytes(&mut d);
        }
    }
    d.extend((m.get_uv_buffer().map_or(0, |b| b.len()) as u64).to_le_bytes());
    // Operations documented for any mesh run on any; the rest may refuse with a panic, which is not judged here.
    let mut try_it = |f: &mut dyn FnMut(&mut Vec<u8>)| {
        let mut x = vec![];
        match lib(|| f(&mut x)) {
            Ok(()) => d.extend(hash_bytes(0, &x).to_le_bytes()),
            Err(_) => d.push(9),
        }
    };
    try_it(&mut |x| {
        let mut m = m.clone();
        m.normalize();
        Spec::of(&m).bytes(x);
    });
    if ok {
        try_it(&mut |x| {
            let mut m = m.clone();
            m.unify_index_data();
            Spec::of(&m).bytes(x);
        });
        try_it(&mut |x| {
            let mut m = m.clone();
            m.reorder_data();
            Spec::of(&m).bytes(x);
        });
        try_it(&mut |x| {
            if let Ok(b) = gen::write(&[(m.clone(), name.to_string())], info) {
                x.extend(&b);
                if let Ok(g) = gen::read(&b) {
                    Spec::of_with(&g[0].0, names).bytes(x);
                }
            }
        });
        try_it(&mut |x| {
            let mut t = vec![];
            if m.write_obj_one(&mut t, "m").is_ok() {
                x.extend(&t);
                x.extend(obj_digest(&TMFMesh::read_from_obj(&mut &t[..])).to_le_bytes());
            }
        });
    }
    hash_bytes(1, &d)
}
fn c26(c: &mut Case) {
    let mut r = c.rng.clone();
    let max = if cfg!(miri) { 6 } else if r.one_in(15) { 2000 } else { 30 };
    let seed = r.u64();
    let p = gen::prec(&mut r);
    match r.below(8) {
        0..=4 => {
            let (b, names) = if r.bool() { valid_file(&mut r, max) } else { hostile_input(&mut r, max) };
            if codec::zero_width(&b) > 1 << 14 {
                return;
            }
            if b.len() > 15 {
                c.nontrivial(&hash_bytes(0, &b).to_le_bytes());
            }
            if let Ok(Ok(g)) = lib(|| gen::read(&b)) {
                check_text(c, &g);
            }
            let tokio_fill = cfg!(feature = "tokio_rt");
            let go = |pat: u8| {
                if tokio_fill {
                    alloc::DEFAULT_FILL.store(pat, std::sync::atomic::Ordering::Relaxed);
                }
                alloc::filled(pat, || {
                    lib(|| {
                        let g = gen::read(&b);
                        let mut d = result_digest(&g, &names);
                        let info = p.info();
                        for (m, n) in g.iter().flatten() {
                            d = mix(d ^ exercise(m, n, &info, &names));
                        }
                        d
                    })
                })
            };
            let (x, y) = (go(0xAA), go(0x55));
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    c.stat("inputs run with two fillings", 1);
                    if x != y {
                        c.violation("uninitialised", format!("what reading {} bytes leads to depends on the former content of the heap; the file begins {:02x?}", b.len(), &b[..b.len().min(80)]));
                    }
                }
                _ => c.stat("panics, judged elsewhere", 1),
            }
        }
        5 => {
            let text = crate::objp::soup(&mut r, 400);
            c.nontrivial(&hash_bytes(1, &text).to_le_bytes());
            if let Ok(Ok(g)) = lib(|| TMFMesh::read_from_obj(&mut &text[..])) {
                check_text(c, &g);
            }
            let go = |pat: u8| alloc::filled(pat, || lib(|| obj_digest(&TMFMesh::read_from_obj(&mut &text[..]))).ok());
            c.stat("inputs run with two fillings", 1);
            if go(0xAA) != go(0x55) {
                c.violation("uninitialised", format!("what importing an OBJ file of {} bytes leads to depends on the former content of the heap", text.len()));
            }
        }
        6 => {
            let ms = obj_meshes(&mut r, max);
            c.nontrivial(&seed.to_le_bytes());
            let go = |pat: u8| {
                alloc::filled(pat, || {
                    lib(|| {
                        let mut t = vec![];
                        let _ = TMFMesh::write_obj(&ms, &mut t);
                        let g = TMFMesh::read_from_obj(&mut &t[..]);
                        let mut d = obj_digest(&g) ^ hash_bytes(2, &t);
                        for (m, n) in g.iter().flatten() {
                            d = mix(d ^ exercise(m, n, &p.info(), &[]));
                        }
                        d
                    })
                    .ok()
                })
            };
            c.stat("inputs run with two fillings", 1);
            if go(0xAA) != go(0x55) {
                c.violation("uninitialised", "what an OBJ round trip leads to depends on the former content of the heap".to_string());
            }
        }
        _ => {
            // The bit stream alone.
            let ops: Vec<(u8, u64)> = (0..r.us(60)).map(|_| { let w = r.below(64) as u8; (w, bits(&mut r, w)) }).collect();
            c.nontrivial(&seed.to_le_bytes());
            let go = |pat: u8| {
                alloc::filled(pat, || {
                    lib(|| {
                        use tmf::unaligned_rw::*;
                        let mut b = vec![];
                        {
                            let mut w = UnalignedWriter::new(&mut b);
                            for (n, v) in &ops {
                                w.write_unaligned(UnalignedRWMode::precision_bits(*n), *v).unwrap();
                            }
                            w.flush().unwrap();
                        }
                        let mut rd = UnalignedReader::new(&b[..]);
                        let mut d = hash_bytes(0, &b);
                        for (n, _) in &ops {
                            d = mix(d ^ rd.read_unaligned(UnalignedRWMode::precision_bits(*n)).unwrap_or(1));
                        }
                        d
                    })
                    .ok()
                })
            };
            c.stat("inputs run with two fillings", 1);
            if go(0xAA) != go(0x55) {
                c.violation("uninitialised", "the bit stream depends on the former content of the heap".to_string());
            }
        }
    }
}
