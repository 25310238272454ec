//! What operations cost, as a function of the size of the data: C30.
use crate::alloc;
use crate::codec;
use crate::fw::*;
use crate::gen;
use crate::rng::Rng;
use crate::spec::*;
use tmf::{FloatType as F, IndexType as I, TMFMesh};
pub const C30: Prop = Prop {
    id: "C30",
    rule: "Meshes, lists of meshes, files of many segments and OBJ texts of one make in three sizes, each 4 times the one before; for each operation the processor time of the thread (least of several runs) and the peak of its heap are compared between the smallest and the largest. Non-trivial: every case.",
    directed: &[],
    run: c30,
};
/// Processor time of this thread, in seconds.
fn cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}
/// How the data of a mesh is made, the same for all sizes.
struct Make {
    seed: u64,
    verts: u64,
    idx: u64,
    attrs: u64,
}
const TOP: u64 = if (I::MAX as u64) < 1 << 20 { I::MAX as u64 } else { u64::MAX };
fn verts(k: u64, r: &mut Rng, n: usize) -> Vec<V3> {
    let side = (n as f64).sqrt() as usize + 1;
    match k {
        0 => (0..n).map(|_| (r.uni(-1.0, 1.0) as F, r.uni(-1.0, 1.0) as F, r.uni(-1.0, 1.0) as F)).collect(),
        1 => (0..n).map(|i| ((i % side) as F, (i / side) as F, 0.0)).collect(),
        2 => vec![(1.0, 2.0, 3.0); n],
        3 => (0..n).map(|i| (i as F, 0.5 * i as F, -(i as F))).collect(),
        _ => (0..n).map(|i| { let a = i as f64 * 0.001; (a.sin() as F, a.cos() as F, (a * 0.01) as F) }).collect(),
    }
}
fn idx(k: u64, r: &mut Rng, n: usize, len: usize) -> Vec<I> {
    let l = (len as u64).clamp(1, TOP);
    let side = (len as f64).sqrt() as u64 + 1;
    match k {
        0 => (0..n).map(|_| r.below(l) as I).collect(),
        1 => (0..n).map(|i| (i as u64 % l) as I).collect(),
        2 => (0..n).map(|i| (l - 1 - i as u64 % l) as I).collect(),
        3 => vec![(l - 1) as I; n],
        // A grid, as meshes of terrain have.
        4 => (0..n).map(|i| { let t = i as u64 / 3; ((t / 2 + [0, 1, side][i % 3] + (t % 2) * [1, side, 0][i % 3]) % l) as I }).collect(),
        // Runs of low and of high values.
        6 => (0..n).map(|i| if (i / 40) % 2 == 0 { (i as u64 % 4).min(l - 1) as I } else { (l - 1 - r.below(l / 2 + 1)) as I }).collect(),
        // Blocks, each with values of its own.
        7 => (0..n).map(|i| ((i as u64 / 300 * 200 + r.below(60)) % l) as I).collect(),
        // Close to each other, as in meshes made for the cache.
        _ => (0..n).map(|i| ((i as u64 / 6 + r.below(20)) % l) as I).collect(),
    }
}
impl Make {
    fn spec(&self, n: usize) -> Spec {
        // Drawn first, so that all sizes are made alike.
        let r = &mut Rng::new(self.seed);
        let kinds = [0; 3].map(|_| r.below(9));
        let n = if TOP < u64::MAX { n.min(TOP as usize) } else { n };
        let mut s = Spec { v: Some(verts(self.verts, r, n)), vt: Some(idx(self.idx, r, 3 * n, n)), ..Spec::default() };
        let other = |r: &mut Rng, k: usize, s: &Spec| if self.attrs & (2 << (2 * k)) != 0 { s.vt.clone().unwrap() } else { idx(kinds[k], r, 3 * n, n) };
        if self.attrs & 1 != 0 {
            s.n = Some((0..n).map(|_| gen::unit(r)).collect());
            s.nt = Some(other(r, 0, &s));
        }
        if self.attrs & 4 != 0 {
            s.uv = Some((0..n).map(|_| (r.f64() as F, r.f64() as F)).collect());
            s.ut = Some(other(r, 1, &s));
        }
        if self.attrs & 16 != 0 {
            s.t = Some((0..n).map(|_| gen::tangent(r)).collect());
            s.tt = Some(other(r, 2, &s));
        }
        s
    }
}
type Op<'a> = (&'static str, Box<dyn Fn(usize) -> Box<dyn FnMut() -> u64> + 'a>);
/// Cost of the operations at sizes n, 4 n, 16 n; the factor allowed between the first and the last.
const FACTOR: f64 = 150.0;
/// The factor between the first and the second above which the last is only estimated.
const FACTOR_EARLY: f64 = 12.5;
const FACTOR_HEAP: f64 = 64.0;
fn judge(c: &mut Case, what: &str, about: &str, n: usize, op: &dyn Fn(usize) -> Box<dyn FnMut() -> u64>) {
    let mut worst = f64::INFINITY;
    let mut seen = (0.0, 0.0);
    for attempt in 0..3 {
        let mut times = [f64::INFINITY; 3];
        let mut heaps = [0usize; 3];
        for k in 0..3 {
            // What would take long at the largest size shows between the smaller ones already.
            let early = times[1] / times[0].max(5e-4);
            if k == 2 && early > FACTOR_EARLY && times[1] > 0.15 {
                times[2] = times[1] * early;
                heaps[2] = heaps[1] * 4;
                continue;
            }
            let reps = [6, 3, 1 + attempt][k];
            for rep in 0..reps {
                if rep > 0 && times[k] > 1.0 {
                    break;
                }
                let mut f = op(n << (2 * k));
                let t = cpu();
                let Some((_, peak, _)) = c.lib(what, || alloc::measured(&mut f)) else { return };
                times[k] = times[k].min(cpu() - t);
                heaps[k] = heaps[k].max(peak);
            }
        }
        c.stat("costs_measured", 3);
        let heap = heaps[2] as f64 / heaps[0].max(4096 + 4 * n) as f64;
        c.maxi(&format!("heap factor of {what}"), heap);
        if heap > FACTOR_HEAP {
            c.violation("heap", format!("{what} of {about}: the peak of the heap is {} bytes for {n} entries, {} for {}, and {} for {}", heaps[0], heaps[1], 4 * n, heaps[2], 16 * n));
            return;
        }
        let f = times[2] / times[0].max(5e-4);
        if f < worst {
            worst = f;
            seen = (times[0], times[2]);
        }
        if worst <= FACTOR || attempt > 0 && times[1] > 5.0 {
            break;
        }
    }
    c.maxi(&format!("time factor of {what}"), worst);
    if worst > FACTOR {
        c.violation("time", format!("{what} of {about} takes {:.6} s for {n} entries and {:.6} s (measured, or estimated at four times fewer) for {}: {worst:.0} times as much", seen.0, seen.1, 16 * n));
    }
}
fn obj_text(r: &mut Rng, n: usize, style: u64) -> Vec<u8> {
    use std::fmt::Write;
    let mut s = String::from("o one\n");
    for i in 0..n {
        let _ = writeln!(s, "v {} {} {}", i, r.f64(), -(i as f64));
        if style & 1 != 0 {
            let _ = writeln!(s, "vn {} 0 1", r.f64());
        }
        if style & 2 != 0 {
            let _ = writeln!(s, "vt {} {}", r.f64(), r.f64());
        }
        if style & 4 != 0 && i % 3 == 0 {
            let _ = writeln!(s, "# comment\ns off\nusemtl m{i}");
        }
    }
    for _ in 0..n {
        let mut f = String::from("f");
        for _ in 0..3 {
            let mut one = || 1 + r.us(n.min(TOP.min(1 << 40) as usize));
            let (a, b, d) = (one(), one(), one());
            let _ = match style & 3 {
                0 => write!(f, " {a}"),
                1 => write!(f, " {a}//{b}"),
                2 => write!(f, " {a}/{b}"),
                _ => write!(f, " {a}/{b}/{d}"),
            };
        }
        s.push_str(&f);
        s.push('\n');
    }
    s.into_bytes()
}
/// A small segment of one of several kinds.
fn many_seg(kind: u64, at: usize, vals: &[u64]) -> codec::Seg {
    use codec::Seg;
    let tris = || codec::Tris { min: 0, prec: 6, vals: vals.to_vec() };
    match kind {
        0 | 1 => Seg::Tri(2, tris()),
        2 => Seg::Tri(6, tris()),
        3 => Seg::Shared(7, tris()),
        4 => Seg::Shared(2, tris()),
        5 => Seg::Uv { prec: 6, raw: vals.iter().map(|v| [*v, 1]).collect() },
        // Each with a name of its own.
        6 => Seg::CustomInt(14, format!("n{at}").into_bytes(), tris()),
        _ => Seg::Unknown(200, 0, vec![1, 2, 3]),
    }
}
fn c30(c: &mut Case) {
    let r = &mut c.rng.clone();
    let make = Make { seed: r.u64(), verts: r.below(5), idx: r.below(9), attrs: r.below(64) };
    let n = if c.thorough && r.one_in(3) { 20000 } else { 2000 + r.us(3000) };
    let n = if TOP < u64::MAX { n.min(4000) } else { n };
    c.nontrivial(&make.seed.to_le_bytes());
    let p = gen::Prec::default();
    let info = || p.info();
    let style = r.below(8);
    let seed = make.seed;
    let spec = |n: usize| make.spec(n);
    let customs = r.us(4);
    let base = n;
    let share = *r.pick(&[10, 10, 3]);
    let ops: Vec<Op> = vec![
        ("write_tmf", Box::new(|n| {
            let m = [(spec(n).mesh(), "m".to_string())];
            let i = info();
            Box::new(move || gen::write(&m, &i).unwrap().len() as u64)
        })),
        ("read_tmf", Box::new(|n| {
            let b = gen::write(&[(spec(n).mesh(), "m".to_string())], &info()).unwrap();
            Box::new(move || gen::read(&b).unwrap().len() as u64)
        })),
        ("write_tmf of a list", Box::new(|n| {
            let k = n / share;
            let m: Vec<_> = (0..k).map(|i| (Make { seed: seed + i as u64, ..make }.spec(5).mesh(), format!("m{i}"))).collect();
            let i = info();
            Box::new(move || gen::write(&m, &i).unwrap().len() as u64)
        })),
        ("read_tmf of a list", Box::new(|n| {
            let k = n / share;
            let m: Vec<_> = (0..k).map(|i| (Make { seed: seed + i as u64, ..make }.spec(5).mesh(), format!("m{i}"))).collect();
            let b = gen::write(&m, &info()).unwrap();
            Box::new(move || gen::read(&b).unwrap().len() as u64)
        })),
        ("unify_index_data", Box::new(|n| {
            let mut m = spec(if TOP < u64::MAX { n.min(TOP as usize / 3) } else { n }).mesh();
            Box::new(move || { m.unify_index_data(); 0 })
        })),
        ("reorder_data", Box::new(|n| {
            let mut m = spec(n).mesh();
            Box::new(move || { m.reorder_data(); 0 })
        })),
        ("verify", Box::new(|n| {
            let m = spec(n).mesh();
            Box::new(move || m.verify().is_ok() as u64)
        })),
        ("normalize", Box::new(|n| {
            let mut m = spec(n).mesh();
            Box::new(move || { m.normalize(); 0 })
        })),
        ("buffers", Box::new(|n| {
            let m = spec(n).mesh();
            Box::new(move || (m.get_vertex_buffer().map_or(0, |b| b.len()) + m.get_normal_buffer().map_or(0, |b| b.len()) + m.get_uv_buffer().map_or(0, |b| b.len())) as u64)
        })),
        ("setting and appending", Box::new(|n| {
            let s = spec(n);
            Box::new(move || {
                let mut m = TMFMesh::empty();
                for k in s.v.as_ref().unwrap().chunks(7) {
                    m.append_vertices(k);
                }
                for k in s.vt.as_ref().unwrap().chunks(7) {
                    m.append_vertex_triangles(k);
                }
                for k in s.n.iter().flat_map(|a| a.chunks(7)) {
                    m.append_normals(k);
                }
                for k in s.uv.iter().flat_map(|a| a.chunks(7)) {
                    m.append_uvs(k);
                }
                for k in s.t.iter().flat_map(|a| a.chunks(7)) {
                    m.append_tangents(k);
                }
                m.get_vertices().unwrap().len() as u64
            })
        })),
        ("write_obj", Box::new(|n| {
            let m = [(Spec { t: None, tt: None, ..spec(n) }.mesh(), "m".to_string())];
            Box::new(move || {
                let mut b = vec![];
                TMFMesh::write_obj(&m, &mut b).unwrap();
                b.len() as u64
            })
        })),
        ("read_from_obj", Box::new(|n| {
            let b = obj_text(&mut Rng::new(seed), n, style);
            Box::new(move || TMFMesh::read_from_obj(&mut &b[..]).unwrap().len() as u64)
        })),
        ("read_from_obj of polygons", Box::new(|n| {
            let mut b = vec![];
            use std::io::Write;
            let corners = if cfg!(feature = "triangulation") { 4 + style as usize % 4 } else { 3 };
            let places = if TOP < u64::MAX { n.min(8000) / corners } else { n / corners };
            for k in 0..n / corners {
                let mut f = "f".to_string();
                for i in 0..corners {
                    if k < places {
                        let a = i as f64 / corners as f64 * std::f64::consts::TAU;
                        let _ = writeln!(b, "v {} {} {}", a.cos(), k % 100, a.sin());
                    }
                    f += &format!(" {}", k % places * corners + i + 1);
                }
                let _ = writeln!(b, "{f}");
            }
            Box::new(move || TMFMesh::read_from_obj(&mut &b[..]).unwrap().len() as u64)
        })),
        ("read_from_obj of many objects", Box::new(|n| {
            let r = &mut Rng::new(seed);
            let mut b = vec![];
            // Each with data of its own, as exporters write scenes.
            use std::io::Write;
            for k in 0..n / 8 {
                let _ = writeln!(b, "o thing{k}");
                for i in 0..4 {
                    let _ = writeln!(b, "v {} {i} {k}\nvn {} 0 1\nvt {} 1", r.f64(), r.f64(), r.f64());
                }
                for q in ["1 2 3", "2 3 4"] {
                    let l = k * 4;
                    let f: Vec<String> = q.split(' ').map(|d| { let i = l + d.parse::<usize>().unwrap(); if style & 1 == 0 { format!("{i}") } else { format!("{i}/{i}/{i}") } }).collect();
                    let _ = writeln!(b, "f {}", f.join(" "));
                }
            }
            Box::new(move || TMFMesh::read_from_obj(&mut &b[..]).unwrap().len() as u64)
        })),
        ("custom data", Box::new(|n| {
            let mut m = TMFMesh::empty();
            let r = &mut Rng::new(seed);
            let v: Vec<I> = (0..n).map(|_| r.below(1000) as I).collect();
            let f: Vec<F> = (0..n).map(|_| r.f64() as F).collect();
            for k in 0..=customs {
                m.add_custom_data(tmf::CustomData::CustomIndex(v.clone().into(), 1000), &format!("i{k}")).unwrap();
                m.add_custom_data(tmf::CustomData::CustomFloat(f.clone().into(), 0.001), &format!("f{k}")).unwrap();
            }
            let i = info();
            let m = [(m, "m".to_string())];
            Box::new(move || gen::read(&gen::write(&m, &i).unwrap()).unwrap().len() as u64)
        })),
        ("many custom arrays", Box::new(|n| {
            // A mesh has at most 65535 segments.
            let n = n / base * (base / 2).min(3500);
            let data = move |k: usize| match (style + k as u64 * (style & 1)) % 3 {
                0 => tmf::CustomData::CustomIndex(vec![1, k as I % 7].into(), 7),
                1 => tmf::CustomData::CustomFloat(vec![0.5, 1.0].into(), 0.01),
                _ => tmf::CustomData::CustomColorRGBA(vec![(0.5, 0.25, 0.0, 1.0)].into(), 0.01),
            };
            let i = info();
            let repeat = style & 2 != 0;
            Box::new(move || {
                let mut m = TMFMesh::empty();
                for k in 0..n {
                    // Names may be repeated.
                    let name = if repeat { k % 10 } else { k };
                    m.add_custom_data(data(k), &format!("c{name}")).unwrap();
                }
                let b = gen::write(&[(m, "m".to_string())], &i).unwrap();
                gen::read(&b).unwrap().iter().map(|(m, _)| m.lookup_custom_data("c0").is_some() as u64).sum()
            })
        })),
        ("write_obj of a list", Box::new(|n| {
            let few: Vec<Spec> = (0..4).map(|k| Spec { t: None, tt: None, ..Make { seed: seed + k, ..make }.spec(3) }).collect();
            let m: Vec<_> = (0..2 * n).map(|i| (if i % 2 == 0 { few[i / 2 % 4].mesh() } else { TMFMesh::empty() }, format!("m{i}"))).collect();
            Box::new(move || {
                let mut b = vec![];
                TMFMesh::write_obj(&m, &mut b).unwrap();
                b.len() as u64
            })
        })),
        ("read_tmf of many segments", Box::new(|n| {
            let r = &mut Rng::new(seed);
            let mut segs = vec![];
            let k = n / base * (base / 4).min(3500);
            for i in 0..k {
                let idx = (0..3).map(|_| r.below(64)).collect::<Vec<u64>>();
                segs.push(many_seg(style, i, &idx));
            }
            let b = codec::encode([0, 2, 0, 2], &[(b"m".to_vec(), segs)]);
            Box::new(move || gen::read(&b).map_or(1, |m| m.len() as u64))
        })),
    ];
    let about = format!("vertices of kind {}, indices of kind {}, arrays {:06b}, text of style {style}", make.verts, make.idx, make.attrs);
    c.sample(|| format!("{n} to {} entries, {about}", 16 * n));
    for (what, op) in &ops {
        // Short indices do not reach far enough for objects with data of their own.
        if TOP < u64::MAX && *what == "read_from_obj of many objects" {
            continue;
        }
        judge(c, what, &about, n, op.as_ref());
    }
}
