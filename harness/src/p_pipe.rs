//! Pipelines of operations as applications run them: C29.
use crate::fw::*;
use crate::gen;
use crate::p_edit::{corners, dlens, idxs};
use crate::p_round::{c06_compare, c06_declared, max_len, names, shortest_edge, EPS};
use crate::spec::*;
use tmf::{FloatType as F, IndexType as I, TMFMesh};
pub const C29: Prop = Prop {
    id: "C29",
    rule: "Lists of meshes verify accepts, with index arrays of equal lengths, taken through up to 12 operations in any order: unify, reorder, normalize, append, clone, TMF and OBJ round trips through single, list and asynchronous calls, the state after each compared with the state before it and judged by verify. Non-trivial: at least two different operations were applied.",
    directed: &[],
    run: c29,
};
type State = Vec<(TMFMesh, String)>;
const OPS: [&str; 7] = ["unify_index_data", "reorder_data", "normalize", "append", "clone", "TMF round trip", "OBJ round trip"];
fn see(ms: &State, ns: &[Vec<String>]) -> Vec<Spec> {
    ms.iter().zip(ns).map(|((m, _), n)| Spec::of_with(m, n)).collect()
}
fn start(c: &Case, r: &mut crate::rng::Rng) -> Spec {
    let max = max_len(c).min(if r.one_in(12) { 3000 } else { 80 });
    let mut s = gen::nice_mesh(r, max);
    let l = s.v.as_ref().unwrap().len() as u64;
    if s.vt.as_ref().is_none_or(|a| a.is_empty()) {
        s = Spec { v: s.v, vt: Some((0..3 * (1 + r.us(20))).map(|_| r.below(l) as I).collect()), ..Spec::default() };
    }
    if r.one_in(3) {
        s.custom = gen::customs(r, 60);
    }
    s
}
fn tmf_trip(c: &mut Case, r: &mut crate::rng::Rng, ms: &State, p: &gen::Prec) -> Option<State> {
    let info = p.info();
    let one = ms.len() == 1 && r.bool();
    let mut b = vec![];
    let w = c.lib("write_tmf", || {
        if one {
            ms[0].0.write_tmf_one(&mut b, &info, ms[0].1.as_str())
        } else {
            TMFMesh::write_tmf(ms, &mut b, &info)
        }
    })?;
    if let Err(e) = w {
        c.violation("write", format!("write_tmf failed: {e}"));
        return None;
    }
    let way = r.below(3);
    let got = c.lib("read_tmf", || match (way, one) {
        (0, true) => TMFMesh::read_tmf_one(&mut &b[..]).map(|m| vec![m]),
        (1, true) => futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut &b[..])).map(|m| vec![m]),
        (2, _) => futures::executor::block_on(TMFMesh::read_tmf_async(&mut &b[..])),
        _ => TMFMesh::read_tmf(&mut &b[..]),
    })?;
    match got {
        Ok(g) => Some(g),
        Err(e) => {
            c.violation("read", format!("read_tmf of a written file failed: {e}"));
            None
        }
    }
}
fn obj_trip(c: &mut Case, r: &mut crate::rng::Rng, ms: &State) -> Option<State> {
    let one = ms.len() == 1 && r.bool();
    let mut b = vec![];
    let w = c.lib("write_obj", || {
        if one {
            ms[0].0.write_obj_one(&mut b, &ms[0].1)
        } else {
            TMFMesh::write_obj(ms, &mut b)
        }
    })?;
    if let Err(e) = w {
        c.violation("write", format!("write_obj failed: {e}"));
        return None;
    }
    let got = c.lib("read_from_obj", || if one { TMFMesh::read_from_obj_one(&mut &b[..]).map(|m| vec![m]) } else { TMFMesh::read_from_obj(&mut &b[..]) })?;
    match got {
        Ok(g) => Some(g),
        Err(e) => {
            c.violation("read", format!("read_from_obj of a written file failed: {e}"));
            None
        }
    }
}
fn d3(a: V3) -> [f64; 3] {
    [a.0 as f64, a.1 as f64, a.2 as f64]
}
fn far(a: [f64; 3], b: [f64; 3]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}
fn angle(a: [f64; 3], b: [f64; 3]) -> f64 {
    let x = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt().atan2(a[0] * b[0] + a[1] * b[1] + a[2] * b[2])
}
/// The angle allowed, with what the linear steps of z (a known finding of C03 and C04) add next to the poles.
fn dir_limit(d: f64) -> f64 {
    let bits = ((std::f64::consts::FRAC_PI_2 / d).log2() - 1e-5).ceil().clamp(1.0, 63.0) as i32;
    let step = 1.0 / (2f64.powi(bits) - 1.0);
    d * (1.0 + 1e-5) + 1.5 * step.sqrt() + 4.0 * EPS.sqrt()
}
fn after_tmf(c: &mut Case, a: &Spec, b: &Spec, p: &gen::Prec) -> Result<(), String> {
    if dlens(a) != dlens(b) {
        return Err(format!("{} became {}", a.shape(), b.shape()));
    }
    for k in 0..4 {
        if idxs(a)[k] != idxs(b)[k] {
            return Err(format!("index array {k} changed"));
        }
    }
    if let (Some(x), Some(y)) = (&a.v, &b.v) {
        let m = x.iter().fold(0.0f64, |m, v| m.max(d3(*v).iter().fold(0.0, |m, c| m.max(c.abs()))));
        let lim = p.p as f64 * shortest_edge(a) * (1.0 + 1e-5) + 16.0 * EPS * m + 32.0 * F::MIN_POSITIVE as f64;
        for (i, (u, v)) in x.iter().zip(y).enumerate() {
            let s = m.max(f64::MIN_POSITIVE);
            let d = far(d3(*u).map(|x| x / s), d3(*v).map(|x| x / s)) * s;
            if !(d <= lim) {
                return Err(format!("vertex {i} {u:?} became {v:?}, off by {d:e}, allowed {lim:e}"));
            }
        }
        c.stat("values_compared", x.len() as u64);
    }
    if let (Some(x), Some(y)) = (&a.n, &b.n) {
        let lim = dir_limit(p.norm_rad());
        if let Some(i) = (0..x.len()).find(|i| !(angle(d3(x[*i]), d3(y[*i])) <= lim)) {
            return Err(format!("normal {i} {:?} became {:?}, allowed {lim}", x[i], y[i]));
        }
        c.stat("values_compared", x.len() as u64);
    }
    if let (Some(x), Some(y)) = (&a.t, &b.t) {
        let lim = dir_limit(p.tan_rad());
        if let Some(i) = (0..x.len()).find(|i| x[*i].1 != y[*i].1 || !(angle(d3(x[*i].0), d3(y[*i].0)) <= lim)) {
            return Err(format!("tangent {i} {:?} became {:?}, allowed {lim}", x[i], y[i]));
        }
        c.stat("values_compared", x.len() as u64);
    }
    if let (Some(x), Some(y)) = (&a.uv, &b.uv) {
        let lim = p.dev as f64 / p.res as f64 * (1.0 + 1e-5) + 2.0 * EPS;
        if let Some(i) = (0..x.len()).find(|i| !((x[*i].0 as f64 - y[*i].0 as f64).abs() <= lim && (x[*i].1 as f64 - y[*i].1 as f64).abs() <= lim)) {
            return Err(format!("UV {i} {:?} became {:?}, allowed {lim}", x[i], y[i]));
        }
        c.stat("values_compared", x.len() as u64);
    }
    if a.custom.len() != b.custom.len() {
        return Err(format!("{} custom arrays became {}", a.custom.len(), b.custom.len()));
    }
    for ((n, x), (_, y)) in a.custom.iter().zip(&b.custom) {
        c06_compare(c, n, x, y);
        c06_declared(c, n, x, y);
    }
    Ok(())
}
fn same_corners(c: &mut Case, a: &Spec, b: &Spec, kinds: usize) -> Result<(), String> {
    let (x, y) = (corners(a), corners(b));
    for k in 0..kinds {
        if x[k] != y[k] {
            let at = x[k].iter().flatten().zip(y[k].iter().flatten()).position(|(a, b)| a != b);
            return Err(format!("corner {at:?} of kind {k} differs ({} became {})", a.shape(), b.shape()));
        }
        c.stat("corners_compared", x[k].as_ref().map_or(0, |a| a.len() as u64));
    }
    Ok(())
}
fn doubled(s: &Spec) -> Spec {
    let mut d = s.clone();
    fn twice<T: Copy>(a: &mut Option<Vec<T>>, i: &mut Option<Vec<I>>) {
        let n = a.as_ref().map_or(0, |a| a.len());
        if let Some(a) = a {
            a.extend_from_within(..);
        }
        if let Some(i) = i {
            let more: Vec<I> = i.iter().map(|x| *x + n as I).collect();
            i.extend(more);
        }
    }
    twice(&mut d.v, &mut d.vt);
    twice(&mut d.n, &mut d.nt);
    twice(&mut d.uv, &mut d.ut);
    twice(&mut d.t, &mut d.tt);
    d
}
fn append(m: &mut TMFMesh, from: &Spec, to: &Spec) {
    let tail = |a: &Vec<I>| a[a.len() / 2..].to_vec();
    if let Some(a) = &from.v {
        m.append_vertices(a);
    }
    if let Some(a) = &to.vt {
        m.append_vertex_triangles(&tail(a));
    }
    if let Some(a) = &from.n {
        m.append_normals(a);
    }
    if let Some(a) = &to.nt {
        m.append_normal_triangles(&tail(a));
    }
    if let Some(a) = &from.uv {
        m.append_uvs(a);
    }
    if let Some(a) = &to.ut {
        m.append_uv_triangles(&tail(a));
    }
    if let Some(a) = &from.t {
        m.append_tangents(a);
    }
    if let Some(a) = &to.tt {
        m.append_tangent_triangles(&tail(a));
    }
}
fn c29(c: &mut Case) {
    let mut r = c.rng.clone();
    let k = if r.bool() { 1 } else { 1 + r.us(4) };
    let specs: Vec<Spec> = (0..k).map(|_| start(c, &mut r)).collect();
    let mut ns: Vec<Vec<String>> = specs.iter().map(names).collect();
    for n in &mut ns {
        n.sort();
        n.dedup();
    }
    let mut ms: State = specs.iter().enumerate().map(|(i, s)| (s.mesh_via(&mut r), if r.one_in(4) { "m".into() } else { format!("mesh {i}.{}", r.below(100)) })).collect();
    for (m, _) in &ms {
        if c.lib("verify", || m.verify()).is_none_or(|v| v.is_err()) {
            c.stat("not verified, skipped", 1);
            return;
        }
    }
    let mut done: Vec<&str> = vec![];
    for _ in 0..1 + r.us(12) {
        let before = see(&ms, &ns);
        let titles: Vec<String> = ms.iter().map(|m| m.1.clone()).collect();
        let op = r.us(OPS.len());
        let p = gen::prec(&mut r);
        let mut exact: Option<Vec<Spec>> = None;
        match op {
            0..=2 => {
                for (m, _) in &mut ms {
                    let ok = c.lib(OPS[op], || match op {
                        0 => m.unify_index_data(),
                        1 => m.reorder_data(),
                        _ => m.normalize(),
                    });
                    if ok.is_none() {
                        return;
                    }
                }
            }
            3 => {
                if before.iter().any(|s| dlens(s).iter().flatten().chain(idxs(s).iter().filter_map(|a| a.as_ref().map(|a| a.len())).collect::<Vec<_>>().iter()).any(|n| *n > 5000.min(I::MAX as usize / 2 - 1))) {
                    continue;
                }
                let to: Vec<Spec> = before.iter().map(doubled).collect();
                for (i, (m, _)) in ms.iter_mut().enumerate() {
                    if c.lib("append", || append(m, &before[i], &to[i])).is_none() {
                        return;
                    }
                }
                exact = Some(to);
            }
            4 => {
                // The clone goes on, the original is changed.
                let Some(clone) = c.lib("clone", || ms.clone()) else { return };
                for (m, _) in &mut ms {
                    m.reorder_data();
                    m.set_vertices(vec![]);
                    m.append_normals(&[(0.0, 0.0, 1.0)]);
                }
                ms = clone;
                exact = Some(before.clone());
            }
            5 => match tmf_trip(c, &mut r, &ms, &p) {
                Some(g) => ms = g,
                None => return,
            },
            _ => {
                // Which knows of no tangents and custom data.
                match obj_trip(c, &mut r, &ms) {
                    Some(g) => ms = g,
                    None => return,
                }
            }
        }
        done.push(OPS[op]);
        c.stat(OPS[op], 1);
        let so_far = done.join(", ");
        if ms.len() != before.len() || ms.iter().zip(&titles).any(|(m, t)| m.1 != *t) {
            c.violation("list", format!("after {so_far}: {titles:?} became {:?}", ms.iter().map(|m| &m.1).collect::<Vec<_>>()));
            return;
        }
        let after = see(&ms, &ns);
        for (i, (a, b)) in before.iter().zip(&after).enumerate() {
            let wrong = match (op, &exact) {
                (_, Some(want)) => diff(&want[i], b).map_or(Ok(()), Err),
                (0 | 1, _) => same_corners(c, a, b, 4).and_then(|_| {
                    let (x, y) = (Spec { custom: a.custom.clone(), ..Spec::default() }, Spec { custom: b.custom.clone(), ..Spec::default() });
                    diff(&x, &y).map_or(Ok(()), Err)
                }),
                (2, _) => {
                    let (mut x, mut y) = (a.clone(), b.clone());
                    let (p, q) = (x.n.take(), y.n.take());
                    match (p, q) {
                        (Some(p), Some(q)) if p.len() == q.len() => (0..p.len())
                            .find(|i| {
                                let (u, v) = (d3(p[*i]), d3(q[*i]));
                                let l = far(u, [0.0; 3]);
                                !(far(u.map(|x| x / l), v) <= 1e-5)
                            })
                            .map_or(Ok(()), |i| Err(format!("normal {i} became {:?}", q[i]))),
                        (None, None) => Ok(()),
                        _ => Err("normals appeared or vanished".into()),
                    }
                    .and_then(|_| diff(&x, &y).map_or(Ok(()), Err))
                }
                (5, _) => after_tmf(c, a, b, &p),
                _ => same_corners(c, a, b, 3),
            };
            let wrong = wrong.and_then(|_| match op {
                0 => {
                    let part: Vec<usize> = (0..4).filter(|k| dlens(b)[*k].is_some_and(|l| l > 0) && idxs(b)[*k].is_some()).collect();
                    if part.windows(2).any(|w| idxs(b)[w[0]] != idxs(b)[w[1]]) {
                        return Err("index arrays differ after unify_index_data".into());
                    }
                    Ok(())
                }
                1 => {
                    for k in 0..3 {
                        let (Some(n), Some(x)) = (dlens(b)[k], idxs(b)[k]) else { continue };
                        let mut next = 0u64;
                        for v in x {
                            match (*v as u64).cmp(&next) {
                                std::cmp::Ordering::Less => (),
                                std::cmp::Ordering::Equal => next += 1,
                                _ => return Err(format!("index {v} of kind {k} is used before {next} after reorder_data")),
                            }
                        }
                        if next != n as u64 {
                            return Err(format!("{n} entries of kind {k} are left after reorder_data, {next} are used"));
                        }
                    }
                    Ok(())
                }
                _ => Ok(()),
            });
            if let Err(e) = wrong {
                c.violation(OPS[op].split(' ').next().unwrap(), format!("mesh {i} ({}) after {so_far}: {e}", a.shape()));
                return;
            }
            match c.lib("verify", || ms[i].0.verify()) {
                Some(Ok(())) => (),
                Some(Err(e)) => {
                    c.violation("verify", format!("mesh {i} ({}) after {so_far} is not accepted any more: {e}", b.shape()));
                    return;
                }
                None => return,
            }
            let cs = corners(b);
            let Some(bufs) = c.lib("buffers", || (ms[i].0.get_vertex_buffer(), ms[i].0.get_normal_buffer(), ms[i].0.get_uv_buffer())) else { return };
            let n = [bufs.0.as_ref().map(|a| a.len()), bufs.1.as_ref().map(|a| a.len()), bufs.2.as_ref().map(|a| a.len())];
            let bits = |a: &V3| [(a.0 as f64).to_bits(), (a.1 as f64).to_bits(), (a.2 as f64).to_bits(), 0];
            let same = cs[0] == bufs.0.map(|a| a.iter().map(bits).collect())
                && cs[1] == bufs.1.map(|a| a.iter().map(bits).collect())
                && cs[2] == bufs.2.map(|a| a.iter().map(|a| [(a.0 as f64).to_bits(), (a.1 as f64).to_bits(), 0, 0]).collect());
            if !same {
                c.violation("buffers", format!("mesh {i} ({}) after {so_far}: buffers of lengths {n:?} do not list its corners", b.shape()));
                return;
            }
        }
        if !c.out.violations.is_empty() {
            return;
        }
    }
    let mut kinds = done.clone();
    kinds.sort();
    kinds.dedup();
    if kinds.len() > 1 {
        let mut b = done.join(",").into_bytes();
        for s in &specs {
            b.extend(s.hash().to_le_bytes());
        }
        c.nontrivial(&b);
    }
    c.sample(|| format!("{} meshes: {}", ms.len(), done.join(", ")));
}
