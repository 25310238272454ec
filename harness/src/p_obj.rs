//! Properties of OBJ import and export: C16 to C19.
use crate::alloc;
use crate::fw::*;
use crate::gen;
use crate::objp;
use crate::p_round::{key, max_len};
use crate::rng::{hash_bytes, Rng};
use crate::spec::*;
use std::collections::HashMap;
use tmf::{FloatType as F, IndexType as I, TMFMesh};
/// Values of a corner: bits of the vertex, and of UV and normal if there are any.
type Corner = ([u64; 3], Option<[u64; 2]>, Option<[u64; 3]>);
fn b3(v: V3) -> [u64; 3] {
    [v.0, v.1, v.2].map(|x| (x as f64).to_bits())
}
fn b2(v: V2) -> [u64; 2] {
    [v.0, v.1].map(|x| (x as f64).to_bits())
}
/// Values of all corners; an error if an index selects nothing, or arrays do not match.
fn corners(s: &Spec) -> Result<Vec<Corner>, String> {
    let empty = vec![];
    let vt = s.vt.as_ref().unwrap_or(&empty);
    let get = |what: &str, a: &Option<Vec<I>>, len: usize| -> Result<(), String> {
        match a {
            Some(a) if a.len() != vt.len() => Err(format!("{} {what} indices for {} corners", a.len(), vt.len())),
            Some(a) => match a.iter().find(|i| **i as u64 >= len as u64) {
                Some(i) => Err(format!("{what} index {i} of {len}")),
                None => Ok(()),
            },
            None => Ok(()),
        }
    };
    get("vertex", &s.vt, s.v.as_ref().map_or(0, |a| a.len()))?;
    get("normal", &s.nt, s.n.as_ref().map_or(0, |a| a.len()))?;
    get("UV", &s.ut, s.uv.as_ref().map_or(0, |a| a.len()))?;
    Ok((0..vt.len())
        .map(|i| {
            (
                b3(s.v.as_ref().unwrap()[vt[i] as usize]),
                s.ut.as_ref().map(|a| b2(s.uv.as_ref().unwrap()[a[i] as usize])),
                s.nt.as_ref().map(|a| b3(s.n.as_ref().unwrap()[a[i] as usize])),
            )
        })
        .collect())
}
fn show(c: &Corner) -> String {
    let f = |b: &[u64]| b.iter().map(|b| f64::from_bits(*b).to_string()).collect::<Vec<_>>().join(",");
    format!("({}) uv {} normal {}", f(&c.0), c.1.map_or("-".into(), |x| f(&x)), c.2.map_or("-".into(), |x| f(&x)))
}
fn line_name(r: &mut Rng) -> String {
    gen::name(r, 200).chars().filter(|c| !matches!(c, '\n' | '\r')).collect()
}
// ---------------------------------------------------------------- C16
pub const C16: Prop = Prop {
    id: "C16",
    rule: "Lists of 0 to 8 meshes with consistent triangle lists, point clouds, unused data, missing normals or UVs, tangents and custom data, any finite values, are exported; the text is read by an independent parser and by the library's importer, and names, values and corners compared bit by bit. Meshes with unequal or incomplete index arrays must be refused. Non-trivial: at least one face was compared, or a refusal judged.",
    directed: &[c16_many],
    run: c16,
};
/// Mesh that can be exported; `total` is the number of vertices still available.
fn exportable(r: &mut Rng, max: usize) -> Spec {
    let mut s = Spec::default();
    match r.below(12) {
        0 => {
            // Point cloud, or nothing at all.
            if !r.one_in(4) {
                let n = gen::len(r, max);
                s.v = Some(gen::vertices(r, n));
            }
            if r.bool() {
                let n = gen::len(r, max);
                s.n = Some(gen::units(r, n));
            }
            if r.bool() {
                let n = gen::len(r, max);
                s.uv = Some(gen::uvs(r, n));
            }
        }
        _ => {
            let nv = 1 + gen::len(r, max);
            let n = gen::len(r, max) / 3 * 3;
            s.v = Some(gen::vertices(r, nv));
            s.vt = Some(gen::indices(r, n, nv as u64));
            for k in 0..2 {
                if r.one_in(3) {
                    continue;
                }
                let nd = if r.one_in(3) { nv } else { 1 + gen::len(r, max) };
                if k == 0 {
                    s.n = Some(gen::vec_of(r, nd, |r| if r.one_in(5) { gen::vertices(r, 1)[0] } else { gen::unit(r) }));
                    if !r.one_in(6) {
                        s.nt = Some(if nd == nv && r.bool() { s.vt.clone().unwrap() } else { gen::indices(r, n, nd as u64) });
                    }
                } else {
                    s.uv = Some(gen::vec_of(r, nd, |r| if r.one_in(5) { (gen::dict_float(r) as F, r.log(-20.0, 20.0) as F) } else { gen::uv(r) }));
                    if !r.one_in(6) {
                        s.ut = Some(if nd == nv && r.bool() { s.vt.clone().unwrap() } else { gen::indices(r, n, nd as u64) });
                    }
                }
            }
        }
    }
    if r.one_in(5) {
        let n = 1 + gen::len(r, 20);
        s.t = Some(gen::tangents(r, n));
        if r.bool() {
            let k = r.us(9);
            s.tt = Some(gen::indices(r, k, n as u64));
        }
    }
    if r.one_in(6) {
        s.custom = gen::customs(r, 10);
    }
    s
}
fn c16(c: &mut Case) {
    let mut r = c.rng.clone();
    let k = match r.below(10) {
        0 => 0,
        1..=3 => 1,
        _ => 2 + r.us(6),
    };
    let max = if cfg!(feature = "narrow") { 2000 } else { max_len(c).min(if r.one_in(10) { 20_000 } else { 60 }) };
    let mut specs: Vec<(Spec, String)> = (0..k).map(|_| (exportable(&mut r, max), line_name(&mut r))).collect();
    if r.one_in(8) && k > 0 {
        return c16_refused(c, &mut r, &mut specs);
    }
    c16_check(c, specs);
}
/// Meshes which together have more entries than 16 bits can count, or than one mesh may have.
fn c16_many(c: &mut Case) {
    let mut r = c.rng.clone();
    let k = 3 + r.us(3);
    let specs: Vec<(Spec, String)> = (0..k)
        .map(|i| {
            let l = [65_535, 30_000 + r.us(20_000), 65_534, 1][if i < 2 { i } else { r.us(4) }];
            let n = 3 * (1 + r.us(2000));
            let mut s = Spec { v: Some(gen::vertices(&mut r, l)), vt: Some(gen::indices(&mut r, n, l as u64)), ..Spec::default() };
            if r.bool() {
                let l = 20_000 + r.us(45_000);
                s.n = Some((0..l).map(|_| gen::unit(&mut r)).collect());
                s.nt = Some(gen::indices(&mut r, n, l as u64));
            }
            if r.bool() {
                let l = 20_000 + r.us(45_000);
                s.uv = Some((0..l).map(|_| gen::uv(&mut r)).collect());
                s.ut = Some(gen::indices(&mut r, n, l as u64));
            }
            (s, line_name(&mut r))
        })
        .collect();
    c.stat("many_entries", 1);
    c16_check(c, specs);
}
fn c16_check(c: &mut Case, specs: Vec<(Spec, String)>) {
    let mut r = c.rng.clone();
    let k = specs.len();
    let ms: gen::Named = specs.iter().map(|(s, n)| (s.mesh_via(&mut r), n.clone())).collect();
    let mut text = vec![];
    match c.lib("write_obj", || TMFMesh::write_obj(&ms, &mut text)) {
        None => return,
        Some(Err(e)) => {
            c.violation("write-error", format!("export failed: {e} ({})", specs.iter().map(|(s, _)| s.shape()).collect::<Vec<_>>().join("; ")));
            return;
        }
        Some(Ok(())) => (),
    }
    let want: Vec<Vec<Corner>> = specs.iter().map(|(s, _)| corners(s).expect("consistent")).collect();
    // The text, read independently.
    let got = match objp::parse(&text) {
        Ok(g) => g,
        Err(e) => {
            c.violation("syntax", format!("the exported text is not well-formed: {e}"));
            return;
        }
    };
    if got.len() != k {
        c.violation("objects", format!("{k} meshes became {} objects", got.len()));
        return;
    }
    let all_v: Vec<[F; 3]> = got.iter().flat_map(|o| o.v.clone()).collect();
    let all_n: Vec<[F; 3]> = got.iter().flat_map(|o| o.vn.clone()).collect();
    let all_t: Vec<[F; 2]> = got.iter().flat_map(|o| o.vt.clone()).collect();
    for (i, (o, (s, n))) in got.iter().zip(&specs).enumerate() {
        if o.name != *n {
            c.violation("name", format!("mesh {i}: name {n:?} became {:?}", o.name));
            return;
        }
        let empty3 = vec![];
        let eq3 = |a: &[[F; 3]], b: &Option<Vec<V3>>| {
            let b = b.as_ref().unwrap_or(&empty3);
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| b3((a[0], a[1], a[2])) == b3(*b))
        };
        let uv = s.uv.clone().unwrap_or_default();
        if !eq3(&o.v, &s.v) || !eq3(&o.vn, &s.n) || o.vt.len() != uv.len() || o.vt.iter().zip(&uv).any(|(a, b)| b2((a[0], a[1])) != b2(*b)) {
            c.violation("values", format!("mesh {i}: the exported vertices, normals or UVs are not those of the mesh ({} {} {} for {})", o.v.len(), o.vn.len(), o.vt.len(), s.shape()));
            return;
        }
        let mut cs: Vec<Corner> = vec![];
        for (v, t, n) in &o.corners {
            let pick3 = |a: &[[F; 3]], i: u64| a.get(i as usize - 1).map(|x| b3((x[0], x[1], x[2])));
            let (Some(v), t2, n2) = (pick3(&all_v, *v), t.map(|t| all_t.get(t as usize - 1).map(|x| b2((x[0], x[1])))), n.map(|n| pick3(&all_n, n))) else {
                c.violation("range", format!("mesh {i}: a face refers to data not in the file"));
                return;
            };
            if t2 == Some(None) || n2 == Some(None) {
                c.violation("range", format!("mesh {i}: a face refers to data not in the file"));
                return;
            }
            cs.push((v, t2.flatten(), n2.flatten()));
        }
        if cs != want[i] {
            let j = (0..cs.len().min(want[i].len())).find(|j| cs[*j] != want[i][*j]);
            c.violation(
                "faces",
                format!("mesh {i} of {k}: {} corners became {}; first difference at {j:?}: {} became {}", want[i].len(), cs.len(), j.map_or("".into(), |j| show(&want[i][j])), j.map_or("".into(), |j| show(&cs[j]))),
            );
            return;
        }
        c.stat("corners_compared", cs.len() as u64);
        if !cs.is_empty() {
            c.nontrivial(&key(&specs, ""));
        }
    }
    // The text, imported by the library.
    let back = match c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut &text[..])) {
        None => return,
        Some(Err(e)) => {
            // Indices count from the start of the text, and may be too big to be read.
            let all = [all_v.len(), all_n.len(), all_t.len()].into_iter().max().unwrap() as u128;
            if all <= tmf::IndexType::MAX as u128 {
                c.violation("import-error", format!("the exported text could not be imported: {e}"));
            } else {
                c.stat("imports_refused_for_size", 1);
            }
            return;
        }
        Some(Ok(b)) => b,
    };
    let back: Vec<(Spec, String)> = back.iter().map(|(m, n)| (Spec::of(m), n.clone())).filter(|(s, _)| s.vt.as_ref().is_some_and(|a| !a.is_empty())).collect();
    let with: Vec<usize> = (0..k).filter(|i| !want[*i].is_empty()).collect();
    if back.len() != with.len() {
        c.violation("import-count", format!("{} meshes with faces were exported, {} are imported", with.len(), back.len()));
        return;
    }
    for (j, (s, n)) in back.iter().enumerate() {
        let i = with[j];
        if *n != specs[i].1 {
            c.violation("import-name", format!("name {:?} is imported as {n:?}", specs[i].1));
            return;
        }
        match corners(s) {
            Ok(cs) if cs == want[i] => c.stat("corners_imported", cs.len() as u64),
            Ok(cs) => {
                let x = (0..cs.len().min(want[i].len())).find(|j| cs[*j] != want[i][*j]);
                c.violation("import", format!("mesh {i}: {} corners are imported as {}; first difference {:?}", want[i].len(), cs.len(), x.map(|x| (show(&want[i][x]), show(&cs[x])))));
                return;
            }
            Err(e) => {
                c.violation("import", format!("mesh {i}: imported with {e}"));
                return;
            }
        }
    }
    c.sample(|| format!("{k} meshes: {}", specs.iter().map(|(s, _)| s.shape()).collect::<Vec<_>>().join("; ")));
}
fn c16_refused(c: &mut Case, r: &mut Rng, specs: &mut Vec<(Spec, String)>) {
    let at = r.us(specs.len());
    let nv = 1 + gen::len(r, 30);
    let n = 3 + gen::len(r, 30) / 3 * 3;
    let mut s = Spec { v: Some(gen::vertices(r, nv)), vt: Some(gen::indices(r, n, nv as u64)), ..Spec::default() };
    s.n = Some(gen::units(r, nv));
    s.uv = Some(gen::uvs(r, nv));
    let other = |r: &mut Rng| loop {
        let k = match r.below(5) {
            0 => 0,
            1 => n + 3,
            2 => n - 3,
            3 => n + 1,
            _ => r.us(3 * n),
        };
        if k != n {
            break k;
        }
    };
    let what = match r.below(6) {
        0 => {
            let k = other(r);
            s.nt = Some(gen::indices(r, k, nv as u64));
            if r.bool() {
                s.ut = s.vt.clone();
            }
            format!("{n} vertex and {k} normal indices")
        }
        1 => {
            let k = other(r);
            s.ut = Some(gen::indices(r, k, nv as u64));
            if r.bool() {
                s.nt = s.vt.clone();
            }
            format!("{n} vertex and {k} UV indices")
        }
        2 => {
            s.vt = None;
            s.nt = Some(gen::indices(r, n, nv as u64));
            "normal indices but no vertex indices".into()
        }
        3 => {
            s.vt = None;
            s.ut = Some(gen::indices(r, n, nv as u64));
            "UV indices but no vertex indices".into()
        }
        _ => {
            let k = n + 1 + r.us(2);
            let a = gen::indices(r, k, nv as u64);
            if r.bool() {
                s.nt = Some(a.clone());
            }
            if r.bool() {
                s.ut = Some(a.clone());
            }
            s.vt = Some(a);
            format!("{k} indices, which end with an incomplete triangle")
        }
    };
    specs[at].0 = s;
    let ms: gen::Named = specs.iter().map(|(s, n)| (s.mesh(), n.clone())).collect();
    c.nontrivial(&key(specs, "refused"));
    c.stat("refusals", 1);
    let mut text = vec![];
    if let Some(Ok(())) = c.lib("write_obj", || TMFMesh::write_obj(&ms, &mut text)) {
        c.violation("accepted", format!("a mesh with {what} is exported without an error"));
    }
}
// ---------------------------------------------------------------- C17
pub const C17: Prop = Prop {
    id: "C17",
    rule: "OBJ texts are made from a model: 1 to 6 objects (the last has faces), all four corner styles, data before and between faces, comments, blank and unsupported lines, spaces, tabs and rarer white space, CRLF and LF, many number formats, extra components, no final newline; what is imported is compared with the model. Texts with one index made zero, negative, out of range or malformed, or one corner or face of another style, must be refused. Non-trivial: a face was compared or a refusal judged.",
    directed: &[],
    run: c17,
};
fn number(r: &mut Rng) -> String {
    let x = match r.below(4) {
        0 => r.range(-100, 100) as f64,
        1 => gen::dict_float(r),
        _ => r.uni(-10.0, 10.0),
    };
    match r.below(12) {
        0 => format!("{}", x as F),
        1 => format!("{x:.6}"),
        2 => format!("{x:.0}"),
        3 => format!("{x:e}"),
        4 => format!("{x:E}"),
        5 => format!("+{}", x.abs()),
        6 => format!(".{}", r.below(100000)),
        7 => format!("{}.", r.below(1000)),
        8 => format!("{:08.3}", x),
        9 => (*r.pick(&["0", "-0", "0.0", "-0.0", "1", "1e-40", "1e30", "-1.17549435e-38", "3.4028234e38", "0.1", "1e0", "1E+2", "1e-2"])).to_string(),
        10 => format!("{x:.20}"),
        _ => format!("{:.4}", x),
    }
}
fn ws(r: &mut Rng, style: u64) -> &'static str {
    match style {
        0 => " ",
        1 => *r.pick(&[" ", "  ", "\t", " \t ", "   "]),
        3 => *r.pick(&[" ", "\t", "\x0c", " \x0c ", "\x0b", "\r", "\u{2003}", "\u{3000}", "\u{85}", "\u{1680} "]),
        _ => *r.pick(&[" ", " ", " ", "  "]),
    }
}
fn c17(c: &mut Case) {
    let mut r = c.rng.clone();
    let style = if r.one_in(8) { 3 } else { r.below(3) };
    let crlf = r.below(3);
    let noise = r.below(3);
    let objects = 1 + r.us(6);
    let scale = if r.one_in(12) { 400 } else { 12 };
    let (mut v, mut vt, mut vn): (Vec<V3>, Vec<V2>, Vec<V3>) = (vec![], vec![], vec![]);
    let mut lines: Vec<String> = vec![];
    let mut want: Vec<(String, Vec<Corner>)> = vec![];
    // Places of faces: line, style of the corners.
    let mut faces: Vec<(usize, u64, usize)> = vec![];
    let mut implicit = r.one_in(4);
    let data = |r: &mut Rng, lines: &mut Vec<String>, v: &mut Vec<V3>, vt: &mut Vec<V2>, vn: &mut Vec<V3>, kind: u64| {
        let mut nums: Vec<String> = (0..if kind == 1 { 2 } else { 3 }).map(|_| number(r)).collect();
        let p = |s: &String| s.parse::<F>().expect("number");
        match kind {
            0 => v.push((p(&nums[0]), p(&nums[1]), p(&nums[2]))),
            1 => vt.push((p(&nums[0]), p(&nums[1]))),
            _ => vn.push((p(&nums[0]), p(&nums[1]), p(&nums[2]))),
        }
        match kind {
            0 if r.one_in(10) => nums.push("1.0".into()),
            0 if r.one_in(15) => nums.extend(["0.5".into(), "0.25".into(), "1".into()]),
            1 if r.one_in(8) => nums.push("0".into()),
            _ => (),
        }
        let mut l = ["v", "vt", "vn"][kind as usize].to_string();
        for n in nums {
            l += ws(r, style);
            l += &n;
        }
        lines.push(l);
    };
    let junk = |r: &mut Rng, lines: &mut Vec<String>| {
        if noise == 0 || !r.one_in(if noise == 1 { 12 } else { 3 }) {
            return;
        }
        lines.push(
            r.pick(&[
                "", " ", "\t", "# comment", "#comment", "#", "# f 1 2 3", "#v 1 2 3", "s 1", "s off", "s", "usemtl Mat.001", "mtllib a b.mtl", "g group", "g", "l 1 2", "p 1", "vp 0.1 0.2", "fo 1 2 3", "vnn 0 0 1", "off 1",
                "vx 1", "object x", "F 9 9 9", "V 1 2 3", "O name", "cstype bezier", "end", "1 2 3", "ó", "名前 v", "/", "usemtl", "mg 1 0.5",
            ])
            .to_string(),
        );
    };
    for o in 0..objects {
        let name = if implicit {
            implicit = false;
            String::new()
        } else {
            let n = line_name(&mut r);
            let n = n.trim().to_string();
            lines.push(if n.is_empty() { (*r.pick(&["o", "o "])).to_string() } else { format!("o {n}") });
            n
        };
        let nf = if o + 1 < objects && r.one_in(4) { 0 } else { 1 + gen::len(&mut r, scale) };
        let fstyle = r.below(4);
        let mut cs: Vec<Corner> = vec![];
        // Data may come before any of the faces which use it, also in an earlier object.
        let first = if o == 0 { 1 + r.us(6) } else { r.us(6) };
        for _ in 0..first {
            for kind in 0..3 {
                if kind == 0 || r.bool() || o > 0 {
                    data(&mut r, &mut lines, &mut v, &mut vt, &mut vn, kind);
                }
            }
            junk(&mut r, &mut lines);
        }
        for _ in 0..nf {
            let uses_t = fstyle & 1 != 0;
            let uses_n = fstyle & 2 != 0;
            if uses_t && vt.is_empty() {
                data(&mut r, &mut lines, &mut v, &mut vt, &mut vn, 1);
            }
            if uses_n && vn.is_empty() {
                data(&mut r, &mut lines, &mut v, &mut vt, &mut vn, 2);
            }
            if r.one_in(4) {
                let kind = r.below(3);
                data(&mut r, &mut lines, &mut v, &mut vt, &mut vn, kind);
            }
            junk(&mut r, &mut lines);
            let mut l = "f".to_string();
            for _ in 0..3 {
                let near = r.bool();
                let mut pick = |n: usize| if near { n - 1 - r.us(n.min(3)) } else { r.us(n) };
                let (a, t, n) = (pick(v.len()), if uses_t { Some(pick(vt.len())) } else { None }, if uses_n { Some(pick(vn.len())) } else { None });
                l += ws(&mut r, style);
                l += &match (t, n) {
                    (None, None) => format!("{}", a + 1),
                    (Some(t), None) => format!("{}/{}", a + 1, t + 1),
                    (None, Some(n)) => format!("{}//{}", a + 1, n + 1),
                    (Some(t), Some(n)) => format!("{}/{}/{}", a + 1, t + 1, n + 1),
                };
                cs.push((b3(v[a]), t.map(|t| b2(vt[t])), n.map(|n| b3(vn[n]))));
            }
            faces.push((lines.len(), fstyle, nf));
            lines.push(l);
        }
        if nf > 0 {
            want.push((name, cs));
        }
        junk(&mut r, &mut lines);
    }
    // Data nobody uses may follow.
    if r.one_in(4) {
        let kind = r.below(3);
        data(&mut r, &mut lines, &mut v, &mut vt, &mut vn, kind);
    }
    // One thing made wrong.
    let mut wrong = None;
    if r.one_in(3) {
        let (at, fstyle, nf) = faces[r.us(faces.len())];
        let mut tok: Vec<String> = lines[at].split_whitespace().map(|s| s.to_string()).collect();
        let k = 1 + r.us(3);
        let mut p: Vec<String> = tok[k].split('/').map(|s| s.to_string()).collect();
        let parts: Vec<usize> = (0..p.len()).filter(|i| !p[*i].is_empty()).collect();
        let i = *r.pick(&parts);
        let total = [v.len(), vt.len(), vn.len()][i] as u64;
        let bad = match r.below(14) {
            0 => "0".to_string(),
            1 => "-1".into(),
            2 => format!("-{}", 1 + r.below(total)),
            3 | 4 => (total + 1).to_string(),
            5 => (total + 1 + r.below(1000)).to_string(),
            6 => (u64::from(u32::MAX) + 1 + r.below(total + 1)).to_string(),
            7 => format!("1844674407370955161{}", 6 + r.below(3)),
            8 => (*r.pick(&["a", "1.5", "1e0", "0x1", "--1", "1-", "٣", "1,", "nan", "1_0", "²"])).to_string(),
            9 => (65536 + r.below(total + 1)).to_string(),
            10 => "00".into(),
            11 => {
                p = p.iter().map(|s| s.clone()).chain(std::iter::repeat("1".to_string())).take(4).collect();
                if p[1].is_empty() {
                    p[1] = "1".into();
                }
                p[i].clone()
            }
            _ => {
                // Another style: in one corner, or in the whole face if it is not the only one of its object.
                let to = (fstyle + 1 + r.below(3)) & 3;
                let conv = |t: &str, to: u64| {
                    let v = t.split('/').next().unwrap().to_string();
                    match to {
                        0 => v,
                        1 => format!("{v}/1"),
                        2 => format!("{v}//1"),
                        _ => format!("{v}/1/1"),
                    }
                };
                let whole = nf > 1 && r.bool();
                for j in 1..4 {
                    if whole || j == k {
                        tok[j] = conv(&tok[j], to);
                    }
                }
                wrong = Some(format!("face {:?} in an object whose faces are of another style", tok.join(" ")));
                lines[at] = tok.join(" ");
                // There must be data, so that style is all that is wrong.
                for _ in 0..1 {
                    lines.insert(0, "vt 0 0".into());
                    lines.insert(0, "vn 0 0 1".into());
                }
                String::new()
            }
        };
        if wrong.is_none() {
            // Vertices are never given 65536 or more in this workload.
            p[i] = bad;
            tok[k] = p.join("/");
            lines[at] = tok.join(" ");
            wrong = Some(format!("face {:?} in a file of {} vertices, {} UVs, {} normals", lines[at], v.len(), vt.len(), vn.len()));
        }
    }
    let mut text = String::new();
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        let name_line = l.starts_with('o');
        if style & 1 == 1 && r.one_in(6) {
            text += ws(&mut r, style);
        }
        text += l;
        if style & 1 == 1 && r.one_in(6) && !name_line {
            text += ws(&mut r, style);
        }
        if i + 1 < n || !r.one_in(3) {
            text += match crlf {
                0 => "\n",
                1 => "\r\n",
                _ => *r.pick(&["\n", "\r\n"]),
            };
        }
    }
    c.nontrivial(&hash_bytes(0, text.as_bytes()).to_le_bytes());
    let Some(got) = c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut text.as_bytes())) else { return };
    let begin = |t: &str| t.chars().take(1200).collect::<String>();
    match (wrong, got) {
        (Some(w), Ok(_)) => c.violation("accepted", format!("a text with {w} is imported; it begins {:?}", begin(&text))),
        (Some(_), Err(_)) => c.stat("refusals", 1),
        (None, Err(e)) => c.violation("refused", format!("a well-formed text is refused: {e}; it begins {:?}", begin(&text))),
        (None, Ok(got)) => {
            let names: Vec<&str> = got.iter().map(|g| g.1.as_str()).collect();
            let wanted: Vec<&str> = want.iter().map(|g| g.0.as_str()).collect();
            if names != wanted {
                c.violation("objects", format!("objects {wanted:?} are imported as {names:?}; the text begins {:?}", begin(&text)));
                return;
            }
            for (i, ((m, _), (n, cs))) in got.iter().zip(&want).enumerate() {
                let s = Spec::of(m);
                match corners(&s) {
                    Ok(g) if g == *cs => {
                        c.stat("corners_compared", g.len() as u64);
                        c.stat(&format!("objects of style {}", (cs[0].1.is_some() as u8) + 2 * cs[0].2.is_some() as u8), 1);
                        // Nor may there be data without indices.
                        if (s.n.is_some() && s.nt.is_none()) || (s.uv.is_some() && s.ut.is_none()) {
                            c.violation("unused", format!("object {n:?} has normals or UVs no face refers to"));
                        }
                    }
                    Ok(g) => {
                        let j = (0..g.len().min(cs.len())).find(|j| g[*j] != cs[*j]);
                        c.violation("corners", format!("object {i} {n:?}: {} corners are imported as {}; first difference {:?}; the text begins {:?}", cs.len(), g.len(), j.map(|j| (j, show(&cs[j]), show(&g[j]))), begin(&text)));
                        return;
                    }
                    Err(e) => {
                        c.violation("corners", format!("object {i} {n:?} is imported with {e}; the text begins {:?}", begin(&text)));
                        return;
                    }
                }
            }
        }
    }
    c.sample(|| format!("{objects} objects, {n} lines, style {style}"));
}
// ---------------------------------------------------------------- C18
pub const C18: Prop = Prop {
    id: "C18",
    rule: "Random bytes, soups of OBJ tokens, OBJ-like lines with references to missing data, large faces, odd indices, and exported files with bytes changed are imported; panics, aborts, non-termination and the peak of the heap are watched. Non-trivial: a line of the text is one the importer acts on.",
    directed: &[c18_directed, c18_large],
    run: c18,
};
fn c18_check(c: &mut Case, b: &[u8]) {
    let acts = b.split(|x| *x == b'\n').any(|l| {
        let s = String::from_utf8_lossy(l);
        matches!(s.split_whitespace().next(), Some("v" | "vn" | "vt" | "f" | "o"))
    });
    if acts {
        c.nontrivial(&hash_bytes(0, b).to_le_bytes());
    }
    let objects = 1 + b.split(|x| *x == b'\n').filter(|l| String::from_utf8_lossy(l).split_whitespace().next() == Some("o")).count();
    let Some((got, peak, _)) = c.lib("read_from_obj", || alloc::measured(|| TMFMesh::read_from_obj(&mut &b[..]))) else { return };
    let w = if DOUBLE || LONG { 2 } else { 1 };
    let limit = w * 24 * b.len() * (objects + 1) + (1 << 20);
    c.maxi("heap above 1 MB, per byte of input and object", peak.saturating_sub(1 << 20) as f64 / b.len().max(1) as f64 / (objects + 1) as f64);
    if peak > limit {
        c.violation("memory", format!("importing {} bytes with {objects} objects used {peak} bytes of heap", b.len()));
    }
    c.stat(if got.is_ok() { "imported" } else { "refused" }, 1);
    if c.rng.one_in(8) {
        let _ = c.lib("read_from_obj_one", || TMFMesh::read_from_obj_one(&mut &b[..]).is_ok());
    }
    if let Ok(g) = got {
        crate::p_read::check_text(c, &g);
        for (m, _) in &g {
            // What was imported refers only to what is there.
            if let Some(Err(e)) = c.lib("checking", || corners(&Spec::of(m))) {
                c.violation("broken", format!("importing {} bytes gives a mesh with {e}; they begin {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(300)])));
                return;
            }
        }
    }
}
fn c18(c: &mut Case) {
    let mut r = c.rng.clone();
    let b = match r.below(10) {
        0 => {
            let n = gen::len(&mut r, 3000);
            r.bytes(n)
        }
        1 => {
            let n = gen::len(&mut r, 3000);
            (0..n).map(|_| *r.pick(b"vfnto 0123456789/.-e\n\n\r\t#")).collect()
        }
        2 => {
            // A big face.
            let top = if r.one_in(20) { 1200 } else { 60 };
            let k = 3 + r.us(top);
            let nv = 1 + r.us(k * 2);
            let mut t = String::new();
            for i in 0..nv {
                let a = i as f64 * 0.01;
                t += &match r.below(5) {
                    0 => "v 0 0 0\n".to_string(),
                    1 => "v nan inf -inf\n".to_string(),
                    _ => format!("v {} {} {}\n", a.cos(), a.sin(), r.below(2)),
                };
            }
            t += "f";
            let over = r.one_in(5) as u64;
            for i in 0..k {
                t += &format!(" {}", if r.bool() { 1 + r.below(nv as u64 + over) } else { 1 + i as u64 % nv as u64 });
            }
            t.into_bytes()
        }
        3 => {
            let s = exportable(&mut r, 40);
            let mut t = vec![];
            let _ = c.lib("write_obj", || s.mesh().write_obj_one(&mut t, "m"));
            for _ in 0..1 + r.us(5) {
                if t.is_empty() {
                    break;
                }
                let k = r.us(t.len());
                match r.below(5) {
                    0 => t[k] = r.u64() as u8,
                    1 => t[k] = *r.pick(b"/ 0-\n9"),
                    2 => {
                        let j = (k + r.us(20)).min(t.len());
                        t.drain(k..j);
                    }
                    3 => {
                        let j = (k + r.us(40)).min(t.len());
                        let x = t[k..j].to_vec();
                        let at = r.us(t.len());
                        t.splice(at..at, x);
                    }
                    _ => t.truncate(k),
                }
            }
            t
        }
        _ => objp::soup(&mut r, 300),
    };
    c18_check(c, &b);
    c.sample(|| format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(120)])));
}
fn c18_directed(c: &mut Case) {
    for t in [
        "", "\n", "f", "f \n", "f 1\n", "f 1 2\n", "f 1 2 3\n", "f 1 2 3 4\n", "f 1 2 3 4 5 6 7 8 9 10\n", "v\n", "v 1\n", "v 1 2\n", "vt\nvn\n", "o\n", "o\r\n", "o \n f 1 1 1", "v 0 0 0\nf 1 1 1\no\nf 1 1 1\no x\nf 2 2 2\n",
        "v 0 0 0\nf 1 1 1 1\n", "v 0 0 0\nf 1 1 1 2\n", "v 0 0 0\nf 0 0 0 0\n", "v 0 0 0\nf 1/1/1 1/1/1 1/1/1 1/1/1\n", "v 0 0 0\nvt 0 0\nf 1/1 1/1 1 1/1\n", "v 0 0 0\nf 1//1 1//1 1//1 1//1\n", "v nan nan nan\nf 1 1 1 1 1\n",
        "v inf inf inf\nv -inf 0 0\nv 0 0 0\nv 1 1 1\nf 1 2 3 4\n", "f 4294967295 4294967295 4294967295\n", "f 4294967296 1 1\n", "f 4294967295 4294967295 4294967295 4294967295\n", "v 1e39 -1e39 1e400\nf 1 1 1\n", "\u{feff}v 1 2 3\n",
        "o\u{a0}x\nv 0 0 0\nf 1 1 1\n", "o\u{3000}x\n", "\u{3000}o\u{3000}x\u{3000}\nf 1 1 1", "\u{85}o a\n", "\x0bo x\n", "f / / /\n", "f // // //\n", "f 1/ 1/ 1/\n", "f /1/1 /1/1 /1/1\n", "f 1//// 1 1\n", "f +1 +1 +1\n",
    ] {
        c18_check(c, t.as_bytes());
    }
    for n in 0..256u32 {
        c18_check(c, &[n as u8]);
        c18_check(c, &[b'o', n as u8, b'x', b'\n']);
        c18_check(c, &[b'f', b' ', b'1', n as u8, b'1', b' ', b'1', b' ', b'1']);
    }
}
/// Lines much longer and files with many more lines than random text has, of each kind.
fn c18_large(c: &mut Case) {
    const START: &str = "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nvn 0 0 1\nf 1/1/1 2/1/1 3/1/1\n";
    let words = ["v", "vt", "vn", "vp", "f", "o", "g", "s", "l", "p", "usemtl", "mtllib", "#", "", "x", "é"];
    for word in words {
        for fill in ["x", "1", " ", "\t", "/", "é", "-", "1 ", "x ", "# ", "\\", "\r"] {
            if word == "f" && fill == "1 " {
                // A face; big ones have a case of their own.
                continue;
            }
            let n = 20_000 / fill.len();
            let line = format!("{word} {}", fill.repeat(n));
            for text in [format!("{START}{line}\nf 1 2 3\n"), format!("{line}\n{START}"), format!("{START}{line}")] {
                c18_check(c, text.as_bytes());
            }
        }
        for rest in ["", " ", " 0 0 0", " 1 1 1", " x", " 0.5 nan inf", " 1/1/1 2/1/1 3/1/1"] {
            // Objects each may take what all take.
            let n = if word == "o" { 300 } else { 3000 };
            let lines = format!("{word}{rest}\n").repeat(n);
            c18_check(c, format!("{START}{lines}f 1 2 3\n").as_bytes());
            c18_check(c, format!("{START}o a\n{lines}o b\nf 1 2 3\n").as_bytes());
        }
    }
}
// ---------------------------------------------------------------- C19
pub const C19: Prop = Prop {
    id: "C19",
    rule: "OBJ texts with planar convex faces of 3 to 60 corners (400 in the thorough tier): regular, stretched, thin, irregular, with corners on straight edges, in any orientation, place and scale, several to an object and several objects, with any corner style; the triangles must form a triangulation: n-2 of them, each in the face's cyclic order, each edge of the face used once, every other edge by exactly two triangles. Areas are added up as well. Non-trivial: a face of four or more corners.",
    directed: &[c19_regular],
    run: c19,
};
/// Corners of a convex polygon, counterclockwise, in the plane.
fn polygon(r: &mut Rng, n: usize) -> Vec<[f64; 2]> {
    let kind = r.below(6);
    let mut ang: Vec<f64> = match kind {
        0 => (0..n).map(|i| i as f64 / n as f64 * std::f64::consts::TAU).collect(),
        _ => {
            let mut a: Vec<f64> = (0..n).map(|_| r.f64()).collect();
            a.sort_by(|x, y| x.total_cmp(y));
            // Corners are kept apart, so that single precision can tell them from each other.
            let span = if r.one_in(4) { r.uni(0.2, 1.0) } else { 1.0 };
            (0..n).map(|i| (0.5 * a[i] + 0.5 * i as f64 / n as f64) * span * std::f64::consts::TAU).collect()
        }
    };
    if kind == 1 {
        for a in &mut ang {
            *a += 1.0;
        }
    }
    let sx = if r.one_in(3) { r.log(-2.0, 2.0) } else { 1.0 };
    let mut p: Vec<[f64; 2]> = ang.iter().map(|a| [a.cos() * sx, a.sin()]).collect();
    if r.one_in(5) && n >= 5 {
        // Some corners lie on a straight edge.
        let k = r.us(n);
        let (a, b) = (p[k], p[(k + 2) % n]);
        p[(k + 1) % n] = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
    }
    if r.one_in(6) && n == 4 {
        p = vec![[0.0, 0.0], [sx, 0.0], [sx, 1.0], [0.0, 1.0]];
    }
    let k = r.us(n);
    p.rotate_left(k);
    p
}
fn place(r: &mut Rng, p: &[[f64; 2]]) -> Vec<V3> {
    let scale = if r.one_in(8) { r.log(-15.0, 15.0) } else if r.one_in(4) { r.log(-4.0, 4.0) } else { 1.0 };
    // The plane: two orthogonal directions.
    let (u, w) = if r.one_in(3) {
        *r.pick(&[([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([0.0, 1.0, 0.0], [0.0, 0.0, 1.0]), ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0])])
    } else {
        let a = r.uni(0.0, 6.283);
        let b = r.uni(-1.5, 1.5);
        ([a.cos(), a.sin(), 0.0], [-a.sin() * b.cos(), a.cos() * b.cos(), b.sin()])
    };
    let off = if r.bool() { [0.0; 3] } else { [r.uni(-3.0, 3.0) * scale, r.uni(-3.0, 3.0) * scale, r.uni(-3.0, 3.0) * scale] };
    p.iter()
        .map(|q| {
            let f = |k: usize| ((u[k] * q[0] + w[k] * q[1]) * scale + off[k]) as F;
            (f(0), f(1), f(2))
        })
        .collect()
}
struct Face {
    corners: Vec<Corner>,
    pos: Vec<V3>,
}
fn area(a: V3, b: V3, c: V3) -> f64 {
    let s = |a: V3, b: V3| [b.0 as f64 - a.0 as f64, b.1 as f64 - a.1 as f64, b.2 as f64 - a.2 as f64];
    let (x, y) = (s(a, b), s(a, c));
    let z = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
    (z[0] * z[0] + z[1] * z[1] + z[2] * z[2]).sqrt() / 2.0
}
fn c19_text(r: &mut Rng, objects: usize, sizes: &dyn Fn(&mut Rng) -> usize) -> Option<(String, Vec<Vec<Face>>)> {
    let mut t = String::new();
    let (mut v, mut vt, mut vn): (Vec<V3>, Vec<V2>, Vec<V3>) = (vec![], vec![], vec![]);
    let mut out = vec![];
    for o in 0..objects {
        t += &format!("o obj{o}\n");
        let style = r.below(4);
        let mut faces: Vec<Face> = vec![];
        for _ in 0..1 + r.us(4) {
            let n = sizes(r);
            let pos = {
                let p = polygon(r, n);
                place(r, &p)
            };
            // All corners of an object must be told apart by their positions.
            let mut seen = std::collections::HashSet::new();
            for f in &faces {
                seen.extend(f.pos.iter().map(|p| b3(*p)));
            }
            if !pos.iter().all(|p| seen.insert(b3(*p))) {
                return None;
            }
            let base = v.len();
            for p in &pos {
                t += &format!("v {} {} {}\n", p.0, p.1, p.2);
                v.push(*p);
            }
            let k = if r.bool() { n } else { 1 + r.us(n) };
            for _ in 0..k {
                let u = gen::uv(r);
                t += &format!("vt {} {}\n", u.0, u.1);
                vt.push(u);
                let m = gen::unit(r);
                t += &format!("vn {} {} {}\n", m.0, m.1, m.2);
                vn.push(m);
            }
            let reverse = r.bool();
            let order: Vec<usize> = if reverse { (0..n).rev().collect() } else { (0..n).collect() };
            t += "f";
            let (mut corners, mut fpos) = (vec![], vec![]);
            for i in order {
                let (a, b) = (r.us(vt.len()), r.us(vn.len()));
                t += &match style {
                    0 => format!(" {}", base + i + 1),
                    1 => format!(" {}/{}", base + i + 1, a + 1),
                    2 => format!(" {}//{}", base + i + 1, b + 1),
                    _ => format!(" {}/{}/{}", base + i + 1, a + 1, b + 1),
                };
                corners.push((b3(v[base + i]), if style & 1 != 0 { Some(b2(vt[a])) } else { None }, if style & 2 != 0 { Some(b3(vn[b])) } else { None }));
                fpos.push(v[base + i]);
            }
            t += "\n";
            faces.push(Face { corners, pos: fpos });
        }
        out.push(faces);
    }
    Some((t, out))
}
fn c19_check(c: &mut Case, text: &str, want: &[Vec<Face>]) {
    let got = match c.lib("read_from_obj", || TMFMesh::read_from_obj(&mut text.as_bytes())) {
        None => return,
        Some(Err(e)) => {
            c.violation("refused", format!("convex faces are refused: {e}; the text begins {:?}", text.chars().take(600).collect::<String>()));
            return;
        }
        Some(Ok(g)) => g,
    };
    if got.len() != want.len() {
        c.violation("objects", format!("{} objects are imported as {}", want.len(), got.len()));
        return;
    }
    for ((m, _), faces) in got.iter().zip(want) {
        let cs = match corners(&Spec::of(m)) {
            Ok(c) => c,
            Err(e) => {
                c.violation("broken", format!("imported with {e}"));
                return;
            }
        };
        let mut which: HashMap<[u64; 3], (usize, usize)> = HashMap::new();
        for (f, face) in faces.iter().enumerate() {
            for (k, x) in face.corners.iter().enumerate() {
                which.insert(x.0, (f, k));
            }
        }
        let mut edges: Vec<HashMap<(usize, usize), i64>> = faces.iter().map(|_| HashMap::new()).collect();
        let mut count = vec![0; faces.len()];
        let mut sum = vec![0.0; faces.len()];
        for t in cs.chunks(3) {
            let mut id = vec![];
            for x in t {
                let Some((f, k)) = which.get(&x.0) else {
                    c.violation("corner", format!("a triangle has a corner which no face of its object has: {}", show(x)));
                    return;
                };
                if faces[*f].corners[*k] != *x {
                    c.violation("corner", format!("corner {} is imported as {}", show(&faces[*f].corners[*k]), show(x)));
                    return;
                }
                id.push((*f, *k));
            }
            let f = id[0].0;
            if id.len() != 3 || id.iter().any(|x| x.0 != f) {
                c.violation("triangle", "a triangle joins corners of different faces, or is incomplete".to_string());
                return;
            }
            let n = faces[f].corners.len();
            let (a, b, d) = (id[0].1, id[1].1, id[2].1);
            // Going around from a, b comes before d.
            if a == b || b == d || a == d || (b + n - a) % n > (d + n - a) % n {
                c.violation("orientation", format!("triangle {a},{b},{d} of a face of {n} corners is degenerate or turned around; {}", faces_str(&faces[f])));
                return;
            }
            for e in [(a, b), (b, d), (d, a)] {
                *edges[f].entry(e).or_default() += 1;
            }
            count[f] += 1;
            let p = &faces[f].pos;
            sum[f] += area(p[a], p[b], p[d]);
        }
        for (f, face) in faces.iter().enumerate() {
            let n = face.corners.len();
            if count[f] != n - 2 {
                c.violation("count", format!("a face of {n} corners is imported as {} triangles", count[f]));
                return;
            }
            for i in 0..n {
                if edges[f].get(&(i, (i + 1) % n)) != Some(&1) {
                    c.violation("edge", format!("edge {i} of a face of {n} corners is covered {:?} times; {}", edges[f].get(&(i, (i + 1) % n)), faces_str(face)));
                    return;
                }
            }
            for ((a, b), k) in &edges[f] {
                if (a + 1) % n != *b && (*k != 1 || edges[f].get(&(*b, *a)) != Some(&1)) {
                    c.violation("overlap", format!("diagonal {a},{b} of a face of {n} corners does not join two triangles; {}", faces_str(face)));
                    return;
                }
            }
            let whole: f64 = (1..n - 1).map(|i| area(face.pos[0], face.pos[i], face.pos[i + 1])).sum();
            let size = face.pos.iter().map(|p| (p.0 as f64).abs().max((p.1 as f64).abs()).max((p.2 as f64).abs())).fold(0.0, f64::max);
            if (whole - sum[f]).abs() > whole * 1e-4 + size * size * 1e-5 {
                c.violation("area", format!("a face of area {whole} is covered by triangles of area {}", sum[f]));
                return;
            }
            c.stat("faces", 1);
            c.stat("triangles", count[f] as u64);
            c.maxi("corners of a face", n as f64);
            if n > 3 {
                c.nontrivial(&hash_bytes(0, text.as_bytes()).to_le_bytes());
            }
        }
    }
}
fn faces_str(f: &Face) -> String {
    format!("corners {:?}", &f.pos[..f.pos.len().min(12)])
}
fn c19(c: &mut Case) {
    let mut r = c.rng.clone();
    let big = if c.thorough { 400 } else { 60 };
    let objects = 1 + r.us(3);
    let sizes = move |r: &mut Rng| match r.below(10) {
        0 => 3,
        1..=3 => 4,
        4 | 5 => 5 + r.us(3),
        6..=8 => 3 + r.us(14),
        _ => 3 + r.us(big - 2),
    };
    let Some((t, want)) = c19_text(&mut r, objects, &sizes) else { return };
    c19_check(c, &t, &want);
    c.sample(|| format!("faces of {:?} corners", want.iter().map(|o| o.iter().map(|f| f.corners.len()).collect::<Vec<_>>()).collect::<Vec<_>>()));
}
/// Every number of corners up to 40, twice.
fn c19_regular(c: &mut Case) {
    let mut r = c.rng.clone();
    for n in 3..41 {
        for _ in 0..2 {
            if let Some((t, want)) = c19_text(&mut r, 1, &move |_| n) {
                c19_check(c, &t, &want);
            }
        }
    }
}
