//! Plain description of a mesh, and conversions from and to the library's type.
use crate::rng::{hash_bytes, Rng};
use tmf::{CustomData, FloatType as F, IndexType as I, TMFMesh};
pub type V3 = (F, F, F);
pub type V2 = (F, F);
pub type T4 = (V3, F);
/// Whether floats are double, indices long.
pub const DOUBLE: bool = std::mem::size_of::<F>() == 8;
pub const LONG: bool = std::mem::size_of::<I>() == 8;
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub v: Option<Vec<V3>>,
    pub n: Option<Vec<V3>>,
    pub uv: Option<Vec<V2>>,
    pub t: Option<Vec<T4>>,
    pub vt: Option<Vec<I>>,
    pub nt: Option<Vec<I>>,
    pub ut: Option<Vec<I>>,
    pub tt: Option<Vec<I>>,
    pub custom: Vec<(String, CustomData)>,
}
impl Spec {
    pub fn mesh(&self) -> TMFMesh {
        let mut m = TMFMesh::empty();
        if let Some(a) = &self.v {
            m.set_vertices(a.clone());
        }
        if let Some(a) = &self.n {
            m.set_normals(a.clone());
        }
        if let Some(a) = &self.uv {
            m.set_uvs(a.clone());
        }
        if let Some(a) = &self.t {
            m.set_tangents(a.clone());
        }
        if let Some(a) = &self.vt {
            m.set_vertex_triangles(a.clone());
        }
        if let Some(a) = &self.nt {
            m.set_normal_triangles(a.clone());
        }
        if let Some(a) = &self.ut {
            m.set_uv_triangles(a.clone());
        }
        if let Some(a) = &self.tt {
            m.set_tangent_triangles(a.clone());
        }
        for (n, d) in &self.custom {
            m.add_custom_data(d.clone(), n).expect("custom data name");
        }
        m
    }
    /// The same mesh, which often was another one before, or was put together in pieces.
    pub fn mesh_via(&self, r: &mut Rng) -> TMFMesh {
        if r.one_in(3) {
            return self.mesh();
        }
        let mut q = Rng::new(r.u64());
        let custom = &self.custom;
        crate::fw::lib(|| {
            let mut m = self.roundabout(&mut q);
            for (n, d) in custom {
                m.add_custom_data(d.clone(), n).expect("custom data name");
            }
            m
        })
        .unwrap_or_else(|_| self.mesh())
    }
    fn roundabout(&self, r: &mut Rng) -> TMFMesh {
        fn looks(m: &TMFMesh, r: &mut Rng) {
            match r.below(8) {
                0 => drop(m.verify()),
                1 => drop(m.get_vertex_buffer()),
                2 => drop((m.get_normal_buffer(), m.get_uv_buffer())),
                3 => drop(m.lookup_custom_data("absent")),
                _ => (),
            }
        }
        let mut m = TMFMesh::empty();
        // Another mesh, of the arrays which will be replaced.
        let before = r.bool();
        if before {
            let unit: [V3; 4] = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, -1.0), (0.6, 0.0, 0.8)];
            let n = 3 * (1 + r.us(4));
            let mut idx = || (0..n).map(|_| r.below(4) as I).collect::<Vec<I>>();
            if self.v.is_some() {
                m.set_vertices(unit.to_vec());
            }
            if self.n.is_some() {
                m.set_normals(unit.to_vec());
            }
            if self.uv.is_some() {
                m.set_uvs(vec![(0.0, 1.0), (0.5, 0.25), (1.0, 1.0), (0.125, 0.0)]);
            }
            if self.t.is_some() {
                m.set_tangents(unit.map(|u| (u, -1.0)).to_vec());
            }
            if self.vt.is_some() {
                m.set_vertex_triangles(idx());
            }
            if self.nt.is_some() {
                m.set_normal_triangles(idx());
            }
            if self.ut.is_some() {
                m.set_uv_triangles(idx());
            }
            if self.tt.is_some() {
                m.set_tangent_triangles(idx());
            }
            for _ in 0..r.us(4) {
                match r.below(6) {
                    0 | 1 => m.unify_index_data(),
                    2 => m.reorder_data(),
                    3 => m.normalize(),
                    4 => {
                        let mut out = vec![];
                        let _ = m.write_tmf_one(&mut out, &tmf::TMFPrecisionInfo::default(), "before");
                    }
                    _ => looks(&m, r),
                }
            }
        }
        let mut order: Vec<usize> = (0..8).collect();
        r.shuffle(&mut order);
        let way = r.below(3);
        macro_rules! put {
            ($a:expr, $set:ident, $append:ident) => {
                if let Some(a) = &$a {
                    if way == 0 || before && r.bool() {
                        m.$set(a.clone());
                    } else {
                        let mut at = if before || r.bool() { r.us(a.len() + 1) } else { 0 };
                        if before || at > 0 {
                            m.$set(a[..at].to_vec());
                        }
                        looks(&m, r);
                        loop {
                            let end = if r.bool() { a.len() } else { at + r.us(a.len() - at + 1) };
                            m.$append(&a[at..end]);
                            at = end;
                            if at == a.len() {
                                break;
                            }
                        }
                    }
                }
            };
        }
        for k in order {
            match k {
                0 => put!(self.v, set_vertices, append_vertices),
                1 => put!(self.n, set_normals, append_normals),
                2 => put!(self.uv, set_uvs, append_uvs),
                3 => put!(self.t, set_tangents, append_tangents),
                4 => put!(self.vt, set_vertex_triangles, append_vertex_triangles),
                5 => put!(self.nt, set_normal_triangles, append_normal_triangles),
                6 => put!(self.ut, set_uv_triangles, append_uv_triangles),
                _ => put!(self.tt, set_tangent_triangles, append_tangent_triangles),
            }
            if r.one_in(4) {
                looks(&m, r);
            }
            if r.one_in(10) {
                m = m.clone();
            }
        }
        m
    }
    /// What can be seen of a mesh, except for custom data, which can only be looked up by name.
    pub fn of(m: &TMFMesh) -> Spec {
        Spec {
            v: m.get_vertices().map(|a| a.to_vec()),
            n: m.get_normals().map(|a| a.to_vec()),
            uv: m.get_uvs().map(|a| a.to_vec()),
            t: m.get_tangents().map(|a| a.to_vec()),
            vt: m.get_vertex_triangles().map(|a| a.to_vec()),
            nt: m.get_normal_triangles().map(|a| a.to_vec()),
            ut: m.get_uv_triangles().map(|a| a.to_vec()),
            tt: m.get_tangent_triangles().map(|a| a.to_vec()),
            custom: vec![],
        }
    }
    pub fn of_with(m: &TMFMesh, names: &[String]) -> Spec {
        let mut s = Spec::of(m);
        for n in names {
            if let Some(d) = m.lookup_custom_data(n) {
                s.custom.push((n.clone(), d.clone()));
            }
        }
        s
    }
    pub fn shape(&self) -> String {
        fn l<T>(a: &Option<Vec<T>>) -> String {
            a.as_ref().map(|a| a.len().to_string()).unwrap_or("-".into())
        }
        format!(
            "v{} n{} uv{} t{} vt{} nt{} ut{} tt{} custom{}",
            l(&self.v), l(&self.n), l(&self.uv), l(&self.t), l(&self.vt), l(&self.nt), l(&self.ut), l(&self.tt), self.custom.len()
        )
    }
    /// Hash of every bit of the data.
    pub fn hash(&self) -> u64 {
        let mut b = Vec::new();
        self.bytes(&mut b);
        hash_bytes(1, &b)
    }
    pub fn bytes(&self, b: &mut Vec<u8>) {
        fn head<T>(b: &mut Vec<u8>, a: &Option<Vec<T>>) {
            b.extend((a.as_ref().map_or(u64::MAX, |a| a.len() as u64)).to_le_bytes());
        }
        fn f(b: &mut Vec<u8>, v: F) {
            // Every NaN is the same to a user.
            b.extend((if v.is_nan() { f64::NAN.to_bits() } else { (v as f64).to_bits() }).to_le_bytes());
        }
        for a in [&self.v, &self.n] {
            head(b, a);
            for x in a.iter().flatten() {
                f(b, x.0);
                f(b, x.1);
                f(b, x.2);
            }
        }
        head(b, &self.uv);
        for x in self.uv.iter().flatten() {
            f(b, x.0);
            f(b, x.1);
        }
        head(b, &self.t);
        for x in self.t.iter().flatten() {
            f(b, x.0 .0);
            f(b, x.0 .1);
            f(b, x.0 .2);
            f(b, x.1);
        }
        for a in [&self.vt, &self.nt, &self.ut, &self.tt] {
            head(b, a);
            for x in a.iter().flatten() {
                b.extend((*x as u64).to_le_bytes());
            }
        }
        for (n, d) in &self.custom {
            b.extend(n.as_bytes());
            b.push(0xff);
            custom_bytes(b, d);
        }
    }
}
pub fn custom_bytes(b: &mut Vec<u8>, d: &CustomData) {
    fn f(b: &mut Vec<u8>, v: F) {
        b.extend((if v.is_nan() { f64::NAN.to_bits() } else { (v as f64).to_bits() }).to_le_bytes());
    }
    match d {
        CustomData::CustomIndex(a, m) | CustomData::CustomIntiger(a, m) => {
            b.push(if matches!(d, CustomData::CustomIndex(..)) { 1 } else { 2 });
            b.extend((a.len() as u64).to_le_bytes());
            b.extend((*m as u64).to_le_bytes());
            for x in a.iter() {
                b.extend((*x as u64).to_le_bytes());
            }
        }
        CustomData::CustomFloat(a, p) => {
            b.push(3);
            b.extend((a.len() as u64).to_le_bytes());
            f(b, *p);
            for x in a.iter() {
                f(b, *x);
            }
        }
        CustomData::CustomColorRGBA(a, p) => {
            b.push(4);
            b.extend((a.len() as u64).to_le_bytes());
            f(b, *p);
            for x in a.iter() {
                f(b, x.0);
                f(b, x.1);
                f(b, x.2);
                f(b, x.3);
            }
        }
    }
}
pub fn custom_kind(d: &CustomData) -> &'static str {
    match d {
        CustomData::CustomIndex(..) => "index",
        CustomData::CustomIntiger(..) => "integer",
        CustomData::CustomFloat(..) => "float",
        CustomData::CustomColorRGBA(..) => "rgba",
    }
}
pub fn custom_len(d: &CustomData) -> usize {
    match d {
        CustomData::CustomIndex(a, _) | CustomData::CustomIntiger(a, _) => a.len(),
        CustomData::CustomFloat(a, _) => a.len(),
        CustomData::CustomColorRGBA(a, _) => a.len(),
    }
}
/// Digest of what was read, kinds of errors included.
pub fn result_digest(r: &Result<Vec<(TMFMesh, String)>, tmf::TMFImportError>, names: &[String]) -> u64 {
    let mut b = Vec::new();
    match r {
        Ok(ms) => {
            b.push(1);
            for (m, n) in ms {
                b.extend((n.len() as u64).to_le_bytes());
                b.extend(n.as_bytes());
                Spec::of_with(m, names).bytes(&mut b);
            }
        }
        Err(e) => {
            b.push(2);
            b.extend(err_kind(e).as_bytes());
        }
    }
    hash_bytes(7, &b)
}
pub fn err_kind(e: &tmf::TMFImportError) -> String {
    use tmf::TMFImportError::*;
    match e {
        IO(e) => format!("IO:{:?}", e.kind()),
        CompressionTypeUnknown(c) => format!("CompressionTypeUnknown:{c}"),
        NoMeshes => "NoMeshes".into(),
        TooManyMeshes => "TooManyMeshes".into(),
        NotTMFFile => "NotTMFFile".into(),
        NewerVersionRequired => "NewerVersionRequired".into(),
        SegmentTooLong => "SegmentTooLong".into(),
        InvalidPrecision(p) => format!("InvalidPrecision:{p}"),
        UnsuportedCompressionType(c) => format!("UnsuportedCompressionType:{c}"),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    }
}
/// First difference between two meshes, every value compared bit by bit.
pub fn diff(a: &Spec, b: &Spec) -> Option<String> {
    fn arr<T: Copy + std::fmt::Debug>(what: &str, a: &Option<Vec<T>>, b: &Option<Vec<T>>, eq: impl Fn(T, T) -> bool) -> Option<String> {
        match (a, b) {
            (None, None) => None,
            (Some(a), Some(b)) => {
                if a.len() != b.len() {
                    return Some(format!("{what}: length {} became {}", a.len(), b.len()));
                }
                (0..a.len()).find(|i| !eq(a[*i], b[*i])).map(|i| format!("{what}[{i}]: {:?} became {:?}", a[i], b[i]))
            }
            (Some(a), None) => Some(format!("{what}: array of {} entries disappeared", a.len())),
            (None, Some(b)) => Some(format!("{what}: array of {} entries appeared", b.len())),
        }
    }
    let v3 = |a: V3, b: V3| same(a.0, b.0) && same(a.1, b.1) && same(a.2, b.2);
    arr("vertices", &a.v, &b.v, v3)
        .or_else(|| arr("normals", &a.n, &b.n, v3))
        .or_else(|| arr("uvs", &a.uv, &b.uv, |a, b| same(a.0, b.0) && same(a.1, b.1)))
        .or_else(|| arr("tangents", &a.t, &b.t, |a, b| v3(a.0, b.0) && same(a.1, b.1)))
        .or_else(|| diff_indices(a, b))
        .or_else(|| {
            if a.custom.len() != b.custom.len() {
                return Some(format!("custom data: {} became {} arrays", a.custom.len(), b.custom.len()));
            }
            a.custom.iter().zip(&b.custom).find(|(a, b)| {
                let (mut x, mut y) = (vec![], vec![]);
                custom_bytes(&mut x, &a.1);
                custom_bytes(&mut y, &b.1);
                a.0 != b.0 || x != y
            }).map(|(a, b)| format!("custom data {:?} became {:?}", a, b))
        })
}
pub fn diff_indices(a: &Spec, b: &Spec) -> Option<String> {
    for (what, a, b) in [("vertex triangles", &a.vt, &b.vt), ("normal triangles", &a.nt, &b.nt), ("uv triangles", &a.ut, &b.ut), ("tangent triangles", &a.tt, &b.tt)] {
        match (a, b) {
            (None, None) => (),
            (Some(a), Some(b)) => {
                if a.len() != b.len() {
                    return Some(format!("{what}: length {} became {}", a.len(), b.len()));
                }
                if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
                    return Some(format!("{what}[{i}]: {} became {} (of {})", a[i], b[i], a.len()));
                }
            }
            (a, b) => return Some(format!("{what}: presence {} became {}", a.is_some(), b.is_some())),
        }
    }
    None
}
pub fn same(a: F, b: F) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
