//! Independent encoder and decoder of the published TMF layout. Shares no code with the library.
/// Bit reader, most significant bit first.
pub struct Bits<'a> {
    b: &'a [u8],
    pos: usize,
}
impl<'a> Bits<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Bits { b, pos: 0 }
    }
    pub fn get(&mut self, n: u8) -> Result<u64, String> {
        if self.pos + n as usize > self.b.len() * 8 {
            return Err("bits end early".into());
        }
        let mut v = 0u64;
        for _ in 0..n {
            let bit = self.b[self.pos / 8] >> (7 - self.pos % 8) & 1;
            v = v << 1 | bit as u64;
            self.pos += 1;
        }
        Ok(v)
    }
    /// Everything must be used up, except for the zero bits which fill the last byte.
    pub fn end(&self) -> Result<(), String> {
        let used = (self.pos + 7) / 8;
        if used != self.b.len() {
            return Err(format!("{} bytes for {} bits", self.b.len(), self.pos));
        }
        for p in self.pos..used * 8 {
            if self.b[p / 8] >> (7 - p % 8) & 1 != 0 {
                return Err("padding is not zero".into());
            }
        }
        Ok(())
    }
}
#[derive(Default)]
pub struct BitsOut {
    pub b: Vec<u8>,
    n: usize,
}
impl BitsOut {
    pub fn put(&mut self, n: u8, v: u64) {
        for i in (0..n).rev() {
            if self.n % 8 == 0 {
                self.b.push(0);
            }
            let l = self.b.len() - 1;
            self.b[l] |= ((v >> i & 1) as u8) << (7 - self.n % 8);
            self.n += 1;
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tris {
    pub prec: u8,
    pub min: u64,
    /// Values with the base applied.
    pub vals: Vec<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Norm {
    pub neg: [bool; 3],
    pub az: u64,
    pub z: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Vertex { bb: [f64; 6], prec: [u8; 3], raw: Vec<[u64; 3]> },
    Normal { prec: u8, raw: Vec<Norm> },
    Uv { prec: u8, raw: Vec<[u64; 2]> },
    Tangent { prec: u8, raw: Vec<(bool, Norm)> },
    /// Section type (2, 4, 6 or 10).
    Tri(u8, Tris),
    Shared(u8, Tris),
    /// Section type (15 or 24).
    CustomInt(u8, Vec<u8>, Tris),
    CustomFloat { name: Vec<u8>, min: f64, max: f64, prec: u8, raw: Vec<u64> },
    CustomRgba { name: Vec<u8>, prec: u8, raw: Vec<[u64; 4]> },
    Unknown(u16, u8, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct FMesh {
    pub name: Vec<u8>,
    pub segs: Vec<Seg>,
    /// Bytes of each segment, header included.
    pub seg_bytes: Vec<usize>,
    pub bytes: usize,
}
#[derive(Clone, Debug)]
pub struct File {
    pub ver: [u16; 4],
    pub meshes: Vec<FMesh>,
    pub used: usize,
}
struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.b.len() - self.p {
            return Err(format!("{n} bytes at {} of {}", self.p, self.b.len()));
        }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    fn uint(&mut self, n: usize) -> Result<u64, String> {
        let mut t = [0; 8];
        t[..n].copy_from_slice(self.take(n)?);
        Ok(u64::from_le_bytes(t))
    }
    fn f64(&mut self) -> Result<f64, String> {
        Ok(f64::from_bits(self.uint(8)?))
    }
    fn rest(&self) -> Bits<'a> {
        Bits::new(&self.b[self.p..])
    }
}
fn norm(b: &mut Bits, p: u8) -> Result<Norm, String> {
    let neg = [b.get(1)? != 0, b.get(1)? != 0, b.get(1)? != 0];
    Ok(Norm { neg, az: b.get(p)?, z: b.get(p)? })
}
fn sane(n: u64, bits: u64, left: usize) -> Result<usize, String> {
    if n.saturating_mul(bits) > left as u64 * 8 || (bits == 0 && n > 1 << 24) {
        return Err(format!("count {n} does not fit"));
    }
    Ok(n as usize)
}
fn tris(c: &mut Cur, old: bool) -> Result<Tris, String> {
    let prec = c.uint(1)? as u8;
    let n = c.uint(8)?;
    let min = if old { 0 } else { c.uint(8)? };
    let n = sane(n, prec as u64, c.b.len() - c.p)?;
    let mut b = c.rest();
    let mut vals = vec![];
    for _ in 0..n {
        vals.push(b.get(prec)?.checked_add(min).ok_or("index overflow")?);
    }
    b.end()?;
    Ok(Tris { prec, min, vals })
}
fn seg(ty: u16, comp: u8, data: &[u8], old: bool) -> Result<Seg, String> {
    let mut c = Cur { b: data, p: 0 };
    if !matches!(ty, 1..=6 | 9 | 10 | 15 | 16 | 23 | 24 | 25) {
        return Ok(Seg::Unknown(ty, comp, data.to_vec()));
    }
    if comp != 0 {
        return Err(format!("compression {comp}"));
    }
    Ok(match ty {
        1 => {
            let n = c.uint(8)?;
            let mut bb = [0.0; 6];
            for x in &mut bb {
                *x = c.f64()?;
            }
            let prec = [c.uint(1)? as u8, c.uint(1)? as u8, c.uint(1)? as u8];
            let n = sane(n, prec.iter().map(|p| *p as u64).sum(), data.len() - c.p)?;
            let mut b = c.rest();
            let mut raw = vec![];
            for _ in 0..n {
                raw.push([b.get(prec[0])?, b.get(prec[1])?, b.get(prec[2])?]);
            }
            b.end()?;
            Seg::Vertex { bb, prec, raw }
        }
        3 => {
            let n = c.uint(8)?;
            let prec = c.uint(1)? as u8;
            let n = sane(n, 3 + 2 * prec as u64, data.len() - c.p)?;
            let mut b = c.rest();
            let mut raw = vec![];
            for _ in 0..n {
                raw.push(norm(&mut b, prec)?);
            }
            b.end()?;
            Seg::Normal { prec, raw }
        }
        5 => {
            let prec = c.uint(1)? as u8;
            let n = c.uint(8)?;
            let n = sane(n, 2 * prec as u64, data.len() - c.p)?;
            let mut b = c.rest();
            let mut raw = vec![];
            for _ in 0..n {
                raw.push([b.get(prec)?, b.get(prec)?]);
            }
            b.end()?;
            Seg::Uv { prec, raw }
        }
        9 => {
            let n = c.uint(8)?;
            let prec = c.uint(1)? as u8;
            let n = sane(n, 4 + 2 * prec as u64, data.len() - c.p)?;
            let mut b = c.rest();
            let mut raw = vec![];
            for _ in 0..n {
                let h = b.get(1)? != 0;
                raw.push((h, norm(&mut b, prec)?));
            }
            b.end()?;
            Seg::Tangent { prec, raw }
        }
        2 | 4 | 6 | 10 => Seg::Tri(ty as u8, tris(&mut c, old)?),
        25 => {
            let mask = c.uint(1)? as u8;
            Seg::Shared(mask, tris(&mut c, old)?)
        }
        15 | 16 | 23 | 24 => {
            let n = c.uint(1)? as usize;
            let name = c.take(n)?.to_vec();
            match ty {
                16 => {
                    let n = c.uint(8)?;
                    let (min, max) = (c.f64()?, c.f64()?);
                    let prec = c.uint(1)? as u8;
                    let n = sane(n, prec as u64, data.len() - c.p)?;
                    let mut b = c.rest();
                    let mut raw = vec![];
                    for _ in 0..n {
                        raw.push(b.get(prec)?);
                    }
                    b.end()?;
                    Seg::CustomFloat { name, min, max, prec, raw }
                }
                23 => {
                    let n = c.uint(8)?;
                    let prec = c.uint(1)? as u8;
                    let n = sane(n, 4 * prec as u64, data.len() - c.p)?;
                    let mut b = c.rest();
                    let mut raw = vec![];
                    for _ in 0..n {
                        raw.push([b.get(prec)?, b.get(prec)?, b.get(prec)?, b.get(prec)?]);
                    }
                    b.end()?;
                    Seg::CustomRgba { name, prec, raw }
                }
                _ => Seg::CustomInt(ty as u8, name, tris(&mut c, old)?),
            }
        }
        _ => unreachable!(),
    })
}
pub fn decode(b: &[u8]) -> Result<File, String> {
    let mut c = Cur { b, p: 0 };
    if c.take(3)? != b"TMF" {
        return Err("magic".into());
    }
    let mut ver = [0u16; 4];
    for v in &mut ver {
        *v = c.uint(2)? as u16;
    }
    let old = ver[3] <= 1;
    let n = c.uint(4)?;
    let mut meshes = vec![];
    for mi in 0..n {
        let start = c.p;
        let ln = c.uint(2)? as usize;
        let name = c.take(ln)?.to_vec();
        let count = c.uint(2)?;
        let (mut segs, mut seg_bytes) = (vec![], vec![]);
        for si in 0..count {
            let st = c.p;
            let ty = c.uint(if old { 2 } else { 1 })? as u16;
            let l = c.uint(if old { 8 } else { 4 })? as usize;
            let comp = c.uint(1)? as u8;
            let data = c.take(l)?;
            segs.push(seg(ty, comp, data, old).map_err(|e| format!("mesh {mi} segment {si} of type {ty}: {e}"))?);
            seg_bytes.push(c.p - st);
        }
        meshes.push(FMesh { name, segs, seg_bytes, bytes: c.p - start });
    }
    Ok(File { ver, meshes, used: c.p })
}
/// Data a decoded mesh stands for, in double precision.
#[derive(Clone, Debug, Default)]
pub struct Data {
    pub v: Option<Vec<[f64; 3]>>,
    /// Largest magnitude of each axis of the segment a vertex is in.
    pub v_scale: Vec<f64>,
    pub n: Option<Vec<[f64; 3]>>,
    pub uv: Option<Vec<[f64; 2]>>,
    pub t: Option<Vec<([f64; 3], f64)>>,
    pub vt: Option<Vec<u64>>,
    pub nt: Option<Vec<u64>>,
    pub ut: Option<Vec<u64>>,
    pub tt: Option<Vec<u64>>,
    pub custom: Vec<(Vec<u8>, DCustom)>,
}
#[derive(Clone, Debug)]
pub enum DCustom {
    Index(Vec<u64>),
    Integer(Vec<u64>),
    /// Values and the scale of their rounding.
    Float(Vec<f64>, f64),
    Rgba(Vec<[f64; 4]>),
}
pub fn max_of(bits: u8) -> f64 {
    ((1u128 << bits) - 1) as f64
}
pub fn norm_value(n: &Norm, prec: u8) -> [f64; 3] {
    let s = |neg: bool, v: f64| if neg { -v } else { v };
    if prec == 0 {
        return [s(n.neg[0], 1.0), s(n.neg[1], 1.0), s(n.neg[2], 1.0)];
    }
    let a = n.az as f64 / max_of(prec) * std::f64::consts::FRAC_PI_2;
    let z = n.z as f64 / max_of(prec);
    let m = (1.0 - z * z).max(0.0).sqrt();
    [s(n.neg[0], a.sin() * m), s(n.neg[1], a.cos() * m), s(n.neg[2], z)]
}
pub fn eval(m: &FMesh) -> Data {
    let mut d = Data::default();
    for s in &m.segs {
        match s {
            Seg::Vertex { bb, prec, raw } => {
                let v = d.v.get_or_insert_with(Vec::new);
                let scale = bb.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                for r in raw {
                    let f = |k: usize| bb[2 * k] + (bb[2 * k + 1] - bb[2 * k]) * (r[k] as f64 / max_of(prec[k]));
                    v.push([f(0), f(1), f(2)]);
                    d.v_scale.push(scale);
                }
            }
            Seg::Normal { prec, raw } => d.n.get_or_insert_with(Vec::new).extend(raw.iter().map(|n| norm_value(n, *prec))),
            Seg::Uv { prec, raw } => d.uv.get_or_insert_with(Vec::new).extend(raw.iter().map(|r| {
                if *prec == 0 { [0.0, 0.0] } else { [r[0] as f64 / max_of(*prec), r[1] as f64 / max_of(*prec)] }
            })),
            Seg::Tangent { prec, raw } => d
                .t
                .get_or_insert_with(Vec::new)
                .extend(raw.iter().map(|(h, n)| (norm_value(n, *prec), if *h { -1.0 } else { 1.0 }))),
            Seg::Tri(ty, t) => {
                let a = match ty {
                    2 => &mut d.vt,
                    4 => &mut d.nt,
                    6 => &mut d.ut,
                    _ => &mut d.tt,
                };
                a.get_or_insert_with(Vec::new).extend(&t.vals);
            }
            Seg::Shared(mask, t) => {
                for (bit, a) in [(1, &mut d.vt), (2, &mut d.nt), (4, &mut d.ut)] {
                    if mask & bit != 0 {
                        a.get_or_insert_with(Vec::new).extend(&t.vals);
                    }
                }
            }
            Seg::CustomInt(ty, name, t) => {
                let v = t.vals.clone();
                d.custom.push((name.clone(), if *ty == 15 { DCustom::Index(v) } else { DCustom::Integer(v) }));
            }
            Seg::CustomFloat { name, min, max, prec, raw } => {
                let v = raw.iter().map(|r| (*r as f64 / max_of(*prec)) * (max - min) + min).collect();
                d.custom.push((name.clone(), DCustom::Float(v, min.abs().max(max.abs()))));
            }
            Seg::CustomRgba { name, prec, raw } => {
                let g = max_of(*prec);
                let v = raw.iter().map(|r| [r[0] as f64 / g, r[1] as f64 / g, r[2] as f64 / g, r[3] as f64 / g]).collect();
                d.custom.push((name.clone(), DCustom::Rgba(v)));
            }
            Seg::Unknown(..) => (),
        }
    }
    d
}
fn put_tris(o: &mut Vec<u8>, t: &Tris, old: bool) {
    o.push(t.prec);
    o.extend((t.vals.len() as u64).to_le_bytes());
    if !old {
        o.extend(t.min.to_le_bytes());
    }
    let mut b = BitsOut::default();
    for v in &t.vals {
        b.put(t.prec, v.wrapping_sub(if old { 0 } else { t.min }));
    }
    o.extend(b.b);
}
fn put_norm(b: &mut BitsOut, n: &Norm, p: u8) {
    for x in n.neg {
        b.put(1, x as u64);
    }
    b.put(p, n.az);
    b.put(p, n.z);
}
/// Type and data of a segment.
pub fn seg_data(s: &Seg, old: bool) -> (u16, u8, Vec<u8>) {
    let mut o = vec![];
    let mut b = BitsOut::default();
    let (ty, comp) = match s {
        Seg::Vertex { bb, prec, raw } => {
            o.extend((raw.len() as u64).to_le_bytes());
            for x in bb {
                o.extend(x.to_le_bytes());
            }
            o.extend(prec);
            for r in raw {
                for k in 0..3 {
                    b.put(prec[k], r[k]);
                }
            }
            (1, 0)
        }
        Seg::Normal { prec, raw } => {
            o.extend((raw.len() as u64).to_le_bytes());
            o.push(*prec);
            for n in raw {
                put_norm(&mut b, n, *prec);
            }
            (3, 0)
        }
        Seg::Uv { prec, raw } => {
            o.push(*prec);
            o.extend((raw.len() as u64).to_le_bytes());
            for r in raw {
                b.put(*prec, r[0]);
                b.put(*prec, r[1]);
            }
            (5, 0)
        }
        Seg::Tangent { prec, raw } => {
            o.extend((raw.len() as u64).to_le_bytes());
            o.push(*prec);
            for (h, n) in raw {
                b.put(1, *h as u64);
                put_norm(&mut b, n, *prec);
            }
            (9, 0)
        }
        Seg::Tri(ty, t) => {
            put_tris(&mut o, t, old);
            (*ty as u16, 0)
        }
        Seg::Shared(mask, t) => {
            o.push(*mask);
            put_tris(&mut o, t, old);
            (25, 0)
        }
        Seg::CustomInt(ty, name, t) => {
            o.push(name.len() as u8);
            o.extend(name);
            put_tris(&mut o, t, old);
            (*ty as u16, 0)
        }
        Seg::CustomFloat { name, min, max, prec, raw } => {
            o.push(name.len() as u8);
            o.extend(name);
            o.extend((raw.len() as u64).to_le_bytes());
            o.extend(min.to_le_bytes());
            o.extend(max.to_le_bytes());
            o.push(*prec);
            for r in raw {
                b.put(*prec, *r);
            }
            (16, 0)
        }
        Seg::CustomRgba { name, prec, raw } => {
            o.push(name.len() as u8);
            o.extend(name);
            o.extend((raw.len() as u64).to_le_bytes());
            o.push(*prec);
            for r in raw {
                for k in 0..4 {
                    b.put(*prec, r[k]);
                }
            }
            (23, 0)
        }
        Seg::Unknown(ty, comp, d) => {
            o.extend(d);
            (*ty, *comp)
        }
    };
    o.extend(b.b);
    (ty, comp, o)
}
pub fn put_seg(o: &mut Vec<u8>, ty: u16, comp: u8, data: &[u8], old: bool) {
    if old {
        o.extend(ty.to_le_bytes());
        o.extend((data.len() as u64).to_le_bytes());
    } else {
        o.push(ty as u8);
        o.extend((data.len() as u32).to_le_bytes());
    }
    o.push(comp);
    o.extend(data);
}
pub fn header(o: &mut Vec<u8>, ver: [u16; 4], meshes: u32) {
    o.extend(b"TMF");
    for v in ver {
        o.extend(v.to_le_bytes());
    }
    o.extend(meshes.to_le_bytes());
}
pub fn encode(ver: [u16; 4], meshes: &[(Vec<u8>, Vec<Seg>)]) -> Vec<u8> {
    let old = ver[3] <= 1;
    let mut o = vec![];
    header(&mut o, ver, meshes.len() as u32);
    for (name, segs) in meshes {
        o.extend((name.len() as u16).to_le_bytes());
        o.extend(name);
        o.extend((segs.len() as u16).to_le_bytes());
        for s in segs {
            let (ty, comp, data) = seg_data(s, old);
            put_seg(&mut o, ty, comp, &data, old);
        }
    }
    o
}
/// Number of entries the segments of a (possibly broken) file store in zero bits each, as far as it can be followed.
pub fn zero_width(b: &[u8]) -> u64 {
    fn walk(b: &[u8], sum: &mut u64) -> Result<(), String> {
        let mut c = Cur { b, p: 0 };
        c.take(9)?;
        let old = c.uint(2)? <= 1;
        let n = c.uint(4)?;
        for _ in 0..n {
            let ln = c.uint(2)? as usize;
            c.take(ln)?;
            let count = c.uint(2)?;
            for _ in 0..count {
                let ty = c.uint(if old { 2 } else { 1 })?;
                let l = c.uint(if old { 8 } else { 4 })? as usize;
                c.uint(1)?;
                let data = c.take(l)?;
                *sum = sum.saturating_add(entries(ty, data, old).unwrap_or(0));
            }
        }
        Ok(())
    }
    fn entries(ty: u64, data: &[u8], old: bool) -> Result<u64, String> {
        let mut c = Cur { b: data, p: 0 };
        if matches!(ty, 15 | 16 | 23 | 24) {
            let n = c.uint(1)? as usize;
            c.take(n)?;
        }
        if ty == 25 {
            c.take(1)?;
        }
        let (prec, n) = match ty {
            1 => {
                let n = c.uint(8)?;
                c.take(48)?;
                (c.uint(1)? | c.uint(1)? | c.uint(1)?, n)
            }
            5 => (c.uint(1)?, c.uint(8)?),
            2 | 4 | 6 | 10 | 15 | 24 | 25 => {
                let p = c.uint(1)?;
                let n = c.uint(8)?;
                if !old {
                    c.take(8)?;
                }
                (p, n)
            }
            16 => {
                let n = c.uint(8)?;
                c.take(16)?;
                (c.uint(1)?, n)
            }
            23 => {
                let n = c.uint(8)?;
                (c.uint(1)?, n)
            }
            _ => (1, 0),
        };
        // More than the largest allowed count is refused before anything is done with it.
        Ok(if prec == 0 && n <= 1 << 31 { n } else { 0 })
    }
    let mut sum = 0;
    let _ = walk(b, &mut sum);
    sum
}
