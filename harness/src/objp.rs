//! Independent OBJ parser and a generator of OBJ-like text. Shares no code with the library.
use crate::gen;
use crate::rng::Rng;
use tmf::FloatType as F;
#[derive(Clone, Debug, Default)]
pub struct Object {
    pub name: String,
    pub v: Vec<[F; 3]>,
    pub vn: Vec<[F; 3]>,
    pub vt: Vec<[F; 2]>,
    /// Global indices, from 1, of each corner of each triangle: vertex, UV, normal.
    pub corners: Vec<(u64, Option<u64>, Option<u64>)>,
}
/// Strict: everything must be understood.
pub fn parse(text: &[u8]) -> Result<Vec<Object>, String> {
    let text = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    let mut out: Vec<Object> = vec![];
    for (i, line) in text.split('\n').enumerate() {
        let line = line.strip_suffix('\r').unwrap_or(line);
        let err = |m: &str| Err(format!("line {}: {m}: {line:?}", i + 1));
        let mut tok = line.split_ascii_whitespace();
        let Some(k) = tok.next() else { continue };
        if k.starts_with('#') || matches!(k, "s" | "g" | "usemtl" | "mtllib") {
            continue;
        }
        if k == "o" {
            let name = line.trim_start()[1..].to_string();
            let name = name.strip_prefix(' ').unwrap_or(&name).to_string();
            out.push(Object { name, ..Object::default() });
            continue;
        }
        let Some(o) = out.last_mut() else { return err("before the first object") };
        let rest: Vec<&str> = tok.collect();
        let mut nums: Vec<F> = vec![];
        if k != "f" {
            for x in &rest {
                match x.parse() {
                    Ok(v) => nums.push(v),
                    Err(_) => return err("number"),
                }
            }
        }
        match (k, nums.len(), rest.len()) {
            ("v", 3, _) => o.v.push([nums[0], nums[1], nums[2]]),
            ("vn", 3, _) => o.vn.push([nums[0], nums[1], nums[2]]),
            ("vt", 2, _) => o.vt.push([nums[0], nums[1]]),
            ("f", _, 3) => {
                for x in rest {
                    let p: Vec<&str> = x.split('/').collect();
                    let n = |s: &str| s.parse::<u64>().ok().filter(|n| *n > 0);
                    let c = match p[..] {
                        [a] => (n(a), None, None),
                        [a, b] => (n(a), Some(n(b)), None),
                        [a, "", c] => (n(a), None, Some(n(c))),
                        [a, b, c] => (n(a), Some(n(b)), Some(n(c))),
                        _ => return err("corner"),
                    };
                    match c {
                        (Some(_), Some(None), _) | (Some(_), _, Some(None)) | (None, _, _) => return err("corner"),
                        (Some(a), b, c) => o.corners.push((a, b.flatten(), c.flatten())),
                    }
                }
            }
            _ => return err("not understood"),
        }
    }
    Ok(out)
}
/// Text which looks more or less like an OBJ file.
pub fn soup(r: &mut Rng, max: usize) -> Vec<u8> {
    const TOK: &[&str] = &[
        "v", "vn", "vt", "f", "o", "s", "#", "g", "usemtl", "mtllib", "1", "2", "3", "0", "-1", "1/1", "1//1", "1/1/1", "2/2/2", "3//3", "1/", "1//", "/1", "//", "/", "1/1/1/1", "1.0", "-0.5", "1e38", "1e999", "-1e-60",
        "nan", "inf", "-inf", "+1", "0x1", "4294967295", "4294967296", "18446744073709551616", "65536", "name", "\u{e9}", "\u{2028}", "\u{a0}", "\u{3000}", "\\", "1e", ".", "-", "1_0",
    ];
    let mut out = vec![];
    let lines = gen::len(r, max);
    let valid = r.below(4);
    let mut nv = 0u64;
    for _ in 0..lines {
        if valid != 0 {
            match r.below(14) {
                0..=3 => {
                    out.extend(format!("v {} {} {}", r.range(-3, 3), r.range(-3, 3), r.f64()).bytes());
                    nv += 1;
                }
                4 => out.extend(format!("vn {} {} 1", r.f64(), r.f64()).bytes()),
                5 => out.extend(format!("vt {} {}", r.f64(), r.f64()).bytes()),
                6..=9 => {
                    let k = match r.below(12) {
                        0 => r.us(4),
                        1 => 3 + r.us(30),
                        2 => 4,
                        _ => 3,
                    };
                    out.extend(b"f");
                    let style = r.below(40);
                    for _ in 0..k {
                        let i = if r.one_in(60) { gen::dict_int(r) } else { 1 + r.below(nv.max(1)) };
                        out.extend(match style {
                            0 => format!(" {i}/{i}"),
                            1 => format!(" {i}//{i}"),
                            2 => format!(" {i}/{i}/{i}"),
                            3 => format!(" -{i}"),
                            _ => format!(" {i}"),
                        }
                        .bytes());
                    }
                }
                10 => out.extend(format!("o {}", gen::name(r, 20)).bytes()),
                _ => {
                    for _ in 0..r.us(6) {
                        out.extend(r.pick(TOK).bytes());
                        out.push(b' ');
                    }
                }
            }
        } else {
            for _ in 0..r.us(8) {
                out.extend(r.pick(TOK).bytes());
                out.extend(*r.pick(&[&b" "[..], b"  ", b"\t", b"\r", b"", b"\x0b", b" "]));
            }
        }
        out.extend(*r.pick(&[&b"\n"[..], b"\n", b"\n", b"\r\n"]));
    }
    if r.one_in(3) && !out.is_empty() {
        for _ in 0..1 + r.us(4) {
            let k = r.us(out.len());
            match r.below(4) {
                0 => out[k] = r.u64() as u8,
                1 => out[k] = *r.pick(b"/ 0123456789.-ovfn\n\r"),
                2 => out.truncate(k + 1),
                _ => {
                    out.remove(k);
                    if out.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    out
}
