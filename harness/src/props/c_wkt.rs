//! C21 WKT round trip, C22 malformed WKT.
use super::*;
use magog::serde::wkt::parse_wkt;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            quick: 4_500_000,
            thorough: 450_000_000,
            floors: &[
                ("POINT", 100_000),
                ("LINESTRING", 100_000),
                ("POLYGON", 100_000),
                ("MULTIPOINT", 100_000),
                ("MULTILINESTRING", 100_000),
                ("MULTIPOLYGON", 100_000),
                ("EMPTY", 90_000),
                ("empty point in a multi-point", 70_000),
                ("empty polygon in a multi-polygon", 20_000),
                ("empty line string in a multi-line-string", 20_000),
                ("polygon with holes", 80_000),
                ("blank", 10_000),
                ("mixed case", 200_000),
                ("odd whitespace", 300_000),
                ("exponent", 4_000_000),
                ("plus sign", 1_000_000),
                ("negative zero", 1_000_000),
                ("subnormal", 1_000_000),
                ("exact decimal expansion", 40_000),
                ("huge", 50),
                ("long", 1_000),
            ],
            rule: "A case is a geometry of arbitrary finite coordinates written as WKT: random keyword case, whitespace between any two tokens, number notation per coordinate, EMPTY for the whole or for members. Non-trivial with at least two positions. Oracle: the geometry it was written from, compared by kind, part sizes and coordinate bits.",
            case: c21,
        },
        Prop {
            id: "C22",
            quick: 3_500_000,
            thorough: 350_000_000,
            floors: &[
                ("truncated", 100_000),
                ("unknown keyword", 80_000),
                ("missing coordinate", 40_000),
                ("not a number", 40_000),
                ("missing comma", 20_000),
                ("doubled comma", 20_000),
                ("missing opening parenthesis", 40_000),
                ("missing closing parenthesis", 40_000),
                ("geometry collection", 80_000),
                ("arbitrary text", 80_000),
                ("token soup", 100_000),
                ("deep", 3_000),
                ("read", 60_000),
                ("error", 800_000),
            ],
            rule: "A case is a well-formed text damaged in one listed way (must be an error), a geometry collection (must be an error), or a text without an expected verdict: token soup, edited well-formed text, arbitrary Unicode. Non-trivial with at least eight characters. Monitor: panic, abort or a case that does not end; Ok where an error is due.",
            case: c22,
        },
    ]
}

const WORDS: [&str; 7] = ["", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"];

fn recase(r: &mut Rng, w: &str) -> String {
    match r.below(4) {
        0 | 1 => w.to_string(),
        2 => w.to_lowercase(),
        _ => w.chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c }).collect(),
    }
}

fn coordinate(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => loop {
            let v = f64::from_bits(r.u64());
            if v.is_finite() {
                break v;
            }
        },
        3 => f64::from_bits(r.below(1 << 52)) * if r.bool() { 1.0 } else { -1.0 },
        4 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 1e22, 1e23, 9007199254740993.0, 0.1, 0.3]),
        5 => r.range(-5, 5) as f64,
        6 => (r.range(-1800000, 1800000) as f64) / 10000.0,
        7 => r.range(-(1 << 54), 1 << 54) as f64,
        _ => (r.unit() - 0.5) * 360.0,
    }
}

/// Some notation that denotes exactly v.
fn number(r: &mut Rng, v: f64, ctx: &mut Ctx) -> String {
    if v == 0.0 && v.is_sign_negative() {
        ctx.cat("negative zero");
    }
    if v != 0.0 && v.abs() < f64::MIN_POSITIVE {
        ctx.cat("subnormal");
    }
    let mut s = match r.below(12) {
        0 | 1 | 2 => format!("{:?}", v),
        3 | 4 => format!("{}", v),
        5 => format!("{:e}", v),
        6 => format!("{:E}", v),
        7 => {
            let e = format!("{:e}", v);
            let (m, x) = e.split_once('e').unwrap();
            if x.starts_with('-') { e } else { format!("{}e+{}", m, x) }
        }
        8 => {
            // leading zeros
            let t = format!("{:?}", v);
            match t.strip_prefix('-') {
                Some(u) => format!("-00{}", u),
                None => format!("00{}", t),
            }
        }
        9 => {
            // trailing zeros or bare point
            let t = format!("{}", v);
            if t.contains('.') { format!("{}000", t) } else { format!("{}.", t) }
        }
        10 => {
            // no integer part
            let t = format!("{}", v);
            if let Some(u) = t.strip_prefix("0.") {
                format!(".{}", u)
            } else if let Some(u) = t.strip_prefix("-0.") {
                format!("-.{}", u)
            } else {
                t
            }
        }
        _ => {
            if r.chance(1, 20) {
                ctx.cat("exact decimal expansion");
                format!("{:.1074}", v)
            } else {
                format!("{:.20e}", v)
            }
        }
    };
    if !s.starts_with('-') && r.chance(1, 5) {
        ctx.cat("plus sign");
        s.insert(0, '+');
    }
    if s.contains('e') || s.contains('E') {
        ctx.cat("exponent");
    }
    s
}

fn coords(r: &mut Rng, ctx: &mut Ctx, t: &mut Vec<String>, l: &[(f64, f64)]) {
    t.push("(".into());
    for (k, c) in l.iter().enumerate() {
        if k > 0 {
            t.push(",".into());
        }
        t.push(number(r, c.0, ctx));
        t.push(number(r, c.1, ctx));
    }
    t.push(")".into());
}

fn list(r: &mut Rng, n: usize) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = (0..n).map(|_| (coordinate(r), coordinate(r))).collect();
    if n > 2 && r.bool() {
        v[n - 1] = v[0];
    }
    v
}

/// A well-formed text as tokens, and what it denotes.
fn text(r: &mut Rng, ctx: &mut Ctx, parens: bool, long: bool) -> (Vec<String>, Model<f64>) {
    let kind = 1 + r.below(6);
    let size = |r: &mut Rng| if long && r.huge { 100_000 + r.us(100_000) } else if long { 500 + r.us(4000) } else { r.size(1, 8) };
    let huge = r.huge && long;
    let mut t = vec![recase(r, WORDS[kind as usize])];
    ctx.cat(WORDS[kind as usize]);
    if !parens && r.chance(1, 12) {
        ctx.cat("EMPTY");
        t.push(recase(r, "EMPTY"));
        let polys = match kind {
            2 | 4 => vec![vec![vec![]]],
            5 => vec![vec![]],
            _ => vec![],
        };
        return (t, Model { kind: if kind == 1 || kind == 3 { 0 } else { kind }, polys });
    }
    let empties = r.chance(1, 4);
    macro_rules! many {
        ($n:expr, $f:expr) => {{
            t.push("(".into());
            for k in 0..$n {
                if k > 0 {
                    t.push(",".into());
                }
                #[allow(unused_mut)]
                let mut f = $f;
                f(k, &mut t);
            }
            t.push(")".into());
        }};
    }
    let mut polys: Vec<Vec<Vec<(f64, f64)>>> = vec![];
    match kind {
        1 => {
            polys = vec![vec![list(r, 1)]];
            coords(r, ctx, &mut t, &polys[0][0]);
        }
        2 => {
            let n = size(r);
            polys = vec![vec![list(r, n)]];
            coords(r, ctx, &mut t, &polys[0][0]);
        }
        4 => {
            let n = size(r);
            let mut v = vec![];
            many!(n, |_k: usize, t: &mut Vec<String>| {
                if empties && r.chance(1, 3) {
                    ctx.cat("empty point in a multi-point");
                    t.push(recase(r, "EMPTY"));
                } else {
                    let q = list(r, 1);
                    coords(r, ctx, t, &q);
                    v.push(q[0]);
                }
            });
            polys = vec![vec![v]];
        }
        3 => {
            let n = r.size(1, 4);
            if n > 1 {
                ctx.cat("polygon with holes");
            }
            let mut v = vec![];
            many!(n, |k: usize, t: &mut Vec<String>| ring(r, ctx, t, &mut v, empties && k > 0, if k == 0 && long { if huge { 200_000 } else { 3000 } } else { 8 }));
            polys.push(v);
        }
        5 => {
            let n = if huge { 50_000 } else { r.size(1, 5) };
            let mut v = vec![];
            many!(n, |_k: usize, t: &mut Vec<String>| {
                if ring(r, ctx, t, &mut v, empties, if long && !huge { 1000 } else { 8 }) {
                    ctx.cat("empty line string in a multi-line-string");
                }
            });
            polys.push(v);
        }
        _ => {
            let n = if huge { 50_000 } else { r.size(1, if long { 200 } else { 4 }) };
            many!(n, |_k: usize, t: &mut Vec<String>| {
                if empties && r.chance(1, 3) {
                    ctx.cat("empty polygon in a multi-polygon");
                    t.push(recase(r, "EMPTY"));
                } else {
                    let mut v = vec![];
                    let m = r.size(1, 3);
                    t.push("(".into());
                    for k in 0..m {
                        if k > 0 {
                            t.push(",".into());
                        }
                        ring(r, ctx, t, &mut v, empties && k > 0, 6);
                    }
                    t.push(")".into());
                    polys.push(v);
                }
            });
        }
    }
    (t, Model { kind, polys })
}

fn ring(r: &mut Rng, ctx: &mut Ctx, t: &mut Vec<String>, v: &mut Vec<Vec<(f64, f64)>>, may_be_empty: bool, max: usize) -> bool {
    if may_be_empty && r.chance(1, 3) {
        t.push(recase(r, "EMPTY"));
        v.push(vec![]);
        return true;
    }
    let n = if max > 100 { max / 2 + r.us(max / 2) } else { r.size(1, max) };
    let l = list(r, n);
    coords(r, ctx, t, &l);
    v.push(l);
    false
}

fn is_mark(s: &str) -> bool {
    s == "(" || s == ")" || s == ","
}

fn space(r: &mut Rng, must: bool, style: u64) -> String {
    if style == 0 {
        return if must { " ".into() } else { String::new() };
    }
    let lo = if must { 1 } else { 0 };
    let n = if style == 1 { lo + r.us(2) } else { lo + r.us(4) };
    (0..n).map(|_| if style == 1 { ' ' } else { *r.pick(&[' ', '\t', '\n', '\r']) }).collect()
}

fn render(r: &mut Rng, t: &[String], style: u64) -> String {
    let mut s = space(r, false, if style == 1 { 0 } else { style });
    for (k, w) in t.iter().enumerate() {
        if k > 0 {
            let must = !is_mark(w) && !is_mark(&t[k - 1]);
            let nice = style == 1 && (w == "(" && k == 1 || t[k - 1] == ",");
            if nice {
                s.push(' ');
            } else {
                s.push_str(&space(r, must, if style == 1 { 0 } else { style }));
            }
        }
        s.push_str(w);
    }
    s.push_str(&space(r, false, if style == 1 { 0 } else { style }));
    s
}

fn c21(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    ctx.eval();
    if i % 100 == 50 {
        ctx.cat("blank");
        let s = space(r, false, 2);
        let s = if r.bool() { s } else { s.repeat(r.us(10)) };
        let res = sut("parse_wkt", || parse_wkt(&s).map(|v| v.len()).map_err(|e| e.to_string())).and_then(|got| {
            if got != Ok(0) {
                return viol(format!("a blank text gives {:?}", got));
            }
            Ok(())
        });
        return with_input(res, || format!("{:?}", s));
    }
    let long = i % 1000 == 7;
    if long {
        ctx.cat("long");
    }
    r.huge = i < 60_000;
    if long && r.huge {
        ctx.cat("huge");
    }
    let (t, m) = text(r, ctx, false, long);
    let style = r.below(3);
    let s = render(r, &t, style);
    if m.len() > 1 {
        ctx.nontrivial(m.hash(21));
    }
    if t[0].chars().any(|c| c.is_lowercase()) && t[0].chars().any(|c| c.is_uppercase()) {
        ctx.cat("mixed case");
    }
    if style == 2 {
        ctx.cat("odd whitespace");
    }
    ctx.sample(|| format!("{:?}", s));
    let res = (|| {
        let got = sut("parse_wkt", || parse_wkt(&s).map_err(|e| e.to_string()))?;
        let got = match got {
            Ok(v) => v,
            Err(e) => return viol(format!("well-formed text is an error: {}", e)),
        };
        if got.len() != 1 {
            return viol(format!("{} geometries", got.len()));
        }
        if dump(&got[0]) != m.dump() {
            return viol(format!("read as {:?}, denotes {:?}", got[0], m));
        }
        if got[0] != m.geom() {
            return viol(format!("read as {:?}, which is not equal to {:?}", got[0], m.geom()));
        }
        Ok(())
    })();
    with_input(res, || format!("{:?}", s))
}

fn damage(r: &mut Rng, t: &mut Vec<String>, ctx: &mut Ctx) -> bool {
    let at = |t: &Vec<String>, f: &dyn Fn(usize) -> bool| -> Vec<usize> { (1..t.len()).filter(|k| f(*k)).collect() };
    let is_empty = |s: &str| s.eq_ignore_ascii_case("EMPTY");
    let num = |t: &Vec<String>| at(t, &|k| !is_mark(&t[k]) && !is_empty(&t[k]));
    match r.below(6) {
        0 => {
            let v = num(t);
            if v.is_empty() {
                return false;
            }
            t.remove(*r.pick(&v));
            ctx.cat("missing coordinate");
        }
        1 => {
            let v = num(t);
            if v.is_empty() {
                return false;
            }
            let k = *r.pick(&v);
            t[k] = match r.below(4) {
                0 => r.pick(&["x", "abc", "NaN", "nan", "inf", "Infinity", "e5", "_1", "EMPTY", "O", "l0", "\u{e9}", "\u{4e00}", "*", "\"1\"", "'1'", "#1"]).to_string(),
                1 => r.pick(&["1.2.3", "--1", "1e", "1e+", "1-2", "1+2", "0x10", "1_000", "-", ".", "+", "-.", "1d0", "1f", "..5", "5..", "1e5.5", "12a", "\u{ff11}", "\u{bd}", "1\u{a0}2", "1;2", "1:2", "1/2"]).to_string(),
                2 => format!("{}{}", t[k], r.pick(&["x", "f", "m", "e", "..", "-", "'", "\u{b0}", "E+", "_"])),
                _ => format!("{}{}", r.pick(&["x", "$", "\u{2212}", "_", "~", "i"]), t[k]),
            };
            ctx.cat("not a number");
        }
        2 => {
            let v = at(t, &|k| t[k] == ",");
            if v.is_empty() {
                return false;
            }
            t.remove(*r.pick(&v));
            ctx.cat("missing comma");
        }
        3 => {
            let v = at(t, &|k| t[k] == ",");
            if v.is_empty() {
                return false;
            }
            let k = *r.pick(&v);
            for _ in 0..1 + r.us(2) {
                t.insert(k, ",".into());
            }
            ctx.cat("doubled comma");
        }
        4 => {
            // EMPTY right after it would make a whole geometry of what is left
            let v = at(t, &|k| t[k] == "(" && !is_empty(&t[k + 1]));
            if v.is_empty() {
                return false;
            }
            t.remove(*r.pick(&v));
            ctx.cat("missing opening parenthesis");
        }
        _ => {
            let v = at(t, &|k| t[k] == ")");
            if v.is_empty() {
                return false;
            }
            t.remove(*r.pick(&v));
            ctx.cat("missing closing parenthesis");
        }
    }
    true
}

fn letters(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'A' + r.below(26) as u8) as char).collect()
}

fn c22(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    ctx.eval();
    let mut quiet = Ctx::default();
    let long = i % 2000 == 9;
    let (mut t, _) = text(r, &mut quiet, true, long);
    let style = r.below(3);
    // (text, must it be an error)
    let (s, must): (String, bool) = match r.below(10) {
        0 | 1 => {
            let s = render(r, &t, style);
            let end = s.rfind(')').unwrap_or(0);
            let k = if r.chance(1, 4) { end.saturating_sub(r.us(4)) } else { r.us(end + 1) };
            let s = s[..k].to_string();
            let blank = s.trim().is_empty();
            if !blank {
                ctx.cat("truncated");
            }
            (s, !blank)
        }
        2 => {
            ctx.cat("unknown keyword");
            t[0] = match r.below(4) {
                0 => {
                    let n = 1 + r.us(14);
                    letters(r, n)
                }
                1 => r.pick(&["POINTZ", "POINTM", "SRID=4326;POINT", "TRIANGLE", "TIN", "CIRCULARSTRING", "CURVE", "SURFACE", "POLYHEDRALSURFACE", "EMPTY", "MULTI", "LINE", "LINEARRING", "RING", "BOX", "GEOMETRY", "COLLECTION", "P\u{f6}INT", "\u{3c0}"]).to_string(),
                2 => {
                    let mut w: Vec<char> = t[0].chars().collect();
                    let k = r.us(w.len());
                    match r.below(3) {
                        0 if w.len() > 1 => {
                            w.remove(k);
                        }
                        1 => w.insert(k, *r.pick(&['S', 'x', '_', '-', '\u{e9}'])),
                        _ => w[k] = *r.pick(&['Q', 'z', '?', '\u{df}']),
                    }
                    w.into_iter().collect()
                }
                _ => format!("{}{}", t[0], r.pick(&["S", "Z", "_", "1", "\u{130}"])),
            };
            let known = WORDS[1..].iter().any(|w| w.eq_ignore_ascii_case(&t[0])) || t[0].starts_with(|c: char| c.is_numeric() || "+-.".contains(c));
            (render(r, &t, style), !known)
        }
        3 | 4 | 5 => {
            let hit = damage(r, &mut t, ctx);
            (render(r, &t, style), hit)
        }
        6 => {
            ctx.cat("geometry collection");
            let mut t = vec![recase(r, "GEOMETRYCOLLECTION")];
            if r.chance(1, 8) {
                t.push(recase(r, "EMPTY"));
            } else {
                t.push("(".into());
                let depth = if r.chance(1, 20) {
                    ctx.cat("deep");
                    r.us(200)
                } else {
                    r.us(3)
                };
                for _ in 0..depth {
                    t.push(recase(r, "GEOMETRYCOLLECTION"));
                    t.push("(".into());
                }
                for k in 0..1 + r.us(3) {
                    if k > 0 {
                        t.push(",".into());
                    }
                    t.extend(text(r, &mut quiet, false, false).0);
                }
                for _ in 0..depth {
                    t.push(")".into());
                    if r.chance(1, 4) {
                        t.push(",".into());
                        t.extend(text(r, &mut quiet, false, false).0);
                    }
                }
                t.push(")".into());
            }
            (render(r, &t, style), true)
        }
        7 => {
            ctx.cat("token soup");
            let mut pool: Vec<String> = ["(", ")", ",", "EMPTY", "1", "-2.5", "+", "1e5", "(", ")", ",", "GEOMETRYCOLLECTION", "Z", "\u{0}", "1e999", "-inf", "+nan"].iter().map(|s| s.to_string()).collect();
            pool.extend(WORDS[1..].iter().map(|s| s.to_string()));
            pool.extend(t);
            let n = r.size(1, 40);
            let soup: Vec<String> = (0..n).map(|_| r.pick(&pool).clone()).collect();
            (render(r, &soup, style), false)
        }
        8 => {
            // edited
            ctx.cat("token soup");
            for _ in 0..1 + r.us(4) {
                let (j, k) = (r.us(t.len()), r.us(t.len()));
                match r.below(4) {
                    0 => t.swap(j, k),
                    1 => {
                        let w = t[j].clone();
                        t.insert(k, w);
                    }
                    2 if t.len() > 1 => {
                        t.remove(j);
                    }
                    _ => {
                        let e = k.max(j);
                        let part = t[k.min(j)..e].to_vec();
                        t.extend(part.into_iter().take(50));
                    }
                }
            }
            (render(r, &t, style), false)
        }
        _ => {
            ctx.cat("arbitrary text");
            let n = r.size(1, 60);
            let s: String = (0..n)
                .map(|_| match r.below(4) {
                    0 => *r.pick(&['(', ')', ',', ' ', '.', '-', '+', 'e', '\0', '\t']),
                    1 => (r.below(128) as u8) as char,
                    2 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
                    _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
                })
                .collect();
            (if r.bool() { format!("{}{}", r.pick(&WORDS), s) } else { s }, false)
        }
    };
    if s.len() >= 8 {
        let mut h = H::new(22);
        for b in s.bytes() {
            h.u(b as u64);
        }
        ctx.nontrivial(h.0);
    }
    ctx.sample(|| format!("{} {:?}", if must { "must be an error:" } else { "any verdict:" }, s));
    let res = sut("parse_wkt", || parse_wkt(&s).map(|v| format!("{:?}", v)).map_err(|e| e.to_string())).and_then(|got| {
        ctx.cat(if got.is_ok() { "read" } else { "error" });
        match got {
            Ok(g) if must => viol(format!("malformed or unsupported text is read as {}", g)),
            _ => Ok(()),
        }
    });
    with_input(res, || format!("{:?}", s))
}
