//! C15 validation is total; non-finite coordinates are rejected.
use super::c_segments::any_value;
use super::*;
use magog::planar::primitives::Envelope;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        quick: 2_000_000,
        thorough: 200_000_000,
        floors: &[
            ("NaN in a point", 1_000),
            ("NaN in a line string", 10_000),
            ("NaN in a polygon", 9_000),
            ("NaN in a multi-point", 8_000),
            ("NaN in a multi-line-string", 8_000),
            ("NaN in a multi-polygon", 8_000),
            ("infinity in a point", 2_000),
            ("infinity in a line string", 20_000),
            ("infinity in a polygon", 10_000),
            ("infinity in a multi-point", 10_000),
            ("infinity in a multi-line-string", 10_000),
            ("infinity in a multi-polygon", 10_000),
            ("only a hole is not finite", 5_000),
            ("only a later member is not finite", 10_000),
            ("products overflow", 40_000),
            ("products underflow", 40_000),
            ("all positions equal", 10_000),
            ("all on one line", 30_000),
            ("perturbed lattice", 40_000),
            ("valid", 100_000),
            ("invalid", 300_000),
            ("one-dimensional", 100_000),
            ("200+ positions", 1_000),
            ("100000+ positions", 60),
        ],
        rule: "A case is a geometry of any kind: arbitrary bit patterns; lattice scenarios scaled until products or sums over- or underflow; lattice scenarios with coordinates replaced by NaN, infinities, extremes, subnormals or signed zeros, or moved by a few ulp; degenerate lists (one value, one line, back and forth); random reals. Non-trivial with at least three positions. Monitor: a panic, an abort, or a case that does not end; is_simple against validate; non-finite coordinates against the verdict.",
        case: c15,
    }]
}

fn c15(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(2, 5), total(i, r, ctx))
}

const IN: [(&str, &str); 7] = [
    ("", ""),
    ("NaN in a point", "infinity in a point"),
    ("NaN in a line string", "infinity in a line string"),
    ("NaN in a polygon", "infinity in a polygon"),
    ("NaN in a multi-point", "infinity in a multi-point"),
    ("NaN in a multi-line-string", "infinity in a multi-line-string"),
    ("NaN in a multi-polygon", "infinity in a multi-polygon"),
];

fn each<T: Num>(m: &mut Model<T>, mut f: impl FnMut(&mut T)) {
    for c in m.polys.iter_mut().flatten().flatten() {
        f(&mut c.0);
        f(&mut c.1);
    }
}

fn shape<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx, kind: u64) -> Model<T> {
    if i % 400 == 0 && kind != 1 {
        // long lists of reals
        let n = 200 + r.size(0, if ctx.thorough { 3000 } else { 600 });
        ctx.cat("200+ positions");
        let k = r.below(4);
        let mut v: Vec<(T, T)> = (0..n)
            .map(|j| {
                let a = j as f64 / n as f64 * std::f64::consts::TAU;
                match k {
                    0 => (T::of_f64(r.unit()), T::of_f64(r.unit())),
                    1 => (T::of_f64(a.cos()), T::of_f64(a.sin())),
                    2 => (T::of_f64(a), T::of_f64(r.unit())),
                    _ => (T::of_f64(a.cos() * (1.0 + r.unit())), T::of_f64(a.sin() * (1.0 + r.unit()))),
                }
            })
            .collect();
        if kind == 3 || kind == 6 || r.bool() {
            v.push(v[0]);
        }
        if r.chance(1, 4) {
            let j = r.spot(v.len());
            v[j].0 = any_value(r);
        }
        return Model { kind, polys: vec![vec![v]] };
    }
    match r.below(10) {
        0 | 1 => Model::wild(r, kind),
        2 | 3 => {
            // far too large or too small
            let mut m: Model<T> = Model::lattice(r, kind);
            let max = if std::mem::size_of::<T>() == 8 { 1023 } else { 127 };
            let big = r.bool();
            let top = m.polys.iter().flatten().flatten().fold(0f64, |a, c| a.max(c.0.f64().abs()).max(c.1.f64().abs()));
            if top > 0.0 {
                let e = top.log2().floor() as i32;
                let goal = if big {
                    ctx.cat("products overflow");
                    max / 2 + r.range(0, max as i64 / 2 + 1) as i32
                } else {
                    ctx.cat("products underflow");
                    -max / 2 - r.range(0, max as i64 / 2 + if max > 1000 { 51 } else { 22 }) as i32
                };
                let s = goal - e;
                each(&mut m, |c| {
                    let x = c.f64() * pow2(s / 2);
                    *c = T::of_f64(x * pow2(s - s / 2));
                });
            }
            m
        }
        4 | 5 => {
            // poisoned
            let mut m: Model<T> = Model::lattice(r, kind);
            let n = m.len() * 2;
            if n > 0 {
                for _ in 0..1 + r.us(3) {
                    let (k, v) = (r.us(n), any_value::<T>(r));
                    let mut j = 0;
                    each(&mut m, |c| {
                        if j == k {
                            *c = v;
                        }
                        j += 1;
                    });
                }
                // keep rings closed, so that the verdict is not due to that
                if r.bool() {
                    for l in m.polys.iter_mut().flatten() {
                        if l.len() > 3 {
                            let k = l.len();
                            l[k - 1] = l[0];
                        }
                    }
                }
            }
            m
        }
        6 => {
            // a few ulp
            let mut m: Model<T> = Model::lattice(r, kind);
            ctx.cat("perturbed lattice");
            each(&mut m, |c| {
                if r.chance(1, 3) {
                    for _ in 0..1 + r.us(3) {
                        *c = if r.bool() { c.next_up() } else { c.next_down() };
                    }
                }
            });
            m
        }
        7 => {
            // degenerate lists
            let style = r.below(4);
            let base = (any_value::<T>(r), any_value::<T>(r));
            let step = (any_value::<T>(r), any_value::<T>(r));
            ctx.cat(if style == 0 { "all positions equal" } else { "all on one line" });
            let list = |r: &mut Rng| -> Vec<(T, T)> {
                let top = if r.chance(1, 20) { 120 } else { 12 };
                let n = r.size(1, top);
                (0..n)
                    .map(|j| {
                        let k = match style {
                            0 => 0,
                            1 => j as i64,
                            2 => (j % 2) as i64,
                            _ => r.range(-3, 3),
                        };
                        let k = T::of_f64(k as f64);
                        (base.0 + step.0 * k, base.1 + step.1 * k)
                    })
                    .collect()
            };
            let polys = match kind {
                1 => vec![vec![vec![base]]],
                2 | 4 => vec![vec![list(r)]],
                3 | 5 => {
                    let n = 1 + r.us(4);
                    vec![(0..n).map(|_| list(r)).collect()]
                }
                _ => {
                    let n = 1 + r.us(3);
                    (0..n)
                        .map(|_| {
                            let k = 1 + r.us(2);
                            (0..k).map(|_| list(r)).collect()
                        })
                        .collect()
                }
            };
            Model { kind, polys }
        }
        8 => {
            // reals in lattice scenarios' combinatorics
            let mut m: Model<T> = Model::lattice(r, kind);
            let (a, b) = (r.unit() * 3.0, r.unit() * 2.0 - 1.0);
            each(&mut m, |c| *c = T::of_f64(c.f64() * a + b));
            m
        }
        _ => Model::lattice(r, kind),
    }
}

/// Very many positions or members, apart from each other: what calls itself once for
/// each of them runs out of stack. Every second time one coordinate is not finite.
fn huge<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx, kind: u64) -> Model<T> {
    ctx.cat("100000+ positions");
    let f = |x: usize, y: f64| (T::of_f64(x as f64), T::of_f64(y));
    let n = 100_000 + r.us(200_000);
    let mut zig: Vec<(T, T)> = (0..n).map(|k| f(k, (k % 3) as f64)).collect();
    let mut polys = match kind {
        2 | 4 => vec![vec![zig]],
        3 => {
            zig.push(f(n, -5.0));
            zig.push(f(0, -5.0));
            zig.push(f(0, 0.0));
            vec![vec![zig]]
        }
        5 => vec![(0..n / 3).map(|k| vec![f(3 * k, 0.0), f(3 * k + 1, 1.0), f(3 * k + 2, 0.0)]).collect()],
        _ => (0..n / 4).map(|k| vec![vec![f(3 * k, 0.0), f(3 * k + 2, 0.0), f(3 * k, 2.0), f(3 * k, 0.0)]]).collect(),
    };
    if i % 2 == 1 {
        let k = r.spot(polys.len());
        let j = r.spot(polys[k].len());
        let l = &mut polys[k][j];
        let k = r.spot(l.len());
        let bad = *r.pick(&[T::nan(), T::nan(), T::infinity(), T::neg_infinity()]);
        if r.bool() {
            l[k].0 = bad;
        } else {
            l[k].1 = bad;
        }
    }
    Model { kind, polys }
}

fn total<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let kind = 1 + r.below(6);
    let kind = if kind == 1 && r.chance(3, 4) { 2 } else { kind };
    let (kind, m) = if i < 60 {
        let kind = 2 + i % 5;
        (kind, huge(i, r, ctx, kind))
    } else {
        (kind, shape::<T>(i, r, ctx, kind))
    };
    ctx.eval();
    if m.len() > 2 {
        ctx.nontrivial(m.hash(15));
    }
    ctx.sample(|| format!("{} {:?}", T::NAME, m));
    let fin = |c: &(T, T)| c.0.is_finite() && c.1.is_finite();
    let finite = m.polys.iter().flatten().flatten().all(fin);
    if m.polys.iter().flatten().flatten().any(|c| c.0.is_nan() || c.1.is_nan()) {
        ctx.cat(IN[kind as usize].0);
    }
    if m.polys.iter().flatten().flatten().any(|c| c.0.is_infinite() || c.1.is_infinite()) {
        ctx.cat(IN[kind as usize].1);
    }
    if !finite && (kind == 3 || kind == 6) && m.polys.iter().all(|q| q[0].iter().all(fin)) {
        ctx.cat("only a hole is not finite");
    }
    if !finite && kind != 1 && m.polys.iter().flatten().next().map_or(false, |l| l.iter().all(fin)) {
        ctx.cat("only a later member is not finite");
    }
    let res = (|| {
        let g = sut("construction", || m.geom())?;
        let v = sut("validate", || match &g {
            Geometry::Empty(x) => x.validate(),
            Geometry::Point(x) => x.validate(),
            Geometry::LineString(x) => x.validate(),
            Geometry::Polygon(x) => x.validate(),
            Geometry::MultiPoint(x) => x.validate(),
            Geometry::MultiLineString(x) => x.validate(),
            Geometry::MultiPolygon(x) => x.validate(),
        })?;
        let s = sut("is_simple", || match &g {
            Geometry::Empty(x) => x.is_simple(),
            Geometry::Point(x) => x.is_simple(),
            Geometry::LineString(x) => x.is_simple(),
            Geometry::Polygon(x) => x.is_simple(),
            Geometry::MultiPoint(x) => x.is_simple(),
            Geometry::MultiLineString(x) => x.is_simple(),
            Geometry::MultiPolygon(x) => x.is_simple(),
        })?;
        ctx.cat(if v.is_ok() { "valid" } else { "invalid" });
        if s != v.is_ok() {
            return viol(format!("is_simple() = {}, validate() = {:?}", s, v));
        }
        if sut("Geometry::is_simple", || g.is_simple())? != s {
            return viol(format!("Geometry.is_simple() = {}, validate() = {:?}", !s, v));
        }
        if !finite && v.is_ok() {
            return viol("a coordinate is not finite, but validate() = Ok");
        }
        if let Geometry::LineString(l) = &g {
            let ring = sut("is_ring", || l.is_ring())?;
            if ring != (l.is_closed() && s) {
                return viol(format!("is_ring() = {}, closed {}, simple {}", ring, l.is_closed(), s));
            }
        }
        // the primitives inside
        for l in m.polys.iter().flatten().take(2) {
            for w in l.windows(2).take(3) {
                let (a, b) = (Position::new(w[0].0, w[0].1), Position::new(w[1].0, w[1].1));
                sut("Position::validate", || a.validate())?.ok();
                sut("Segment::validate", || Segment::new(a, b).validate())?.ok();
                sut("Envelope::validate", || Envelope::new(a, b).validate())?.ok();
                sut("Envelope::validate", || Envelope::Bounds { min: a, max: b }.validate())?.ok();
                for (what, p) in [("Position", a), ("Position", b)] {
                    let ok = p.x.is_finite() && p.y.is_finite();
                    if p.validate().is_ok() != ok {
                        return viol(format!("{} {:?} validates: {}", what, p, !ok));
                    }
                }
            }
        }
        if kind == 1 || kind == 4 {
            use magog::linear::{primitives as lp, types as lt};
            ctx.cat("one-dimensional");
            for c in m.polys[0][0].iter().take(4) {
                let p = lp::Position::new(c.0);
                let s = lp::Segment::new(p, lp::Position::new(c.1));
                sut("linear Position::validate", || p.validate())?.ok();
                sut("linear Segment::validate", || s.validate())?.ok();
                sut("linear Envelope::validate", || lp::Envelope::new(s.start, s.end).validate())?.ok();
                sut("linear Point", || lt::Point::new(p).is_empty())?;
            }
        }
        Ok(())
    })();
    with_input(res, || format!("{} {:?}", T::NAME, m))
}
