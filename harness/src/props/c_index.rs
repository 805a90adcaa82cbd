//! C01-C05: the packed R-tree.
use super::*;
use magog::flatbush::{Flatbush, FlatbushNode};
use magog::planar::primitives::{Envelope, HasEnvelope};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 650_000,
            thorough: 65_000_000,
            floors: &[("query", 3_000_000), ("hit", 70_000_000), ("touching hit", 10_000_000), ("empty items", 10_000), ("NaN items", 10_000), ("huge items", 20_000), ("flat items", 30_000), ("n > 65536", 4), ("levels >= 3", 50_000), ("empty query", 100_000), ("NaN query", 100_000), ("line string index", 3_000)],
            rule: "A case is an item list (lattice, uniform, clustered, collinear, identical, huge, infinite, subnormal, NaN, empty items; 0 to a million of them; degree 2 to 1024; sorted or not; given as envelopes, points, segments, line strings, multi-points or polygons) and up to 40 query boxes; evaluations are queries; non-trivial when at least 2 items are non-empty. Oracle: closed-interval comparison with every item.",
            case: c01,
        },
        Prop {
            id: "C02",
            quick: 250_000,
            thorough: 25_000_000,
            floors: &[("pair", 40_000_000), ("touching pair", 2_000_000), ("empty items", 5_000), ("NaN items", 5_000), ("huge items", 10_000), ("flat items", 10_000), ("n > 65536", 4), ("levels >= 3", 10_000)],
            rule: "Item lists as for C01; one self-join each, compared as a sorted list of pairs with the brute-force (n > 1500: plane sweep) answer. Non-trivial when at least 2 items are non-empty.",
            case: c02,
        },
        Prop {
            id: "C03",
            quick: 700_000,
            thorough: 70_000_000,
            floors: &[("pair", 20_000_000), ("touching pair", 4_000_000), ("different depth", 100_000), ("one side empty", 8_000), ("with itself", 50_000), ("n > 65536", 4), ("NaN items", 10_000)],
            rule: "Two item lists as for C01 with sizes, degrees and modes chosen independently; the join in both directions compared with brute force (plane sweep when large). Non-trivial when both have a non-empty item.",
            case: c03,
        },
        Prop {
            id: "C04",
            quick: 1_000_000,
            thorough: 100_000_000,
            floors: &[("query", 3_000_000), ("must hit", 50_000_000), ("exactly at the distance", 90_000), ("zero distance", 600_000), ("n > 65536", 4), ("infinite distance", 100_000), ("scaled", 200_000)],
            rule: "Item lists as for C01 and up to 30 (point, distance) queries each, many at exactly the distance of some item's side or corner. Every item whose box is within the Euclidean distance (certain despite rounding) must be reported, nothing disjoint from the square widened by one unit in the last place may be.",
            case: c04,
        },
        Prop {
            id: "C05",
            quick: 2_000_000,
            thorough: 200_000_000,
            floors: &[("node", 10_000_000), ("leaf", 30_000_000), ("no items", 20_000), ("one item", 50_000), ("all items empty", 10_000), ("n > 65536", 4), ("levels >= 3", 100_000), ("NaN items", 40_000)],
            rule: "Item lists as for C01; a full walk from the root. evaluations counts nodes. Non-trivial when there is an internal node.",
            case: c05,
        },
    ]
}

type B<T> = Option<[T; 4]>; // min x, min y, max x, max y

fn meet<T: Num>(a: &B<T>, b: &B<T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3],
        _ => false,
    }
}
fn env<T: Num>(b: &B<T>) -> Envelope<T> {
    match b {
        None => Envelope::empty(),
        Some(b) => Envelope::new(Position::new(b[0], b[1]), Position::new(b[2], b[3])),
    }
}
fn same<T: Num>(a: T, b: T) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn is_env<T: Num>(e: &Envelope<T>, b: &B<T>) -> bool {
    match (e, b) {
        (Envelope::Empty, None) => true,
        (Envelope::Bounds { min, max }, Some(b)) => same(min.x, b[0]) && same(min.y, b[1]) && same(max.x, b[2]) && same(max.y, b[3]),
        _ => false,
    }
}
fn cover<T: Num>(it: impl Iterator<Item = B<T>>) -> B<T> {
    let mut o: B<T> = None;
    let lo = |a: T, b: T| if a.is_nan() || b < a { b } else { a };
    let hi = |a: T, b: T| if a.is_nan() || b > a { b } else { a };
    for b in it.flatten() {
        o = Some(match o {
            None => b,
            Some(a) => [lo(a[0], b[0]), lo(a[1], b[1]), hi(a[2], b[2]), hi(a[3], b[3])],
        });
    }
    o
}

#[derive(Clone)]
struct Items<T: Num> {
    b: Vec<B<T>>,
    kind: &'static str,
    shape: &'static str,
    degree: usize,
    sorted: bool,
    salt: u64,
}

struct Field<T: Num> {
    name: &'static str,
    f: Box<dyn Fn(&mut Rng) -> T>,
}

fn ordered<T: Num>(a: T, b: T) -> (T, T) {
    if b < a {
        (b, a)
    } else {
        (a, b)
    }
}

/// Coordinate distributions.
fn field<T: Num>(r: &mut Rng, dense_ok: bool) -> Field<T> {
    let big = T::max_fin();
    let k = if dense_ok { r.below(10) } else { 1 + r.below(3) };
    match k {
        0 => {
            let n = r.range(1, 12);
            Field { name: "lattice", f: Box::new(move |r| T::of_f64(r.range(0, n) as f64)) }
        }
        1 => {
            let n = r.range(100, 2000);
            let s = pow2(r.range(-20, 10) as i32);
            Field { name: "lattice", f: Box::new(move |r| T::of_f64(r.range(-n, n) as f64 * s)) }
        }
        2 => {
            let s = 10f64.powi(r.range(-12, 12) as i32);
            Field { name: "uniform", f: Box::new(move |r| T::of_f64((r.unit() - 0.5) * s)) }
        }
        3 => {
            let c: Vec<f64> = (0..4).map(|_| (r.unit() - 0.5) * 1000.0).collect();
            Field { name: "cluster", f: Box::new(move |r| T::of_f64(r.pick(&c) + r.unit() * r.unit() * 3.0)) }
        }
        4 => Field {
            name: "huge",
            f: Box::new(move |r| {
                let m = *r.pick(&[1.0, 0.5, 1e-3, 1e-30, 0.999]);
                let v = T::of_f64(big.f64() * m * (r.unit() * 2.0 - 1.0));
                *r.pick(&[v, v, v, big, -big])
            }),
        },
        5 => Field {
            name: "huge",
            f: Box::new(move |r| {
                let v = T::of_f64(r.range(-50, 50) as f64);
                *r.pick(&[v, v, v, v, T::infinity(), T::neg_infinity(), big, -big])
            }),
        },
        6 => Field { name: "subnormal", f: Box::new(move |r| T::of_f64(r.range(-40, 40) as f64) * T::min_sub()) },
        7 => Field {
            name: "mixed magnitude",
            f: Box::new(move |r| {
                let e = if T::BITS == 24 { r.range(-1060, 1020) } else { r.range(-148, 126) };
                let v = T::of_f64((r.unit() + 1.0) * pow2(e as i32));
                if r.bool() {
                    v
                } else {
                    -v
                }
            }),
        },
        8 => {
            let v = T::of_f64(r.range(-3, 3) as f64 * 0.1);
            Field { name: "constant", f: Box::new(move |_| v) }
        }
        _ => {
            let a = T::of_f64(1.0 + r.unit());
            Field {
                name: "neighbours",
                f: Box::new(move |r| {
                    let mut v = a;
                    for _ in 0..r.below(4) {
                        v = v.next_up();
                    }
                    v
                }),
            }
        }
    }
}

fn items<T: Num>(r: &mut Rng, n: usize, dense_ok: bool) -> Items<T> {
    let fx = field::<T>(r, dense_ok);
    let fy = if r.chance(2, 3) { field::<T>(r, dense_ok) } else { Field { name: fx.name, f: field::<T>(r, dense_ok).f } };
    let nan = dense_ok && r.chance(1, 8);
    let empty = if r.chance(1, 6) { *r.pick(&[1, 1, 3, 8]) } else { 0 };
    let point_share = *r.pick(&[0, 1, 5, 10]);
    let flat = dense_ok && r.chance(1, 8);
    let big_boxes = dense_ok && r.chance(1, 6);
    // small boxes: half-size relative to the spread
    let small = if n > 1500 || r.chance(1, 3) { Some(pow2(-(r.range(4, 10) as i32))) } else { None };
    let kind = *r.pick(&["Envelope", "Envelope", "Segment", "LineString", "Position", "MultiPoint", "Polygon"]);
    let c0 = (fx.f)(r);
    let copies = r.chance(1, 6);
    let mut b: Vec<B<T>> = Vec::with_capacity(n);
    for _ in 0..n {
        if empty > 0 && r.chance(empty, 8) && (kind == "Envelope" || kind == "LineString" || kind == "MultiPoint" || kind == "Polygon") {
            b.push(None);
            continue;
        }
        if copies && !b.is_empty() && r.bool() {
            let k = r.us(b.len());
            let c = b[k];
            b.push(c);
            continue;
        }
        let (mut x0, y0) = ((fx.f)(r), (fy.f)(r));
        if flat {
            x0 = c0;
        }
        let (mut x1, mut y1) = (x0, y0);
        if kind != "Position" && !r.chance(point_share, 10) {
            if let (Some(s), true) = (small, !big_boxes || r.chance(9, 10)) {
                let (ax, ay) = ((fx.f)(r), (fy.f)(r));
                let sx = (ax - x0) * T::of_f64(s);
                let sy = (ay - y0) * T::of_f64(s);
                if sx.is_finite() && sy.is_finite() {
                    x1 = if flat { x0 } else { x0 + sx };
                    y1 = y0 + sy;
                }
            } else {
                x1 = if flat { x0 } else { (fx.f)(r) };
                y1 = (fy.f)(r);
            }
        }
        let (mut x0, mut x1) = ordered(x0, x1);
        let (mut y0, mut y1) = ordered(y0, y1);
        if nan && r.chance(1, 4) {
            match r.below(3) {
                0 => {
                    x0 = T::nan();
                    x1 = x0
                }
                1 => {
                    y0 = T::nan();
                    y1 = y0
                }
                _ => {
                    x0 = T::nan();
                    x1 = x0;
                    y0 = x0;
                    y1 = x0;
                }
            }
        }
        b.push(Some([x0, y0, x1, y1]));
    }
    let degree = if n > 60_000 {
        *r.pick(&[2, 4, 8, 16, 16, 32])
    } else if n > 10_000 {
        *r.pick(&[64, 128, 256, 512])
    } else if r.chance(1, 20) {
        *r.pick(&[128, 512, 1024])
    } else {
        *r.pick(&[2, 2, 2, 4, 4, 8, 8, 16, 32, 64, 256])
    };
    let shape = if flat {
        "flat"
    } else {
        fx.name
    };
    Items { b, kind, shape, degree, sorted: r.chance(2, 3), salt: r.u64() }
}

fn pick_n(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0 => r.us(4),
        1 | 2 => {
            let d = *r.pick(&[2usize, 4, 8, 16]);
            let mut n = d;
            for _ in 0..r.below(3) {
                n *= d;
            }
            (n + r.us(3)).saturating_sub(1).min(max)
        }
        _ => r.size(1, max),
    }
}

impl<T: Num> Items<T> {
    fn build(&self) -> R<Flatbush<T>> {
        fn mk<T: Num>(v: &[impl HasEnvelope<T>], d: usize, sorted: bool) -> R<Flatbush<T>> {
            if sorted {
                sut("Flatbush::new", || Flatbush::new(v, d))
            } else {
                sut("Flatbush::new_unsorted", || Flatbush::new_unsorted(v, d))
            }
        }
        let (d, s) = (self.degree, self.sorted);
        let mut r = Rng::new(self.salt, 1, 2);
        if self.b.is_empty() && r.bool() {
            return sut("Flatbush::new_empty", || Flatbush::new_empty());
        }
        let p = |x: T, y: T| Position::new(x, y);
        let corners = |b: &[T; 4], r: &mut Rng| -> Vec<Position<T>> {
            let mut v = if r.bool() { vec![p(b[0], b[1]), p(b[2], b[3])] } else { vec![p(b[0], b[3]), p(b[2], b[1])] };
            if r.bool() {
                v.reverse();
            }
            v
        };
        match self.kind {
            "Envelope" => mk(&self.b.iter().map(|b| env(b)).collect::<Vec<_>>(), d, s),
            "Position" => {
                if r.bool() {
                    mk(&self.b.iter().flatten().map(|b| p(b[0], b[1])).collect::<Vec<_>>(), d, s)
                } else {
                    mk(&self.b.iter().flatten().map(|b| Point::new(p(b[0], b[1]))).collect::<Vec<_>>(), d, s)
                }
            }
            "Segment" => {
                let v: Vec<Segment<T>> = self
                    .b
                    .iter()
                    .flatten()
                    .map(|b| {
                        let c = corners(b, &mut r);
                        Segment::new(c[0], c[1])
                    })
                    .collect();
                mk(&v, d, s)
            }
            k => {
                let v: Vec<Vec<Position<T>>> = self
                    .b
                    .iter()
                    .map(|b| match b {
                        None => vec![],
                        Some(b) => {
                            let mut c = corners(b, &mut r);
                            if r.bool() {
                                c.insert(1, p(b[0], b[1]));
                            }
                            c
                        }
                    })
                    .collect();
                match k {
                    "LineString" => mk(&v.into_iter().map(LineString::new).collect::<Vec<_>>(), d, s),
                    "MultiPoint" => mk(&v.into_iter().map(|c| MultiPoint::new(c.into_iter().map(Point::new).collect())).collect::<Vec<_>>(), d, s),
                    _ => mk(&v.into_iter().map(|c| Polygon::new(LineString::new(c), vec![])).collect::<Vec<_>>(), d, s),
                }
            }
        }
    }
    fn show(&self) -> String {
        format!("{} {} items as {}, degree {}, sorted {}, shape {}: {:?}", T::NAME, self.b.len(), self.kind, self.degree, self.sorted, self.shape, &self.b[..self.b.len().min(600)])
    }
    fn tally(&self, ctx: &mut Ctx) {
        if self.b.iter().any(|b| b.is_none()) {
            ctx.cat("empty items");
        }
        if self.b.iter().flatten().any(|b| b.iter().any(|c| c.is_nan())) {
            ctx.cat("NaN items");
        }
        if self.shape == "huge" {
            ctx.cat("huge items");
        }
        if self.b.len() > 1 {
            if let Some(c) = cover(self.b.iter().copied()) {
                if (c[0] == c[2]) != (c[1] == c[3]) {
                    ctx.cat("flat items");
                }
            }
        }
        if self.b.len() > 65536 {
            ctx.cat("n > 65536");
        }
        if self.b.len() > self.degree * self.degree {
            ctx.cat("levels >= 3");
        }
    }
    fn hash(&self, tag: u64) -> u64 {
        let mut h = H::new(tag);
        h.u(std::mem::size_of::<T>() as u64).u(self.degree as u64).u(self.sorted as u64);
        for b in &self.b {
            match b {
                None => {
                    h.u(1);
                }
                Some(b) => {
                    for c in b {
                        h.u(c.bits());
                    }
                }
            }
        }
        h.0
    }
}

fn query<T: Num>(r: &mut Rng, it: &Items<T>) -> B<T> {
    let some = |r: &mut Rng| -> [T; 4] {
        for _ in 0..8 {
            if it.b.is_empty() {
                break;
            }
            if let Some(b) = it.b[r.us(it.b.len())] {
                return b;
            }
        }
        [T::zero(), T::zero(), T::one(), T::one()]
    };
    let (a, b) = (some(r), some(r));
    let ord = |x0: T, y0: T, x1: T, y1: T| {
        let (x0, x1) = ordered(x0, x1);
        let (y0, y1) = ordered(y0, y1);
        Some([x0, y0, x1, y1])
    };
    match r.below(14) {
        0 => Some(a),
        1 => ord(a[0], a[1], b[2], b[3]),
        2 => ord(a[2], a[3], b[0], b[1]),
        3 => ord(a[2], a[1], a[2], a[1]), // a corner as a point
        4 => ord(a[0], a[3], a[0], a[3]),
        5 => ord(a[2], a[3], a[2] + (b[2] - b[0]).abs() + T::one(), a[3] + T::one()), // touching at a corner
        6 => {
            // just past an edge
            let x = a[2].next_up();
            ord(x, a[1], x + T::one(), a[3])
        }
        7 => {
            let y = a[1].next_down();
            ord(a[0], y - T::one(), a[2], y)
        }
        8 => Some([T::neg_infinity(), a[1], T::infinity(), a[3]]),
        9 => Some([T::neg_infinity(), T::neg_infinity(), T::infinity(), T::infinity()]),
        10 => {
            let (x, y) = (T::of_f64(r.unit() * 100.0 - 50.0), T::of_f64(r.unit() * 100.0 - 50.0));
            ord(x, y, x + T::of_f64(r.unit() * 40.0), y + T::of_f64(r.unit() * 40.0))
        }
        11 => ord(b[0], a[3], b[0], b[3]),
        12 => match r.below(4) {
            0 => Some([T::nan(), a[1], T::nan(), a[3]]),
            1 => Some([a[0], T::nan(), a[2], T::nan()]),
            _ => None,
        },
        _ => ord(a[0], a[1], a[0] + (a[2] - a[0]) / T::of_f64(2.0), b[1]),
    }
    .map(|q| {
        // Envelope::new lets a number win over NaN
        let w = |a: T, b: T| if a.is_nan() { b } else { a };
        [w(q[0], q[2]), w(q[1], q[3]), w(q[2], q[0]), w(q[3], q[1])]
    })
}

/// Sorted result list against the expectation.
fn same_list<X: Ord + Copy + std::fmt::Debug>(what: &str, mut got: Vec<X>, mut want: Vec<X>) -> R {
    got.sort_unstable();
    want.sort_unstable();
    if got == want {
        return Ok(());
    }
    if let Some(w) = got.windows(2).find(|w| w[0] == w[1]) {
        return viol(format!("{}: {:?} reported more than once", what, w[0]));
    }
    let g: std::collections::BTreeSet<X> = got.iter().copied().collect();
    let w: std::collections::BTreeSet<X> = want.iter().copied().collect();
    let missing: Vec<_> = w.difference(&g).take(5).collect();
    let extra: Vec<_> = g.difference(&w).take(5).collect();
    viol(format!("{}: {} reported, {} expected; missing {:?}, unexpected {:?}", what, got.len(), want.len(), missing, extra))
}

fn case_n(i: u64, r: &mut Rng, ctx: &Ctx, max: usize) -> (usize, bool) {
    if i == 0 {
        (1_050_000 + r.us(200_000), false)
    } else if i < 4 {
        (140_000 + r.us(300_000), false)
    } else if i < 10 {
        (65_600 + r.us(if ctx.thorough { 200_000 } else { 5_000 }), false)
    } else if i < 60 {
        // every fourth: wide levels
        (2_000 + r.us(if i % 4 == 0 { 38_000 } else { 8_000 }), false)
    } else {
        (pick_n(r, max), true)
    }
}

fn c01(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (n, d) = case_n(i, r, ctx, 600);
    dispatch!(r.chance(2, 5), c01_t(n, d, r, ctx))
}
fn c01_t<T: Num>(n: usize, dense: bool, r: &mut Rng, ctx: &mut Ctx) -> R {
    if r.chance(1, 40) && n > 0 {
        return ls_index::<T>(n, r, ctx);
    }
    let it = items::<T>(r, n, dense);
    it.tally(ctx);
    if it.b.iter().flatten().count() > 1 {
        ctx.nontrivial(it.hash(1));
    }
    ctx.sample(|| it.show());
    let res = (|| {
        let t = it.build()?;
        let nq = if n > 60_000 { 60 } else { 6 + r.us(30) };
        for _ in 0..nq {
            let q = query(r, &it);
            query_check(&t, &it.b, &q, ctx)?;
        }
        Ok(())
    })();
    with_input(res, || it.show())
}
fn query_check<T: Num>(t: &Flatbush<T>, b: &[B<T>], q: &B<T>, ctx: &mut Ctx) -> R {
    let e = env(q);
    let got = sut("find_intersection_candidates", || t.find_intersection_candidates(e))?;
    let want: Vec<usize> = (0..b.len()).filter(|&k| meet(&b[k], q)).collect();
    ctx.eval();
    ctx.cat("query");
    ctx.cat_n("hit", want.len() as u64);
    match q {
        None => ctx.cat("empty query"),
        Some(q) if q.iter().any(|c| c.is_nan()) => ctx.cat("NaN query"),
        Some(q) => {
            if want.len() < 200 {
                let t = want.iter().filter(|&&k| b[k].map_or(false, |b| b[2] == q[0] || b[0] == q[2] || b[1] == q[3] || b[3] == q[1])).count();
                ctx.cat_n("touching hit", t as u64);
            }
        }
    }
    same_list(&format!("query {:?}", e), got, want)
}

/// The index a line string builds over its own segments.
fn ls_index<T: Num>(n: usize, r: &mut Rng, ctx: &mut Ctx) -> R {
    let f = field::<T>(r, true);
    let v: Vec<Position<T>> = (0..n).map(|_| Position::new((f.f)(r), (f.f)(r))).collect();
    let b: Vec<B<T>> = v
        .windows(2)
        .map(|w| {
            let (x0, x1) = ordered(w[0].x, w[1].x);
            let (y0, y1) = ordered(w[0].y, w[1].y);
            Some([x0, y0, x1, y1])
        })
        .collect();
    let it = Items { b, kind: "segments of a line string", shape: f.name, degree: 8, sorted: false, salt: 0 };
    ctx.cat("line string index");
    let res = (|| {
        let ls = sut("LineString::new", || LineString::new(v.clone()))?;
        let t = sut("LineString::build_rtree", || ls.build_rtree())?;
        for _ in 0..8 {
            let q = query(r, &it);
            query_check(&t, &it.b, &q, ctx)?;
        }
        Ok(())
    })();
    with_input(res, || it.show())
}

/// All meeting pairs between two lists (i from a, j from b) by plane sweep or brute force.
fn join<T: Num>(a: &[B<T>], b: &[B<T>], cap: usize) -> Option<Vec<(usize, usize)>> {
    let mut out = vec![];
    if a.len() * b.len() <= 3_000_000 {
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                if meet(x, y) {
                    out.push((i, j));
                    if out.len() > cap {
                        return None;
                    }
                }
            }
        }
        return Some(out);
    }
    let mut ob: Vec<usize> = (0..b.len()).filter(|&j| b[j].map_or(false, |y| !y[0].is_nan())).collect();
    ob.sort_by(|&i, &j| b[i].unwrap()[0].partial_cmp(&b[j].unwrap()[0]).unwrap());
    // longest x extent bounds how far back to look
    let mut reach = vec![T::neg_infinity(); ob.len() + 1]; // prefix maximum of max x
    for (k, &j) in ob.iter().enumerate() {
        reach[k + 1] = reach[k].max(b[j].unwrap()[2]);
    }
    let sb: Vec<B<T>> = ob.iter().map(|&j| b[j]).collect();
    let mut oa: Vec<usize> = (0..a.len()).collect();
    if a.len() > 100_000 {
        oa.sort_by(|&i, &j| a[i].map(|x| x[0].f64()).unwrap_or(0.0).total_cmp(&a[j].map(|x| x[0].f64()).unwrap_or(0.0)));
    }
    for i in oa {
        let x = &a[i];
        if let Some(xb) = x {
            let end = sb.partition_point(|y| y.unwrap()[0] <= xb[2]);
            for k in (0..end).rev() {
                if reach[k + 1] < xb[0] {
                    break;
                }
                if meet(x, &sb[k]) {
                    out.push((i, ob[k]));
                    if out.len() > cap {
                        return None;
                    }
                }
            }
        }
    }
    Some(out)
}

fn touch_count<T: Num>(a: &[B<T>], b: &[B<T>], pairs: &[(usize, usize)]) -> u64 {
    pairs
        .iter()
        .take(300)
        .filter(|(i, j)| match (&a[*i], &b[*j]) {
            (Some(x), Some(y)) => x[0] == y[2] || x[2] == y[0] || x[1] == y[3] || x[3] == y[1],
            _ => false,
        })
        .count() as u64
}

fn c02(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (n, d) = case_n(i, r, ctx, 250);
    dispatch!(r.chance(2, 5), c02_t(n, d, r, ctx))
}
fn c02_t<T: Num>(n: usize, dense: bool, r: &mut Rng, ctx: &mut Ctx) -> R {
    let mut it = items::<T>(r, n, dense);
    if n > 10_000 && it.b.len() > 10_000 {
        // spread them so that the answer stays of manageable size
        spread(&mut it, r);
        // unsorted, an index of that size would be compared almost item by item
        it.sorted = true;
    }
    if n > 100_000 {
        it.degree = *r.pick(&[2, 4, 8, 16]);
    }
    it.tally(ctx);
    let want = match join(&it.b, &it.b, 4_000_000) {
        Some(w) => w,
        None => {
            ctx.cat("skipped: answer too large");
            return Ok(());
        }
    };
    let want: Vec<(usize, usize)> = want.into_iter().filter(|(i, j)| i < j).collect();
    ctx.eval();
    ctx.cat_n("pair", want.len() as u64);
    ctx.cat_n("touching pair", touch_count(&it.b, &it.b, &want));
    if it.b.iter().flatten().count() > 1 {
        ctx.nontrivial(it.hash(2));
    }
    ctx.sample(|| it.show());
    let res = (|| {
        let t = it.build()?;
        let got = sut("find_self_intersection_candidates", || t.find_self_intersection_candidates())?;
        if let Some(q) = got.iter().find(|(i, j)| i >= j) {
            return viol(format!("self-join reports {:?}: not (smaller, larger)", q));
        }
        same_list("self-join", got, want)
    })();
    with_input(res, || it.show())
}
fn spread<T: Num>(it: &mut Items<T>, r: &mut Rng) {
    let side = (it.b.len() as f64).sqrt() * 1.5;
    for b in it.b.iter_mut() {
        if b.is_some() {
            let (x, y) = ((r.unit() * side * 4.0).floor() / 4.0, (r.unit() * side * 4.0).floor() / 4.0);
            let (w, h) = if it.kind == "Position" { (0.0, 0.0) } else { (r.range(0, 4) as f64 / 4.0, r.range(0, 4) as f64 / 4.0) };
            *b = Some([T::of_f64(x), T::of_f64(y), T::of_f64(x + w), T::of_f64(y + h)]);
        }
    }
}

fn c03(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (n, d) = case_n(i, r, ctx, 200);
    let m = if i < 10 { 500 + r.us(80_000) } else { pick_n(r, 200) };
    let (n, m) = if r.bool() { (n, m) } else { (m, n) };
    dispatch!(r.chance(2, 5), c03_t(n, m, d, r, ctx))
}
fn c03_t<T: Num>(n: usize, m: usize, dense: bool, r: &mut Rng, ctx: &mut Ctx) -> R {
    let mut a = items::<T>(r, n, dense);
    // the same coordinate distribution half of the time, so that the two meet
    let mut b = if r.bool() && n > 0 {
        let mut b = items::<T>(r, m, dense);
        let jitter = r.bool();
        for y in b.b.iter_mut() {
            let c = a.b[r.us(n)];
            if let (Some(c), true) = (c, y.is_some() || b.kind == "Envelope") {
                *y = Some(if b.kind == "Position" {
                    [c[2], c[1], c[2], c[1]]
                } else if jitter && r.bool() {
                    let w = c[2] - c[0];
                    if w.is_finite() && (c[2] + w).is_finite() {
                        [c[2], c[1], c[2] + w, c[3]]
                    } else {
                        c
                    }
                } else {
                    c
                });
            }
        }
        b
    } else {
        items::<T>(r, m, dense)
    };
    if n * m > 50_000_000 {
        // two unsorted indexes of that size would be compared almost item by item
        a.sorted = true;
        b.sorted = true;
    }
    if n.max(m) > 60_000 {
        spread(&mut a, r);
        spread(&mut b, r);
    }
    a.tally(ctx);
    let want = match join(&a.b, &b.b, 4_000_000) {
        Some(w) => w,
        None => {
            ctx.cat("skipped: answer too large");
            return Ok(());
        }
    };
    let itself = if n < 1000 && r.chance(1, 8) { join(&a.b, &a.b, 100_000) } else { None };
    if itself.is_some() {
        ctx.cat("with itself");
    }
    ctx.eval();
    if n == 0 || m == 0 {
        ctx.cat("one side empty");
    }
    let depth = |n: usize, d: usize| {
        let (mut k, mut s) = (0, n);
        while s > 1 {
            s = (s + d - 1) / d;
            k += 1;
        }
        k
    };
    if depth(n, a.degree) != depth(m, b.degree) {
        ctx.cat("different depth");
    }
    ctx.cat_n("pair", want.len() as u64);
    ctx.cat_n("touching pair", touch_count(&a.b, &b.b, &want));
    if a.b.iter().flatten().count() > 0 && b.b.iter().flatten().count() > 0 {
        ctx.nontrivial(a.hash(3) ^ b.hash(4));
    }
    ctx.sample(|| format!("{} // {}", a.show(), b.show()));
    let res = (|| {
        let ta = a.build()?;
        let tb = b.build()?;
        let ab = sut("find_other_rtree_intersection_candidates", || ta.find_other_rtree_intersection_candidates(&tb))?;
        same_list("join", ab, want.clone())?;
        let ba = sut("find_other_rtree_intersection_candidates", || tb.find_other_rtree_intersection_candidates(&ta))?;
        same_list("swapped join", ba, want.iter().map(|q| (q.1, q.0)).collect())?;
        if let Some(want) = &itself {
            let aa = sut("find_other_rtree_intersection_candidates", || ta.find_other_rtree_intersection_candidates(&ta))?;
            same_list("join of an index with itself", aa, want.clone())?;
        }
        Ok(())
    })();
    with_input(res, || format!("{}\n  with {}", a.show(), b.show()))
}

fn c04(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (n, d) = if i >= 4 && i < 60 { (2000, false) } else { case_n(i, r, ctx, 300) };
    dispatch!(r.chance(2, 5), c04_t(n, d, r, ctx))
}
fn c04_t<T: Num>(n: usize, dense: bool, r: &mut Rng, ctx: &mut Ctx) -> R {
    let it = items::<T>(r, n, dense);
    it.tally(ctx);
    if it.b.iter().flatten().count() > 1 {
        ctx.nontrivial(it.hash(5));
    }
    ctx.sample(|| it.show());
    let lattice = it.shape == "lattice";
    // now and then everything very small or very large
    let scale = if r.chance(1, 4) {
        let far = T::max_fin().f64().log2() as i64;
        ctx.cat("scaled");
        match r.below(3) {
            // squares of distances vanish or overflow around here
            0 => T::of_f64(pow2((-(far / 2) + r.range(-40, 10)) as i32)),
            1 => T::of_f64(pow2((far / 2 + r.range(-20, 20)) as i32)),
            _ => T::of_f64(pow2(r.range(-far + 4, far - 40) as i32)),
        }
    } else {
        T::one()
    };
    let base = it.clone();
    let mut it = it;
    for b in it.b.iter_mut().flatten() {
        for c in b.iter_mut() {
            *c = *c * scale;
        }
    }
    let res = (|| {
        let t = it.build()?;
        for _ in 0..(6 + r.us(24)) {
            let q = query(r, &base);
            let q = match q {
                Some(q) if q.iter().all(|c| c.is_finite()) => q,
                _ => continue,
            };
            let (x, y) = match r.below(3) {
                0 => (q[0], q[1]),
                1 => (q[0] - T::of_f64(r.range(0, 5) as f64), q[3] + T::of_f64(r.range(0, 5) as f64)),
                _ => (q[2], q[3]),
            };
            let near = r.chance(1, 4);
            let (x0, y0) = (x, y);
            let d = match r.below(8) {
                0 => T::zero(),
                _ if near && n > 0 => match base.b[r.us(n)] {
                    // a little more than to some item
                    Some(b) => {
                        let h = axis(b[0], b[2], x0).1.hypot(axis(b[1], b[3], y0).1);
                        T::of_f64(h * (1.0 + pow2(-(r.below(18) as i32))))
                    }
                    None => T::one(),
                },
                1 | 2 => T::of_f64(r.range(0, 13) as f64),
                3 => T::of_f64(r.unit() * 20.0),
                4 | 5 if n > 0 => match it.b[r.us(n)] {
                    // exactly as far as some side
                    Some(b) => *r.pick(&[(b[0] - x).abs(), (b[2] - x).abs(), (b[1] - y).abs(), (b[3] - y).abs()]),
                    None => T::one(),
                },
                6 => {
                    if r.chance(1, 4) {
                        T::infinity()
                    } else {
                        T::of_f64(1e6 * r.unit())
                    }
                }
                _ => T::of_f64(r.unit()),
            };
            let (x, y, d) = (x * scale, y * scale, d * scale);
            if !(x.is_finite() && y.is_finite()) || d.is_nan() {
                continue;
            }
            let got = sut("find_candidates_within", || t.find_candidates_within(Position::new(x, y), d))?;
            ctx.eval();
            ctx.cat("query");
            if d == T::zero() {
                ctx.cat("zero distance");
            }
            if d == T::infinity() {
                ctx.cat("infinite distance");
            }
            let mut hit = vec![false; n];
            for g in &got {
                if *g >= n {
                    return viol(format!("within {:?} of {:?}: item {} does not exist", d, (x, y), g));
                }
                if hit[*g] {
                    return viol(format!("within {:?} of {:?}: item {} reported twice", d, (x, y), g));
                }
                hit[*g] = true;
            }
            // the square, one unit in the last place wider
            let wide = Some([(x - d).next_down(), (y - d).next_down(), (x + d).next_up(), (y + d).next_up()]);
            for k in 0..n {
                let must = match &it.b[k] {
                    None => false,
                    Some(b) if b.iter().any(|c| c.is_nan()) => false,
                    Some(b) => {
                        // distance from the point to the box, per axis
                        let ax = axis(b[0], b[2], x);
                        let ay = axis(b[1], b[3], y);
                        if d == T::infinity() {
                            true
                        } else if lattice && ax.0 && ay.0 && exact_sq(ax.1, ay.1, d.f64()) {
                            // exact arithmetic
                            let (a, c, e) = (ax.1, ay.1, d.f64());
                            if a * a + c * c == e * e && e > 0.0 {
                                ctx.cat("exactly at the distance");
                            }
                            a * a + c * c <= e * e
                        } else {
                            let (a, c, e) = (ax.1, ay.1, d.f64());
                            let h = a.hypot(c);
                            h.is_finite() && (h < e * (1.0 - 1e-6) || (h == 0.0 && inside(b, x, y)))
                        }
                    }
                };
                if must {
                    ctx.cat("must hit");
                    if !hit[k] {
                        return viol(format!("within {:?} of {:?}: item {} {:?} not reported", d, (x, y), k, it.b[k]));
                    }
                } else if hit[k] && !meet(&it.b[k], &wide) {
                    return viol(format!("within {:?} of {:?}: item {} {:?} reported", d, (x, y), k, it.b[k]));
                }
            }
        }
        Ok(())
    })();
    with_input(res, || it.show())
}
fn inside<T: Num>(b: &[T; 4], x: T, y: T) -> bool {
    b[0] <= x && x <= b[2] && b[1] <= y && y <= b[3]
}
/// (difference exact?, distance from x to [lo,hi])
fn axis<T: Num>(lo: T, hi: T, x: T) -> (bool, f64) {
    let (a, b) = if x < lo {
        (lo.f64(), x.f64())
    } else if x > hi {
        (x.f64(), hi.f64())
    } else {
        return (true, 0.0);
    };
    let d = a - b;
    let exact = a.is_finite() && b.is_finite() && b + d == a && a - d == b && d.abs() < 1e15;
    (exact, d)
}
/// Are the three squares and their sum exact in f64?
fn exact_sq(a: f64, b: f64, c: f64) -> bool {
    let f = |x: f64| {
        let y = x.abs() * 1048576.0;
        x == 0.0 || (y.fract() == 0.0 && y < 67_000_000.0)
    };
    f(a) && f(b) && f(c)
}

fn c05(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (n, d) = case_n(i, r, ctx, 500);
    dispatch!(r.chance(2, 5), c05_t(n, d, r, ctx))
}
fn c05_t<T: Num>(n: usize, dense: bool, r: &mut Rng, ctx: &mut Ctx) -> R {
    let mut it = items::<T>(r, n, dense);
    if r.chance(1, 60) && it.kind != "Position" && it.kind != "Segment" {
        for b in it.b.iter_mut() {
            *b = None;
        }
    }
    if r.chance(1, 60) {
        it.b.clear();
    }
    let n = it.b.len();
    it.tally(ctx);
    if n == 0 {
        ctx.cat("no items");
    } else if n == 1 {
        ctx.cat("one item");
    } else if it.b.iter().all(|b| b.is_none()) {
        ctx.cat("all items empty");
    }
    ctx.sample(|| it.show());
    let res = (|| {
        let t = it.build()?;
        let want = cover(it.b.iter().copied());
        let root = sut("root_node", || t.root_node())?;
        if !is_env(&root.envelope, &want) {
            return viol(format!("root box {:?}, items cover {:?}", root.envelope, want));
        }
        let e = sut("Flatbush::envelope", || t.envelope())?;
        if !is_env(&e, &want) {
            return viol(format!("index envelope {:?}, items cover {:?}", e, want));
        }
        let mut seen = vec![0u32; n];
        let mut st: Vec<FlatbushNode<T>> = vec![root];
        let mut internal = 0;
        while let Some(nd) = st.pop() {
            if nd.envelope == Envelope::Empty {
                continue; // nothing but empty items or padding below
            }
            ctx.eval();
            if nd.level == 0 {
                ctx.cat("leaf");
                let k = nd.sibling_index;
                if k >= n {
                    return viol(format!("leaf {:?} names item {} of {}", nd, k, n));
                }
                seen[k] += 1;
                if !is_env(&nd.envelope, &it.b[k]) {
                    return viol(format!("leaf of item {} has box {:?}, the item {:?}", k, nd.envelope, it.b[k]));
                }
                continue;
            }
            ctx.cat("node");
            internal += 1;
            let ch = sut("get_children", || t.get_children(nd))?;
            if let Some(c) = ch.iter().find(|c| c.level + 1 != nd.level) {
                return viol(format!("child level {} under level {}", c.level, nd.level));
            }
            let cov = cover(ch.iter().map(|c| match c.envelope {
                Envelope::Empty => None,
                Envelope::Bounds { min, max } => Some([min.x, min.y, max.x, max.y]),
            }));
            if !is_env(&nd.envelope, &cov) {
                return viol(format!("node {:?} is not the smallest box of its children {:?}", nd, cov));
            }
            st.extend(ch);
        }
        if internal > 0 {
            ctx.nontrivial(it.hash(6));
        }
        for k in 0..n {
            let w = it.b[k].is_some() as u32;
            if seen[k] != w {
                return viol(format!("item {} {:?} reached {} times", k, it.b[k], seen[k]));
            }
        }
        Ok(())
    })();
    with_input(res, || it.show())
}
