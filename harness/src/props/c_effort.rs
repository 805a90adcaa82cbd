//! C27 effort: the coordinate type itself counts the operations done on it; the
//! counts are compared with generous multiples of what pruning should leave.
//! C28 memory: the allocator counts what is in use.
use super::shapes::*;
use super::*;
use crate::alloc::{live, measure};
use crate::counted::{ops, Counted};
use crate::gen::*;
use magog::flatbush::Flatbush;
use magog::planar::primitives::{Envelope, HasEnvelope};
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            quick: 1_500,
            thorough: 100_000,
            floors: &[("index", 30), ("query: box", 200), ("query: strip", 200), ("self-join", 20), ("join", 20), ("line string", 50), ("multi-line string", 20), ("holes", 20), ("members", 20), ("hull", 3), ("round hull", 50), ("points", 50), ("query: within", 300)],
            rule: "A case is an index of 20000 to 250000 small items spread evenly over a rectangle (any aspect ratio from 1/256 to 256, scale, offset, degree 4 to 256) with 40 queries, a self-join or a join, or a valid geometry with thousands of short segments to validate or wrap in a hull, or tens of thousands of points to validate, simplify or take a boundary of. Non-trivial: all. Oracle: the number of operations on coordinates (counted by the coordinate type) against about three times the largest ratio seen to what output-sensitive search needs, far below comparing all items or pairs.",
            case: c27,
        },
        Prop {
            id: "C28",
            quick: 5_000,
            thorough: 200_000,
            floors: &[("batch", 3_000), ("moved 400 times", 300), ("polygons", 50), ("text", 20), ("index", 300), ("query", 3_000), ("self-join", 30)],
            rule: "A case is eight batches of 100 different cases of one other property, run on one thread with everything dropped after each, one scenario looked at in 400 places (which must not grow three times after the first 20), or an index whose construction, queries and self-join are measured. Non-trivial: all. Oracle: the bytes allocated and not freed by the thread (counted by the allocator) may not grow in every batch; retained and temporary bytes against a bound linear in the items, or in the answer.",
            case: c28,
        },
    ]
}

type C = Counted;
fn env<T: Num>(b: [f64; 4]) -> Envelope<T> {
    Envelope::new(Position::new(T::of_f64(b[0]), T::of_f64(b[1])), Position::new(T::of_f64(b[2]), T::of_f64(b[3])))
}
fn cost<X>(what: &str, f: impl FnOnce() -> X) -> R<(X, f64)> {
    let a = ops();
    let x = sut(what, f)?;
    Ok((x, (ops() - a) as f64))
}
/// Effort c on something of size n must stay below limit * unit.
fn within(ctx: &mut Ctx, name: &'static str, c: f64, unit: f64, limit: f64, what: impl FnOnce() -> String) -> R {
    ctx.eval();
    ctx.max(name, c / unit / limit);
    if c > unit * limit {
        return viol(format!("{}: {} operations on coordinates, at most {:.0} expected ({})", name, c, unit * limit, what()));
    }
    Ok(())
}

/// Small boxes spread evenly over a rectangle.
struct Spread {
    w: f64,
    h: f64,
    off: (f64, f64),
    cell: f64,
    b: Vec<[f64; 4]>,
    layout: &'static str,
}
fn spread(r: &mut Rng, n: usize) -> Spread {
    let asp = 2f64.powi(r.range(-4, 4) as i32);
    let scale = 2f64.powi(r.range(-30, 30) as i32);
    let (w, h) = (1000.0 * asp * scale, 1000.0 / asp * scale);
    let off = if r.bool() { (0.0, 0.0) } else { (w * r.range(-50, 50) as f64, h * r.range(-50, 50) as f64) };
    let cell = (w * h / n as f64).sqrt();
    let size = *r.pick(&[0.0, 0.3, 1.0]);
    let layout = *r.pick(&["uniform", "grid", "rows"]);
    let cols = ((n as f64 * w / h).sqrt().ceil()).max(1.0);
    let mut b: Vec<[f64; 4]> = (0..n)
        .map(|i| {
            let (x, y) = match layout {
                "uniform" => (r.unit() * w, r.unit() * h),
                "grid" => ((i as f64 % cols) * cell, (i as f64 / cols).floor() * cell),
                _ => ((i as f64 % cols + r.unit()) * cell, ((i as f64 / cols).floor() + 0.2 * r.unit()) * cell),
            };
            [off.0 + x, off.1 + y, off.0 + x + r.unit() * size * cell, off.1 + y + r.unit() * size * cell]
        })
        .collect();
    if r.bool() {
        r.shuffle(&mut b);
    }
    Spread { w, h, off, cell, b, layout }
}
fn levels(n: usize, d: usize) -> f64 {
    let (mut k, mut s) = (0, n);
    while s > 1 {
        s = (s + d - 1) / d;
        k += 1;
    }
    k as f64
}

fn c27(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let n = 20_000 + r.us(40_000);
    let cv = Conv::rand::<C>(r);
    let mut h = H::new(27);
    h.u(i);
    ctx.nontrivial(h.0);
    match r.below(10) {
        0 | 1 => {
            let n = if r.chance(1, 4) { 100_000 + r.us(150_000) } else { n };
            let s = spread(r, n);
            let d = *r.pick(&[4usize, 8, 8, 16, 32, 64, 128, 256]);
            let items: Vec<Envelope<C>> = s.b.iter().map(|b| env(*b)).collect();
            let about = || format!("{} {} items on {} x {}, degree {}", n, s.layout, s.w, s.h, d);
            ctx.cat("index");
            ctx.sample(about);
            let (t, c) = cost("Flatbush::new", || Flatbush::new(&items, d))?;
            within(ctx, "building an index", c, n as f64, 120.0, about)?;
            let small = d as f64 * levels(n, d);
            let strip = d as f64 * ((n as f64 / d as f64).sqrt() + levels(n, d));
            for _ in 0..40 {
                let (x, y) = (s.off.0 + r.unit() * s.w, s.off.1 + r.unit() * s.h);
                let u = s.cell;
                let (l, q, f, lim) = match r.below(5) {
                    0 => ("query: box", [x, y, x + u, y + u], small, 40.0),
                    1 => ("query: point", [x, y, x, y], small, 40.0),
                    2 => ("query: strip", [s.off.0, y, s.off.0 + s.w, y + u], strip * (s.w / s.h).sqrt().max(1.0), 20.0),
                    3 => ("query: strip", [x, s.off.1, x + u, s.off.1 + s.h], strip * (s.h / s.w).sqrt().max(1.0), 20.0),
                    _ => ("query: large", [x, y, x + s.w / 4.0, y + s.h / 4.0], strip, 12.0),
                };
                ctx.cat(l);
                let (got, c) = if r.chance(1, 3) && matches!(l, "query: box" | "query: point") {
                    ctx.cat("query: within");
                    let (at, d) = if l == "query: point" {
                        // none away from an item
                        let b = r.pick(&s.b);
                        ((b[0], b[1]), 0.0)
                    } else {
                        ((x, y), u / 2.0)
                    };
                    cost("find_candidates_within", || t.find_candidates_within(Position::new(Counted(at.0), Counted(at.1)), Counted(d)))?
                } else {
                    cost("find_intersection_candidates", || t.find_intersection_candidates(env::<C>(q)))?
                };
                within(ctx, l, c, f + 2.0 * got.len() as f64, lim, || format!("{:?} of {}; {} hits", q, about(), got.len()))?;
            }
        }
        2 => {
            let s = spread(r, n);
            let d = *r.pick(&[4usize, 8, 8, 16, 32, 64, 128, 256]);
            let items: Vec<Envelope<C>> = s.b.iter().map(|b| env(*b)).collect();
            let about = || format!("{} {} items on {} x {}, degree {}", n, s.layout, s.w, s.h, d);
            ctx.sample(about);
            let t = sut("Flatbush::new", || Flatbush::new(&items, d))?;
            let (_, c) = cost("find_self_intersection_candidates", || t.find_self_intersection_candidates())?;
            ctx.cat("self-join");
            within(ctx, "self-join", c, (n * d) as f64, 100.0, about)?;
            // joined with points spread over the same rectangle
            let s2 = spread(r, n);
            let at = |b: &[f64; 4]| {
                let (x, y) = ((b[0] - s2.off.0) / s2.w * s.w + s.off.0, (b[1] - s2.off.1) / s2.h * s.h + s.off.1);
                env([x, y, x, y])
            };
            let items2: Vec<Envelope<C>> = s2.b.iter().map(at).collect();
            let d2 = *r.pick(&[4usize, 8, 8, 16, 32, 64, 128, 256]);
            let t2 = sut("Flatbush::new", || Flatbush::new(&items2, d2))?;
            let (_, c) = cost("find_other_rtree_intersection_candidates", || t.find_other_rtree_intersection_candidates(&t2))?;
            ctx.cat("join");
            within(ctx, "join", c, (n * (d + d2)) as f64, 30.0, || format!("{} with degree {}", about(), d2))?;
        }
        3 | 4 => {
            let (l, v) = match r.below(5) {
                0 | 1 => ("terrain", long_chain(r, n).0),
                2 => ("space-filling curve", hilbert_path(7)),
                3 => ("rows", boustrophedon(n / 2, 1000, 2)),
                _ => ("profile", monotone(r, n, 3, 1000)),
            };
            let about = || format!("{} of {} vertices", l, v.len());
            ctx.sample(about);
            let ls: LineString<C> = cv.ls(&v);
            let (ok, c) = cost("LineString::validate", || ls.validate())?;
            ctx.cat("line string");
            within(ctx, "validating a line string", c, v.len() as f64, 250.0, about)?;
            if is_closed(&v) && ok.is_ok() {
                let m: Polygon<C> = cv.poly(&[v.clone()]);
                let (_, c) = cost("Polygon::convex_hull", || m.convex_hull())?;
                ctx.cat("hull");
                within(ctx, "hull", c, v.len() as f64, 200.0, about)?;
                let (_, c) = cost("Polygon::validate", || m.validate())?;
                within(ctx, "validating a polygon", c, v.len() as f64, 300.0, about)?;
            }
        }
        8 => {
            // most vertices on the hull: an arc of a parabola, closed by its chord or by a zigzag
            let k = 2000 + r.range(0, 2000);
            let mut v: Vec<P> = (-k..=k).map(|x| p(x, x * x)).collect();
            if r.bool() {
                for x in (1 - k..k).rev() {
                    v.push(p(x, k * k - if x % 2 == 0 { 1 } else { 2 }));
                }
            }
            if r.bool() {
                v.reverse();
            }
            v.push(v[0]);
            let v = rand_rot(r, &v);
            let about = || format!("ring of {} vertices, {} on the hull", v.len(), 2 * k + 1);
            ctx.sample(about);
            ctx.cat("round hull");
            let m: Polygon<C> = cv.poly(&[v.clone()]);
            let (_, c) = cost("Polygon::convex_hull", || m.convex_hull())?;
            within(ctx, "round hull", c, v.len() as f64, 200.0, about)?;
            let (_, c) = cost("Polygon::validate", || m.validate())?;
            within(ctx, "validating a polygon", c, v.len() as f64, 300.0, about)?;
        }
        9 => {
            ctx.cat("points");
            let w = 1 << 12;
            let mut v: Vec<P> = (0..n).map(|_| pt(r, w)).collect();
            let twice = r.chance(1, 3);
            if !twice {
                v.sort();
                v.dedup();
            }
            r.shuffle(&mut v);
            let about = || format!("{} points, duplicates: {}", v.len(), twice);
            ctx.sample(about);
            let m: MultiPoint<C> = MultiPoint::from(cv.poss::<C>(&v));
            let (_, c) = cost("MultiPoint::validate", || m.validate())?;
            within(ctx, "validating a multi-point", c, v.len() as f64, 60.0, about)?;
            let m: MultiPoint<C> = MultiPoint::from(cv.poss::<C>(&v));
            let (_, c) = cost("MultiPoint::make_simple", || m.make_simple())?;
            let log = (v.len() as f64).log2();
            within(ctx, "simplifying a multi-point", c, v.len() as f64 * log, 60.0, about)?;
            let ms: Vec<Vec<P>> = v.chunks(2).filter(|c| c.len() == 2).map(|c| c.to_vec()).collect();
            let m: MultiLineString<C> = cv.mls(&ms);
            let (_, c) = cost("MultiLineString::boundary", || m.boundary())?;
            within(ctx, "boundary of a multi-line string", c, v.len() as f64 * log, 60.0, about)?;
        }
        5 => {
            ctx.cat("multi-line string");
            let street = r.bool();
            let v: Vec<Vec<P>> = if street {
                let k = 60 + r.range(0, 40);
                street_grid(k, k)
            } else {
                let k = 300 + r.range(0, 200);
                (0..k).map(|i| monotone(r, 60, 2, 10).into_iter().map(|q| p(q.x, q.y + 40 * i)).collect()).collect()
            };
            let n: usize = v.iter().map(|x| x.len()).sum();
            let about = || format!("{} members, {} vertices", v.len(), n);
            ctx.sample(about);
            let m: MultiLineString<C> = cv.mls(&v);
            let (_, c) = cost("MultiLineString::validate", || m.validate())?;
            within(ctx, "validating a multi-line string", c, n as f64, if street { 600.0 } else { 200.0 }, about)?;
        }
        6 => {
            ctx.cat("holes");
            let g = 60 + r.range(0, 60);
            let w = 4 * g;
            let mut q = vec![rect_ring(0, 0, w, w)];
            for x in 0..g {
                for y in 0..g {
                    let c = p(4 * x + 2, 4 * y + 2);
                    q.push(rect_ring(c.x - 1, c.y - 1, c.x + 1, c.y + 1));
                }
            }
            let about = || format!("{} square holes in a square", q.len() - 1);
            ctx.sample(about);
            let m: Polygon<C> = cv.poly(&q);
            let (_, c) = cost("Polygon::validate", || m.validate())?;
            within(ctx, "validating a polygon with holes", c, 5.0 * q.len() as f64, 600.0, about)?;
        }
        _ => {
            ctx.cat("members");
            let style = r.below(3);
            let g = if style == 1 { 60 } else { 120 } + r.range(0, 40);
            let mut ps = vec![];
            for x in 0..g {
                for y in 0..g {
                    if (x + y) % 2 == 0 {
                        ps.push(vec![match style {
                            0 => rect_ring(2 * x, 2 * y, 2 * x + 2, 2 * y + 2),
                            1 => densify(r, &rect_ring(40 * x, 40 * y, 40 * x + 36, 40 * y + 36), 1, 1),
                            _ => rect_ring(4 * x, 4 * y, 4 * x + 3, 4 * y + 3),
                        }]);
                    }
                }
            }
            let n = ps.iter().flatten().map(|x| x.len()).sum::<usize>();
            let about = || format!("{} members, {} vertices, touching: {}", ps.len(), n, style == 0);
            ctx.sample(about);
            let m: MultiPolygon<C> = cv.mpoly(&ps);
            let (_, c) = cost("MultiPolygon::validate", || m.validate())?;
            within(ctx, if style == 0 { "validating a multi-polygon that touches itself" } else { "validating a multi-polygon" }, c, n as f64, if style == 0 { 900.0 } else { 300.0 }, about)?;
        }
    }
    Ok(())
}

fn table() -> &'static Vec<Prop> {
    static T: OnceLock<Vec<Prop>> = OnceLock::new();
    // C23 frees on other threads than it allocates on
    T.get_or_init(|| super::table().into_iter().filter(|p| !["C23", "C26", "C27", "C28"].contains(&p.id)).collect())
}

fn c28(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let mut h = H::new(28);
    h.u(i);
    ctx.nontrivial(h.0);
    if i % 12 == 5 {
        return dispatch!(r.chance(1, 4), moved(r, ctx));
    }
    let t = table();
    if i % 3 != 0 {
        let p = &t[r.us(t.len())];
        let mut batches = vec![];
        for _ in 0..8 {
            let before = live();
            for _ in 0..100 {
                // not the few large cases that come first
                let j = 200 + r.below(p.quick.max(400) - 200);
                let seed = r.u64();
                let run = || {
                    let at = live();
                    let mut sub = Ctx::default();
                    // a verdict of another property counts there
                    let _ = (p.case)(j, &mut Rng::new(seed, 3, j), &mut sub);
                    drop(sub);
                    live() - at
                };
                let more = run();
                if more > 0 {
                    // something set up for good does not grow with the same case again
                    ctx.cat("case repeated");
                    let again: Vec<i64> = (0..6).map(|_| run()).collect();
                    if again.iter().all(|b| *b > 0) {
                        return viol(format!("memory in use grows every time a case is repeated, all of whose values were dropped ({} case {} seed {}): {:?} bytes", p.id, j, seed, again));
                    }
                }
            }
            batches.push(live() - before);
            ctx.cat("batch");
            ctx.cat(p.id);
        }
        ctx.eval();
        ctx.sample(|| format!("{}: growth per batch {:?}", p.id, batches));
        // the first may set up something for good
        if batches[1..].iter().all(|b| *b > 0) {
            return viol(format!("memory in use grows with every batch of {} cases, all of whose values were dropped: {:?} bytes", p.id, batches));
        }
        return Ok(());
    }
    dispatch!(r.bool(), footprint(r, ctx))
}

/// With all the lattice points on the edges.
fn all_lattice(ring: &[P]) -> Vec<P> {
    let mut v = vec![];
    for w in ring.windows(2) {
        v.push(w[0]);
        (1..=inner_lattice(w[0], w[1])).for_each(|k| v.push(lattice_at(w[0], w[1], k)));
    }
    v.extend(ring.last());
    v
}

/// One scenario asked again and again, each time somewhere else: what is set up once, and
/// scratch memory kept for next time, stops growing; what is remembered per value does not.
fn moved<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let n = *r.pick(&[4usize, 20, 70, 150, 300]);
    let b = 200;
    let (what, mut q): (&'static str, Vec<Poly>) = match r.below(9) {
        0 => ("chain", vec![vec![long_chain(r, n.max(6)).0]]),
        1 => ("lines", vec![any_mls(r, b)]),
        2 => ("polygon", vec![any_poly(r, b)]),
        3 => {
            let k = n as i64 / 4 + 4;
            let e = all_lattice(&rect_ring(0, 0, 2 * k, 40));
            ("polygon", vec![vec![e, all_lattice(&rect_ring(2, 2, 2 + k, 20))]])
        }
        4 => ("polygons", any_mpoly(r, b)),
        5 => {
            let k = n as i64 / 4 + 4;
            let e = all_lattice(&rect_ring(0, 0, 2 * k, 40));
            let f = all_lattice(&rect_ring(r.range(0, 2) * k, r.range(0, 1) * 40, 3 * k, 60));
            ("polygons", vec![vec![e], vec![f]])
        }
        6 => ("points", vec![vec![(0..n).map(|_| pt(r, b)).collect()]]),
        7 => ("text", vec![any_poly(r, b)]),
        _ => ("index", vec![vec![(0..n).map(|_| pt(r, b)).collect()]]),
    };
    if r.chance(1, 3) {
        // some mistake
        let p0 = &mut q;
        let k = p0.len();
        if k > 0 {
            let k = r.us(k);
            mutate_poly(r, &mut p0[k], b);
        }
    }
    let d = *r.pick(&[2usize, 8, 16]);
    let s = r.range(-3, 3) as i32;
    let step = p(r.range(1, 7), r.range(-7, 7));
    let one = |k: i64| -> R {
        // somewhere else, everything else alike
        let at = |v: &P| p(v.x + k * step.x, v.y + k * step.y);
        let w: Vec<Poly> = q.iter().map(|y| y.iter().map(|l| l.iter().map(at).collect()).collect()).collect();
        let cv = Conv { s, nz: Default::default() };
        match what {
            "chain" => {
                let l: LineString<T> = cv.ls(&w[0][0]);
                sut("line string", || {
                    let _ = (l.validate(), l.is_ring(), l.length(), l.boundary(), l.build_rtree(), l.envelope());
                })?;
            }
            "lines" => {
                let l: MultiLineString<T> = cv.mls(&w[0]);
                sut("multi-line string", || {
                    let _ = (l.validate(), l.boundary(), l.length(), l.envelope(), l.is_closed());
                })?;
            }
            "polygon" => {
                let m: Polygon<T> = cv.poly(&w[0]);
                let long = w[0].first().map_or(false, |e| e.len() > 3 && e[0] == e[e.len() - 1] && ls_check(e) == LsV::Valid);
                sut("polygon", || {
                    let _ = (m.validate(), m.boundary(), m.point_on_surface(), m.envelope());
                    if long {
                        let _ = m.convex_hull();
                    }
                })?;
            }
            "polygons" => {
                let m: MultiPolygon<T> = cv.mpoly(&w);
                sut("multi-polygon", || {
                    let _ = (m.validate(), m.boundary(), m.point_on_surface(), m.envelope());
                })?;
            }
            "points" => {
                let m: MultiPoint<T> = MultiPoint::from(cv.poss::<T>(&w[0][0]));
                let m2: MultiPoint<T> = MultiPoint::from(cv.poss::<T>(&w[0][0]));
                sut("multi-point", || {
                    let _ = (m.validate(), m.contains_point(&magog::planar::types::Point::from((T::zero(), T::one()))), m.envelope());
                    let _ = m2.make_simple();
                })?;
            }
            "text" => {
                let mut t = String::from("POLYGON("); // the writer of C21 is not needed here
                for (i, l) in w[0].iter().enumerate() {
                    t += if i > 0 { ",(" } else { "(" };
                    for (j, v) in l.iter().enumerate() {
                        // as many characters wherever it is
                        t += &format!("{}{:07} {:07}", if j > 0 { "," } else { "" }, v.x + 1_000_000, v.y + 1_000_000);
                    }
                    t += ")";
                }
                t += ")";
                sut("parse_wkt", || {
                    let _ = magog::serde::wkt::parse_wkt(&t);
                    let _ = magog::serde::wkt::parse_wkt(&t[..t.len() - 1]);
                    let _ = magog::serde::wkt::parse_wkt(&t[3..]);
                })?;
            }
            _ => {
                let items: Vec<Position<T>> = cv.poss(&w[0][0]);
                let near = |v: &P| {
                    let q: Position<T> = cv.pos(at(v));
                    Envelope::new(q, cv.pos::<T>(p(at(v).x + 30, at(v).y + 30)))
                };
                sut("Flatbush", || {
                    let t = Flatbush::new(&items, d);
                    let u = Flatbush::new_unsorted(&items, d);
                    for v in q[0][0].iter().take(10) {
                        let _ = t.find_intersection_candidates(near(v));
                        let _ = u.find_candidates_within(cv.pos(at(v)), cv.c::<T>(9));
                    }
                    let far = p(5000, 5000);
                    let _ = t.find_intersection_candidates(near(&far));
                    let _ = (t.find_self_intersection_candidates(), t.find_other_rtree_intersection_candidates(&u));
                })?;
            }
        }
        Ok(())
    };
    let mut grown: Vec<(i64, i64)> = Vec::with_capacity(400);
    let mut last = 0;
    for k in 0..400 {
        if k == 20 {
            last = live();
        }
        one(k)?;
        if k >= 20 {
            let now = live();
            if now > last {
                grown.push((k, now - last));
                last = now;
            }
        }
    }
    ctx.eval();
    ctx.cat("moved 400 times");
    ctx.cat(what);
    ctx.sample(|| format!("{} {} of {} parts moved 400 times: grown {:?}", T::NAME, what, q.len(), grown));
    if grown.len() >= 3 {
        return viol(format!("memory in use grew {} times while the same {} was looked at in 400 places, everything being dropped: (step, bytes) {:?}", grown.len(), what, &grown[..grown.len().min(12)]));
    }
    Ok(())
}

fn footprint<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let n = if r.chance(1, 4) { r.us(40) } else { 1_000 + r.us(20_000) };
    let s = spread(r, n.max(1));
    let d = *r.pick(&[2usize, 4, 8, 16, 32, 64]);
    let items: Vec<Envelope<T>> = s.b.iter().take(n).map(|b| env(*b)).collect();
    let unit = (16 + 4 * std::mem::size_of::<T>() + 16) as f64;
    let about = || format!("{} {} {} items on {} x {}, degree {}", T::NAME, n, s.layout, s.w, s.h, d);
    let le = |ctx: &mut Ctx, what: &'static str, got: i64, max: f64, of: &dyn Fn() -> String| -> R {
        ctx.eval();
        if max > 0.0 {
            ctx.max(what, got as f64 / max);
        }
        if got as f64 > max {
            return viol(format!("{}: {} bytes, at most {:.0} expected ({})", what, got, max, of()));
        }
        Ok(())
    };
    ctx.cat("index");
    ctx.sample(about);
    let sorted = r.bool();
    // Each is done once before it is measured: a buffer kept for next time is not a leak.
    sut("Flatbush::new", || drop(if sorted { Flatbush::new(&items, d) } else { Flatbush::new_unsorted(&items, d) }))?;
    let (t, kept, peak) = measure(|| sut("Flatbush::new", || if sorted { Flatbush::new(&items, d) } else { Flatbush::new_unsorted(&items, d) }));
    let (t, retained) = (t?, kept);
    let nodes = 2.0 * n as f64 + d as f64 * (levels(n, d) + 1.0);
    le(ctx, "bytes retained by an index", kept, 2.0 * unit * nodes + 1024.0, &about)?;
    le(ctx, "bytes used to build an index", peak, 10.0 * unit * nodes + 4096.0, &about)?;
    if sorted {
        for _ in 0..20 {
            let (x, y) = (s.off.0 + r.unit() * s.w, s.off.1 + r.unit() * s.h);
            let u = s.cell * *r.pick(&[0.0, 1.0, 5.0]);
            let q = [x, y, x + u, y + u];
            sut("find_intersection_candidates", || drop(t.find_intersection_candidates(env::<T>(q))))?;
            let (got, kept, peak) = measure(|| sut("find_intersection_candidates", || t.find_intersection_candidates(env::<T>(q))));
            let got = got?;
            ctx.cat("query");
            let k = got.len() as f64;
            le(ctx, "bytes retained by a query", kept, 32.0 * k + 256.0, &|| format!("{:?} of {}; {} hits", q, about(), k))?;
            le(ctx, "bytes used by a query", peak, 3.0 * unit * (4.0 * d as f64 * (levels(n, d) + 1.0) + 2.0 * k) + 4096.0, &|| format!("{:?} of {}; {} hits", q, about(), k))?;
        }
        if r.chance(1, 2) {
            sut("find_self_intersection_candidates", || drop(t.find_self_intersection_candidates()))?;
            let (got, kept, peak) = measure(|| sut("find_self_intersection_candidates", || t.find_self_intersection_candidates()));
            let k = got?.len() as f64;
            ctx.cat("self-join");
            le(ctx, "bytes retained by a self-join", kept, 64.0 * k + 256.0, &about)?;
            le(ctx, "bytes used by a self-join", peak, 20.0 * unit * (nodes + d as f64 * d as f64) + 200.0 * k + 4096.0, &about)?;
        }
    }
    let (_, freed, _) = measure(|| drop(t));
    le(ctx, "bytes retained after an index is dropped", retained + freed, 0.0, &about)
}
