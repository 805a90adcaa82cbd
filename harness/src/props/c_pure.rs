//! C23 queries are pure: repeatable, order-independent, shareable.
use super::shapes::*;
use super::*;
use crate::gen::*;
use magog::flatbush::Flatbush;
use magog::planar::primitives::{Envelope, HasEnvelope};
use magog::serde::wkt::parse_wkt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        quick: 120_000,
        thorough: 5_000_000,
        floors: &[
            ("asked again", 500_000),
            ("asked of an equal value", 500_000),
            ("asked from threads", 100_000),
            ("shared by threads", 2_000),
            ("other values asked in between", 50_000),
            ("index queries", 100_000),
            ("validations", 100_000),
            ("convex hulls", 10_000),
            ("200+ positions", 300),
        ],
        rule: "A case is a geometry of any kind with an index over its segments and a list of queries. They are asked in order, again in another order with queries of unrelated values in between, of a separately built equal value, and (every tenth case) from four to eight threads at once on a fresh shared value, each in its own order with random yields. Non-trivial with at least three positions. Oracle: the first answers; the parts of the geometry before and after; compile-time Send and Sync of every type. distinct_schedules counts distinct completion orders.",
        case: c23,
    }]
}

/// Shares what it is given, whether or not the type says it may be: whether it
/// may is asserted separately.
struct Shared<'a, X>(&'a X);
unsafe impl<X> Sync for Shared<'_, X> {}
unsafe impl<X> Send for Shared<'_, X> {}

macro_rules! shareable {
    ($t:ty) => {{
        struct Probe<X>(std::marker::PhantomData<X>);
        #[allow(dead_code)]
        trait No {
            fn both(&self) -> bool {
                false
            }
        }
        #[allow(dead_code)]
        trait Yes {
            fn both(&self) -> bool {
                true
            }
        }
        impl<X: Send + Sync> Yes for Probe<X> {}
        impl<X> No for &Probe<X> {}
        (stringify!($t), (&Probe::<$t>(std::marker::PhantomData)).both())
    }};
}

fn all_shareable() -> R {
    let v = [
        shareable!(Flatbush<f64>),
        shareable!(Flatbush<f32>),
        shareable!(Geometry<f64>),
        shareable!(Geometry<f32>),
        shareable!(Empty<f64>),
        shareable!(Point<f64>),
        shareable!(MultiPoint<f64>),
        shareable!(LineString<f64>),
        shareable!(MultiLineString<f64>),
        shareable!(Polygon<f64>),
        shareable!(MultiPolygon<f64>),
        shareable!(Position<f64>),
        shareable!(Segment<f64>),
        shareable!(Envelope<f64>),
        shareable!(magog::linear::primitives::Envelope<f64>),
        shareable!(magog::linear::types::Point<f64>),
        shareable!(magog::linear::types::Line<f64>),
        shareable!(magog::linear::types::MultiPoint<f64>),
        shareable!(magog::linear::types::MultiLine<f64>),
    ];
    for (t, ok) in v {
        if !ok {
            return viol(format!("{} cannot be shared between threads: it is not Send and Sync", t));
        }
    }
    Ok(())
}

pub struct World<T: Num> {
    g: Geometry<T>,
    tree: Flatbush<T>,
    other: Flatbush<T>,
    segs: Vec<Segment<T>>,
    text: String,
}

#[derive(Clone, Debug)]
enum Q<T> {
    Validate,
    Simple,
    Facts,
    Boundary,
    Length,
    Hull,
    MakeSimple,
    Surface,
    Text,
    Box(T, T, T, T),
    Near(T, T, T),
    SelfJoin,
    Join,
    Walk,
    Meet(usize, usize),
    Side(usize, usize),
}

fn boxes<T: Num>(m: &Model<T>, which: usize) -> Vec<Segment<T>> {
    let mut v = vec![];
    for (k, l) in m.polys.iter().flatten().enumerate() {
        if which == 1 && k % 2 == 1 {
            continue;
        }
        for w in l.windows(2) {
            if w.iter().all(|c| c.0.is_finite() && c.1.is_finite()) {
                v.push(Segment::new(Position::new(w[0].0, w[0].1), Position::new(w[1].0, w[1].1)));
            }
        }
    }
    if which == 1 {
        v.reverse();
    }
    v
}

/// None if building it panics (other properties judge that).
pub fn build<T: Num>(m: &Model<T>, degree: usize, text: &str) -> Option<World<T>> {
    catch_unwind(AssertUnwindSafe(|| {
        let segs = boxes(m, 0);
        World {
            g: m.geom(),
            tree: Flatbush::new(&segs, degree),
            other: Flatbush::new_unsorted(&boxes(m, 1), 4),
            segs,
            text: text.to_string(),
        }
    }))
    .ok()
}

fn num<T: Num>(o: &mut Vec<u64>, x: T) {
    o.push(if x.is_nan() { u64::MAX } else { x.bits() });
}
fn text(o: &mut Vec<u64>, s: &str) {
    o.push(s.len() as u64);
    o.extend(s.bytes().map(|b| b as u64));
}

fn answer<T: Num>(w: &World<T>, q: &Q<T>) -> Vec<u64> {
    match catch_unwind(AssertUnwindSafe(|| ask(w, q))) {
        Ok(v) => v,
        Err(_) => {
            let mut o = vec![u64::MAX - 1];
            text(&mut o, &last_panic());
            o
        }
    }
}

fn ask<T: Num>(w: &World<T>, q: &Q<T>) -> Vec<u64> {
    let mut o = vec![];
    match q {
        Q::Validate => {
            let v = match &w.g {
                Geometry::Empty(x) => x.validate(),
                Geometry::Point(x) => x.validate(),
                Geometry::LineString(x) => x.validate(),
                Geometry::Polygon(x) => x.validate(),
                Geometry::MultiPoint(x) => x.validate(),
                Geometry::MultiLineString(x) => x.validate(),
                Geometry::MultiPolygon(x) => x.validate(),
            };
            text(&mut o, v.err().unwrap_or("valid"));
        }
        Q::Simple => o.push(w.g.is_simple() as u64),
        Q::Facts => {
            o.push(w.g.is_empty() as u64);
            o.push(w.g.dimension() as u64);
            text(&mut o, w.g.geometry_type());
            if let Envelope::Bounds { min, max } = w.g.envelope() {
                [min.x, min.y, max.x, max.y].iter().for_each(|c| num(&mut o, *c));
            }
        }
        Q::Boundary => o = dump(&w.g.boundary()),
        Q::Length => match &w.g {
            Geometry::LineString(l) => {
                num(&mut o, l.length());
                o.push(l.is_closed() as u64);
                o.push(l.is_ring() as u64);
            }
            Geometry::MultiLineString(l) => {
                num(&mut o, l.length());
                o.push(l.is_closed() as u64);
            }
            _ => (),
        },
        Q::Hull => {
            if let Geometry::Polygon(p) = &w.g {
                if p.exterior.is_ring() {
                    o = dump(&Geometry::LineString(p.convex_hull()));
                }
            }
        }
        Q::MakeSimple => {
            if let Geometry::MultiPoint(m) = &w.g {
                o = dump(&m.make_simple());
            }
        }
        Q::Surface => {
            let q = match &w.g {
                Geometry::Polygon(p) => p.point_on_surface(),
                Geometry::MultiPolygon(p) => p.point_on_surface(),
                _ => None,
            };
            if let Some(q) = q {
                num(&mut o, q.x());
                num(&mut o, q.y());
            }
        }
        Q::Text => match parse_wkt(&w.text) {
            Ok(v) => v.iter().for_each(|g| o.extend(dump(g))),
            Err(e) => text(&mut o, e),
        },
        Q::Box(a, b, c, d) => {
            let e = Envelope::new(Position::new(*a, *b), Position::new(*c, *d));
            o = w.tree.find_intersection_candidates(e).into_iter().map(|k| k as u64).collect();
        }
        Q::Near(a, b, d) => {
            o = w.tree.find_candidates_within(Position::new(*a, *b), *d).into_iter().map(|k| k as u64).collect();
        }
        Q::SelfJoin => o = w.tree.find_self_intersection_candidates().into_iter().flat_map(|k| [k.0 as u64, k.1 as u64]).collect(),
        Q::Join => {
            o = w.tree.find_other_rtree_intersection_candidates(&w.other).into_iter().flat_map(|k| [k.0 as u64, k.1 as u64]).collect();
            o.push(u64::MAX);
            o.extend(w.other.find_other_rtree_intersection_candidates(&w.tree).into_iter().flat_map(|k| [k.0 as u64, k.1 as u64]));
        }
        Q::Walk => {
            let mut todo = vec![w.tree.root_node()];
            while let Some(n) = todo.pop() {
                o.extend([n.level as u64, n.tree_index as u64, n.sibling_index as u64]);
                if let Envelope::Bounds { min, max } = n.envelope {
                    [min.x, min.y, max.x, max.y].iter().for_each(|c| num(&mut o, *c));
                    if n.level > 0 && o.len() < 4000 {
                        todo.extend(w.tree.get_children(n));
                    }
                }
            }
        }
        Q::Meet(j, k) => {
            if let (Some(a), Some(b)) = (w.segs.get(*j), w.segs.get(*k)) {
                text(&mut o, &format!("{:?}", a.intersect_segment(*b)));
            }
        }
        Q::Side(j, k) => {
            if let (Some(a), Some(b)) = (w.segs.get(*j), w.segs.get(*k)) {
                text(&mut o, &format!("{:?} {}", a.position_location(b.start), a.contains(b.end)));
            }
        }
    }
    o
}

fn queries<T: Num>(r: &mut Rng, m: &Model<T>, n: usize, big: bool) -> Vec<Q<T>> {
    let cs: Vec<(T, T)> = m.polys.iter().flatten().flatten().copied().filter(|c| c.0.is_finite() && c.1.is_finite()).take(400).collect();
    let c = |r: &mut Rng| if cs.is_empty() { (T::zero(), T::one()) } else { *r.pick(&cs) };
    (0..n)
        .map(|_| match r.below(if big { 16 } else { 18 }) {
            0 | 1 => Q::Validate,
            2 => Q::Simple,
            3 => Q::Facts,
            4 => Q::Boundary,
            5 => match m.kind {
                3 | 6 => Q::Surface,
                4 => Q::MakeSimple,
                _ => Q::Length,
            },
            6 => {
                if m.kind == 3 {
                    Q::Hull
                } else {
                    Q::Validate
                }
            }
            7 => Q::Text,
            8 | 9 => {
                let (a, b) = (c(r), c(r));
                Q::Box(a.0, a.1, b.0, b.1)
            }
            10 => {
                let (a, b) = (c(r), c(r));
                Q::Near(a.0, a.1, (a.0 - b.0).abs())
            }
            11 => Q::SelfJoin,
            12 => Q::Join,
            13 => Q::Walk,
            14 => Q::Meet(r.us(40), r.us(40)),
            15 => Q::Side(r.us(40), r.us(40)),
            _ => Q::MakeSimple,
        })
        .collect()
}

fn subject<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> Model<T> {
    let kind = *r.pick(&[2, 2, 3, 3, 3, 4, 5, 5, 6, 6]);
    if i % 250 == 0 {
        ctx.cat("200+ positions");
        let cv = Conv::plain(0);
        let parts: Vec<Vec<Vec<P>>> = match kind {
            2 => {
                let n = 200 + r.us(1000);
                vec![vec![long_chain(r, n).0]]
            }
            4 => vec![vec![(0..400).map(|_| pt(r, 12)).collect()]],
            5 => vec![street_grid(9, 8)],
            3 => vec![grid_polys(r, 14, 14, 3, 5, true).into_iter().max_by_key(|q| q.len() * 1000 + q[0].len()).unwrap_or(vec![vec![]])],
            _ => grid_polys(r, 12, 12, 2, 5, false),
        };
        if extent(parts.iter().flatten().flatten()) < 1 << T::REAL_BITS {
            return Model::of(kind, &parts, &cv);
        }
    }
    if r.chance(1, 6) {
        return Model::wild(r, kind);
    }
    Model::lattice(r, kind)
}

fn a_text(r: &mut Rng) -> String {
    let n = r.size(1, 6);
    let l: Vec<String> = (0..n).map(|_| format!("{} {}", r.range(-9, 9), r.unit())).collect();
    match r.below(4) {
        0 => format!("LINESTRING ({})", l.join(", ")),
        1 => format!("POLYGON (({}))", l.join(", ")),
        2 => format!("MULTIPOINT (({}))", l.join("), (")),
        _ => format!("LINESTRING (({})", l.join(", ")),
    }
}

fn c23(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if i == 0 {
        all_shareable()?;
    }
    dispatch!(r.chance(1, 3), pure(i, r, ctx))
}

fn tell(a: &[u64]) -> String {
    let mut s = format!("{:?}", &a[..a.len().min(60)]);
    let t: String = a.iter().skip(1).take(200).filter(|b| (32..127).contains(*b)).map(|b| *b as u8 as char).collect();
    if t.len() + 1 == a.len() && a[0] == t.len() as u64 {
        s = format!("{:?}", t);
    }
    s
}

fn pure<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let m: Model<T> = subject(i, r, ctx);
    let degree = 1usize << (1 + r.us(4));
    let txt = a_text(r);
    let (w, w2) = match (build(&m, degree, &txt), build(&m, degree, &txt)) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            ctx.cat("skipped: construction panics");
            return Ok(());
        }
    };
    ctx.eval();
    if m.len() > 2 {
        ctx.nontrivial(m.hash(23));
    }
    let big = m.len() > 150;
    let n = 6 + r.us(8);
    let qs = queries(r, &m, n, big);
    ctx.sample(|| format!("{} {:?} asked {:?}", T::NAME, m, qs));
    for q in &qs {
        match q {
            Q::Validate | Q::Simple => ctx.cat("validations"),
            Q::Hull => ctx.cat("convex hulls"),
            Q::Box(..) | Q::Near(..) | Q::SelfJoin | Q::Join | Q::Walk => ctx.cat("index queries"),
            _ => (),
        }
    }
    let res = (|| {
        // now and then nothing has been asked yet when the threads start
        let early = if i % 20 == 0 { build(&m, degree, &txt).map(|w4| threads(r, ctx, &m, &w4, &qs, degree, &txt)).transpose()? } else { None };
        let first: Vec<Vec<u64>> = qs.iter().map(|q| answer(&w, q)).collect();
        let mut order: Vec<usize> = (0..qs.len()).collect();
        // something unrelated to ask in between
        let m2: Model<T> = subject(1, r, ctx);
        let w3 = if r.bool() { build(&m2, 4, "POINT (1 2)") } else { None };
        let qs3 = queries(r, &m2, 4, false);
        for (who, x) in [("again", &w), ("of a separately built equal value", &w2)] {
            r.shuffle(&mut order);
            for k in &order {
                if let Some(w3) = &w3 {
                    if r.chance(1, 2) {
                        answer(w3, r.pick(&qs3));
                        ctx.cat("other values asked in between");
                    }
                }
                let got = answer(x, &qs[*k]);
                if got != first[*k] {
                    return viol(format!("{:?} answered {}, asked {} {}", qs[*k], tell(&first[*k]), who, tell(&got)));
                }
                ctx.cat(if std::ptr::eq(x, &w) { "asked again" } else { "asked of an equal value" });
            }
        }
        for x in [&w, &w2] {
            if dump(&x.g) != m.dump() {
                return viol("the geometry has changed");
            }
        }
        if w.g != w2.g && m.polys.iter().flatten().flatten().all(|c| !c.0.is_nan() && !c.1.is_nan()) {
            return viol("the geometry is no longer equal to one built from the same coordinates");
        }
        let late = if i % 20 == 10 { build(&m, degree, &txt).map(|w4| threads(r, ctx, &m, &w4, &qs, degree, &txt)).transpose()? } else { None };
        for got in early.into_iter().chain(late) {
            for (k, a) in got {
                if a != first[k] {
                    return viol(format!("{:?} answered {} alone, {} when shared by threads", qs[k], tell(&first[k]), tell(&a)));
                }
            }
        }
        Ok(())
    })();
    with_input(res, || format!("{} degree {} {:?} text {:?} queries {:?}", T::NAME, degree, m, txt, qs))
}

/// The answers that several threads get at the same time.
fn threads<T: Num>(r: &mut Rng, ctx: &mut Ctx, m: &Model<T>, w: &World<T>, qs: &[Q<T>], degree: usize, txt: &str) -> R<Vec<(usize, Vec<u64>)>> {
    let n = 4 + r.us(5);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let start = Barrier::new(n);
    let clock = AtomicUsize::new(0);
    let shared = Shared(w);
    let mut all: Vec<(usize, Vec<u64>)> = vec![];
    let mut bad: Vec<&str> = vec![];
    let mut log: Vec<(usize, u64)> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, seed)| {
                let (shared, start, clock) = (&shared, &start, &clock);
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(s, move || {
                        let w: &World<T> = shared.0;
                        let mut r = Rng::new(*seed, 23, t as u64);
                        let mut order: Vec<usize> = (0..qs.len()).collect();
                        r.shuffle(&mut order);
                        let mut log = vec![];
                        let mut bad = None;
                        let mut answers = vec![];
                        start.wait();
                        for k in order {
                            match r.below(8) {
                                0 => std::thread::yield_now(),
                                1 => (0..r.below(400)).for_each(|_| std::hint::spin_loop()),
                                _ => (),
                            }
                            if r.chance(1, 6) && !build(m, degree, txt).is_some_and(|x| dump(&x.g) == m.dump()) {
                                bad = Some("a geometry built by a thread is not the one built alone");
                            }
                            answers.push((k, answer(w, &qs[k])));
                            log.push((clock.fetch_add(1, Ordering::Relaxed), (t * 100 + k) as u64));
                        }
                        (log, answers, bad)
                    })
                    .expect("harness: spawn")
            })
            .collect();
        for h in hs {
            let (l, a, b) = h.join().expect("harness: join");
            log.extend(l);
            all.extend(a);
            bad.extend(b);
        }
    });
    ctx.cat("shared by threads");
    ctx.cat_n("asked from threads", log.len() as u64);
    log.sort();
    let mut h = H::new(1);
    log.iter().for_each(|x| {
        h.u(x.1);
    });
    ctx.schedules.insert(h.0);
    if let Some(b) = bad.into_iter().next() {
        return viol(b);
    }
    if dump(&w.g) != m.dump() {
        return viol("the geometry shared by threads has changed");
    }
    let _ = w.tree.envelope();
    Ok(all)
}
