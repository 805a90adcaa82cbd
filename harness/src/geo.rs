//! Exact integer oracles, written without reference to magog's algorithms.

use crate::num::pow2;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct P {
    pub x: i64,
    pub y: i64,
}
pub const fn p(x: i64, y: i64) -> P {
    P { x, y }
}

pub fn cross(o: P, a: P, b: P) -> i128 {
    (a.x - o.x) as i128 * (b.y - o.y) as i128 - (a.y - o.y) as i128 * (b.x - o.x) as i128
}

pub fn in_box(a: P, b: P, q: P) -> bool {
    a.x.min(b.x) <= q.x && q.x <= a.x.max(b.x) && a.y.min(b.y) <= q.y && q.y <= a.y.max(b.y)
}
pub fn on_seg(a: P, b: P, q: P) -> bool {
    cross(a, b, q) == 0 && in_box(a, b, q)
}
pub fn boxes_meet(a: P, b: P, c: P, d: P) -> bool {
    a.x.min(b.x) <= c.x.max(d.x) && c.x.min(d.x) <= a.x.max(b.x) && a.y.min(b.y) <= c.y.max(d.y) && c.y.min(d.y) <= a.y.max(b.y)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rel {
    None,
    /// One common point, an end of at least one of the segments.
    At(P),
    /// Proper crossing of the interiors at a + (b-a) * num/den.
    Cross { num: i128, den: i128 },
    Overlap(P, P),
}

/// How [a,b] and [c,d] meet.
pub fn seg_rel(a: P, b: P, c: P, d: P) -> Rel {
    if !boxes_meet(a, b, c, d) {
        return Rel::None;
    }
    if a == b {
        return if on_seg(c, d, a) { Rel::At(a) } else { Rel::None };
    }
    if c == d {
        return if on_seg(a, b, c) { Rel::At(c) } else { Rel::None };
    }
    let o1 = cross(a, b, c);
    let o2 = cross(a, b, d);
    let o3 = cross(c, d, a);
    let o4 = cross(c, d, b);
    if o1 == 0 && o2 == 0 {
        let lo = a.min(b).max(c.min(d));
        let hi = a.max(b).min(c.max(d));
        return if lo > hi {
            Rel::None
        } else if lo == hi {
            Rel::At(lo)
        } else {
            Rel::Overlap(lo, hi)
        };
    }
    if o1 == 0 && in_box(a, b, c) {
        return Rel::At(c);
    }
    if o2 == 0 && in_box(a, b, d) {
        return Rel::At(d);
    }
    if o3 == 0 && in_box(c, d, a) {
        return Rel::At(a);
    }
    if o4 == 0 && in_box(c, d, b) {
        return Rel::At(b);
    }
    if (o1 > 0) != (o2 > 0) && (o3 > 0) != (o4 > 0) && o1 != 0 && o2 != 0 && o3 != 0 && o4 != 0 {
        let (mut num, mut den) = (o3, o3 - o4);
        if den < 0 {
            num = -num;
            den = -den;
        }
        return Rel::Cross { num, den };
    }
    Rel::None
}

/// Far from degenerate: every end point is clearly off the other segment's line
/// (so that floating point cannot get the side wrong).
pub fn clear_pair(a: P, b: P, c: P, d: P, bits: u32) -> bool {
    if !boxes_meet(a, b, c, d) {
        return true;
    }
    let m = |u: P, v: P| (u.x - v.x).abs().max((u.y - v.y).abs()) as f64;
    let ext = m(a, b).max(m(c, d)).max(m(a, c)).max(m(a, d)).max(m(b, c)).max(m(b, d));
    let tol = ext * pow2(-(bits as i32));
    let far = |u: P, v: P, q: P| (cross(u, v, q) as f64).abs() > m(u, v) * tol;
    a != b && c != d && far(a, b, c) && far(a, b, d) && far(c, d, a) && far(c, d, b)
}
/// Segments [a,j] and [j,b] sharing j, clearly not parallel.
pub fn clear_joint(a: P, j: P, b: P, bits: u32) -> bool {
    let m = |u: P, v: P| (u.x - v.x).abs().max((u.y - v.y).abs()) as f64;
    (cross(j, a, b) as f64).abs() > m(a, j) * m(b, j) * pow2(-(bits as i32))
}

/// Calls f for every pair i < j of segments whose boxes meet; stops when f returns false.
pub fn box_pairs(segs: &[(P, P)], mut f: impl FnMut(usize, usize) -> bool) {
    let mut ord: Vec<usize> = (0..segs.len()).collect();
    let lo = |i: usize| segs[i].0.x.min(segs[i].1.x);
    let hi = |i: usize| segs[i].0.x.max(segs[i].1.x);
    ord.sort_by_key(|&i| lo(i));
    for (k, &i) in ord.iter().enumerate() {
        let h = hi(i);
        for &j in &ord[k + 1..] {
            if lo(j) > h {
                break;
            }
            if boxes_meet(segs[i].0, segs[i].1, segs[j].0, segs[j].1) && !f(i.min(j), i.max(j)) {
                return;
            }
        }
    }
}

pub fn segs_of(ls: &[P]) -> Vec<(P, P)> {
    ls.windows(2).map(|w| (w[0], w[1])).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LsV {
    Valid,
    OnePoint,
    Repeated,
    /// Two consecutive segments fold back on each other.
    Fold,
    /// Interiors cross.
    Cross,
    /// They touch where they must not.
    Touch,
    Overlap,
}

/// A line string's verdict by definition.
pub fn ls_check(ls: &[P]) -> LsV {
    if ls.is_empty() {
        return LsV::Valid;
    }
    if ls.len() == 1 {
        return LsV::OnePoint;
    }
    if ls.windows(2).any(|w| w[0] == w[1]) {
        return LsV::Repeated;
    }
    let segs = segs_of(ls);
    let n = segs.len();
    let closed = ls[0] == ls[ls.len() - 1];
    let mut v = LsV::Valid;
    box_pairs(&segs, |i, j| {
        let r = seg_rel(segs[i].0, segs[i].1, segs[j].0, segs[j].1);
        let bad = match r {
            Rel::None => None,
            Rel::Cross { .. } => Some(LsV::Cross),
            Rel::Overlap(..) => Some(if j == i + 1 { LsV::Fold } else { LsV::Overlap }),
            Rel::At(q) => {
                let joint = (j == i + 1 && q == segs[i].1) || (closed && i == 0 && j == n - 1 && q == segs[0].0);
                if joint {
                    None
                } else {
                    Some(LsV::Touch)
                }
            }
        };
        match bad {
            None => true,
            Some(b) => {
                v = b;
                false
            }
        }
    });
    v
}

/// Is every pair of segments far from degenerate (shared joints excepted)?
pub fn ls_clear(ls: &[P], bits: u32) -> bool {
    if ls.windows(2).any(|w| w[0] == w[1]) {
        return false;
    }
    let segs = segs_of(ls);
    let n = segs.len();
    let closed = n > 2 && ls[0] == ls[n];
    let mut ok = true;
    box_pairs(&segs, |i, j| {
        let c = if j == i + 1 {
            clear_joint(segs[i].0, segs[i].1, segs[j].1, bits)
        } else if closed && i == 0 && j == n - 1 {
            clear_joint(segs[0].1, segs[0].0, segs[j].0, bits)
        } else {
            clear_pair(segs[i].0, segs[i].1, segs[j].0, segs[j].1, bits)
        };
        ok = ok && c;
        ok
    });
    ok
}

pub fn is_closed(ls: &[P]) -> bool {
    ls.len() >= 4 && ls[0] == ls[ls.len() - 1]
}
pub fn is_ring(ls: &[P]) -> bool {
    is_closed(ls) && ls_check(ls) == LsV::Valid
}

pub fn bbox(ls: &[P]) -> Option<(P, P)> {
    let f = ls.first()?;
    let mut lo = *f;
    let mut hi = *f;
    for q in ls {
        lo = p(lo.x.min(q.x), lo.y.min(q.y));
        hi = p(hi.x.max(q.x), hi.y.max(q.y));
    }
    Some((lo, hi))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MlsV {
    Valid,
    Member(LsV),
    /// Contact in the interior of a member.
    Interior,
    /// Contact at the closing point of a ring.
    ClosedEnd,
    Cross,
    Overlap,
}

/// All pairs of segments from two different groups whose boxes meet.
pub fn cross_pairs(groups: &[Vec<(P, P)>], mut f: impl FnMut(usize, usize, usize, usize) -> bool) {
    let mut segs = vec![];
    let mut tag = vec![];
    for (g, v) in groups.iter().enumerate() {
        for (i, s) in v.iter().enumerate() {
            segs.push(*s);
            tag.push((g, i));
        }
    }
    box_pairs(&segs, |i, j| tag[i].0 == tag[j].0 || f(tag[i].0, tag[i].1, tag[j].0, tag[j].1));
}

pub fn mls_check(ms: &[Vec<P>]) -> MlsV {
    for m in ms {
        let v = ls_check(m);
        if v != LsV::Valid {
            return MlsV::Member(v);
        }
    }
    let groups: Vec<Vec<(P, P)>> = ms.iter().map(|m| segs_of(m)).collect();
    let mut v = MlsV::Valid;
    cross_pairs(&groups, |g, i, h, j| {
        let (a, b) = (groups[g][i], groups[h][j]);
        let bad = match seg_rel(a.0, a.1, b.0, b.1) {
            Rel::None => None,
            Rel::Cross { .. } => Some(MlsV::Cross),
            Rel::Overlap(..) => Some(MlsV::Overlap),
            Rel::At(q) => {
                let end = |m: &Vec<P>| m[0] == q || m[m.len() - 1] == q;
                if !end(&ms[g]) || !end(&ms[h]) {
                    Some(MlsV::Interior)
                } else if is_closed(&ms[g]) || is_closed(&ms[h]) {
                    Some(MlsV::ClosedEnd)
                } else {
                    None
                }
            }
        };
        match bad {
            None => true,
            Some(b) => {
                v = b;
                false
            }
        }
    });
    v
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Contact {
    pub cross: bool,
    pub overlap: bool,
    pub touches: usize,
}

/// How the boundaries of two sets of rings meet.
pub fn contact(a: &[&[P]], b: &[&[P]]) -> Contact {
    let ga: Vec<(P, P)> = a.iter().flat_map(|r| segs_of(r)).collect();
    let gb: Vec<(P, P)> = b.iter().flat_map(|r| segs_of(r)).collect();
    let mut c = Contact::default();
    let g = [ga, gb];
    let mut pts = std::collections::HashSet::new();
    cross_pairs(&g, |x, i, y, j| {
        let (s, t) = (g[x][i], g[y][j]);
        match seg_rel(s.0, s.1, t.0, t.1) {
            Rel::None => (),
            Rel::Cross { .. } => c.cross = true,
            Rel::Overlap(..) => c.overlap = true,
            Rel::At(q) => {
                pts.insert(q);
            }
        }
        true
    });
    c.touches = pts.len();
    c
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Cells {
    pub both: bool,
    pub only_a: bool,
    pub only_b: bool,
}

/// Slab decomposition: which kinds of cells (by parity in a and in b) exist.
/// Requires that no two edges cross properly or overlap.
pub fn cells(a: &[&[P]], b: &[&[P]]) -> Cells {
    let mut edges: Vec<(P, P, bool)> = vec![];
    let mut xs: Vec<i64> = vec![];
    for (rings, is_b) in [(a, false), (b, true)] {
        for r in rings {
            for w in r.windows(2) {
                xs.push(w[0].x);
                xs.push(w[1].x);
                if w[0].x < w[1].x {
                    edges.push((w[0], w[1], is_b));
                } else if w[1].x < w[0].x {
                    edges.push((w[1], w[0], is_b));
                }
            }
        }
    }
    xs.sort_unstable();
    xs.dedup();
    edges.sort_unstable_by_key(|e| e.0.x);
    let mut out = Cells::default();
    let mut active: Vec<(P, P, bool)> = vec![];
    let mut k = 0;
    for w in xs.windows(2) {
        let (x0, x1) = (w[0], w[1]);
        active.retain(|e| e.1.x >= x1);
        while k < edges.len() && edges[k].0.x <= x0 {
            active.push(edges[k]);
            k += 1;
        }
        // height at the middle of the slab, as a fraction num / (2*dx)
        let mut hs: Vec<(i128, i128, bool)> = active
            .iter()
            .map(|e| {
                let dx = (e.1.x - e.0.x) as i128;
                let dy = (e.1.y - e.0.y) as i128;
                (2 * e.0.y as i128 * dx + dy * (x0 + x1 - 2 * e.0.x) as i128, dx, e.2)
            })
            .collect();
        hs.sort_by(|u, v| (u.0 * v.1).cmp(&(v.0 * u.1)));
        let (mut ia, mut ib) = (false, false);
        for t in 0..hs.len() {
            if hs[t].2 {
                ib = !ib;
            } else {
                ia = !ia;
            }
            if t + 1 < hs.len() && hs[t].0 * hs[t + 1].1 < hs[t + 1].0 * hs[t].1 {
                match (ia, ib) {
                    (true, true) => out.both = true,
                    (true, false) => out.only_a = true,
                    (false, true) => out.only_b = true,
                    _ => (),
                }
            }
        }
        assert!(!ia && !ib, "slab oracle: odd number of edges");
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RingRel {
    Separate,
    Contains,
    Within,
    Crosses,
}

/// Relation of two simple rings by slab decomposition.
pub fn ring_rel(a: &[P], b: &[P]) -> RingRel {
    let c = contact(&[a], &[b]);
    if c.cross || c.overlap {
        return RingRel::Crosses;
    }
    let k = cells(&[a], &[b]);
    match (k.both, k.only_a, k.only_b) {
        (false, _, _) => RingRel::Separate,
        (true, _, false) => RingRel::Contains,
        (true, false, true) => RingRel::Within,
        (true, true, true) => RingRel::Crosses,
    }
}

/// -1 outside, 0 on, 1 inside (even-odd), exact.
pub fn point_in_ring(r: &[P], q: P) -> i32 {
    let mut inside = false;
    for w in r.windows(2) {
        let (a, b) = (w[0], w[1]);
        if on_seg(a, b, q) {
            return 0;
        }
        if (a.y > q.y) != (b.y > q.y) {
            let c = cross(a, b, q);
            if (b.y > a.y) == (c > 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        1
    } else {
        -1
    }
}

/// The same relation by classifying the middle of every piece of edge; used to
/// cross-check the slab oracle.
pub fn ring_rel_mid(a: &[P], b: &[P]) -> RingRel {
    let c = contact(&[a], &[b]);
    if c.cross || c.overlap {
        return RingRel::Crosses;
    }
    let side = |a: &[P], b: &[P]| -> (bool, bool) {
        let b2: Vec<P> = b.iter().map(|q| p(2 * q.x, 2 * q.y)).collect();
        let (mut ins, mut out) = (false, false);
        for w in a.windows(2) {
            let mut stops = vec![w[0], w[1]];
            stops.extend(b.iter().filter(|q| on_seg(w[0], w[1], **q)));
            stops.sort();
            stops.dedup();
            for s in stops.windows(2) {
                match point_in_ring(&b2, p(s[0].x + s[1].x, s[0].y + s[1].y)) {
                    1 => ins = true,
                    -1 => out = true,
                    _ => panic!("midpoint oracle: overlap"),
                }
            }
        }
        (ins, out)
    };
    match (side(a, b), side(b, a)) {
        ((true, true), _) | (_, (true, true)) => RingRel::Crosses,
        ((true, false), (false, true)) => RingRel::Within,
        ((false, true), (true, false)) => RingRel::Contains,
        ((false, true), (false, true)) => RingRel::Separate,
        x => panic!("midpoint oracle: {:?}", x),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PolyV {
    Valid,
    NotClosed,
    RingInvalid,
    HoleCrosses,
    HoleOutside,
    HolesCross,
    HolesOverlap,
}

pub type Poly = Vec<Vec<P>>; // exterior first; an empty list is the empty polygon

/// (verdict, number of touching points between rings)
pub fn poly_check(rings: &[Vec<P>]) -> (PolyV, usize) {
    let mut touches = 0;
    if rings.is_empty() || (rings.len() == 1 && rings[0].is_empty()) {
        return (PolyV::Valid, 0);
    }
    if rings.iter().any(|r| !is_closed(r)) {
        return (PolyV::NotClosed, 0);
    }
    if rings.iter().any(|r| ls_check(r) != LsV::Valid) {
        return (PolyV::RingInvalid, 0);
    }
    // contacts between all rings in one pass
    let groups: Vec<Vec<(P, P)>> = rings.iter().map(|r| segs_of(r)).collect();
    let mut bad = None;
    let mut pts = std::collections::HashSet::new();
    cross_pairs(&groups, |g, i, h, j| {
        let (s, t) = (groups[g][i], groups[h][j]);
        match seg_rel(s.0, s.1, t.0, t.1) {
            Rel::None => true,
            Rel::At(q) => {
                pts.insert((g.min(h), g.max(h), q));
                true
            }
            _ => {
                bad = Some(if g == 0 || h == 0 { PolyV::HoleCrosses } else { PolyV::HolesCross });
                false
            }
        }
    });
    if let Some(b) = bad {
        return (b, 0);
    }
    touches += pts.len();
    let boxes: Vec<(P, P)> = rings.iter().map(|r| bbox(r).unwrap()).collect();
    for h in 1..rings.len() {
        let c = cells(&[&rings[0]], &[&rings[h]]);
        if !c.both || c.only_b {
            return (PolyV::HoleOutside, touches);
        }
    }
    for h in 1..rings.len() {
        for k in h + 1..rings.len() {
            if boxes_meet(boxes[h].0, boxes[h].1, boxes[k].0, boxes[k].1) && cells(&[&rings[h]], &[&rings[k]]).both {
                return (PolyV::HolesOverlap, touches);
            }
        }
    }
    (PolyV::Valid, touches)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MpolyV {
    Valid,
    Member(PolyV),
    Cross,
    SharedEdge,
    Overlap,
}

pub fn mpoly_check(ps: &[Poly]) -> (MpolyV, usize, usize) {
    for q in ps {
        let (v, _) = poly_check(q);
        if v != PolyV::Valid {
            return (MpolyV::Member(v), 0, 0);
        }
    }
    let boxes: Vec<Option<(P, P)>> = ps.iter().map(|q| q.first().and_then(|e| bbox(e))).collect();
    let groups: Vec<Vec<(P, P)>> = ps.iter().map(|q| q.iter().flat_map(|r| segs_of(r)).collect()).collect();
    let mut bad = None;
    let mut pts = std::collections::HashSet::new();
    cross_pairs(&groups, |g, i, h, j| {
        let (s, t) = (groups[g][i], groups[h][j]);
        match seg_rel(s.0, s.1, t.0, t.1) {
            Rel::None => true,
            Rel::At(q) => {
                pts.insert((g.min(h), g.max(h), q));
                true
            }
            Rel::Cross { .. } => {
                bad = Some(MpolyV::Cross);
                false
            }
            Rel::Overlap(..) => {
                bad = Some(MpolyV::SharedEdge);
                false
            }
        }
    });
    if let Some(b) = bad {
        return (b, 0, 0);
    }
    let mut nested = 0;
    for g in 0..ps.len() {
        for h in g + 1..ps.len() {
            if let (Some(x), Some(y)) = (boxes[g], boxes[h]) {
                if !boxes_meet(x.0, x.1, y.0, y.1) {
                    continue;
                }
                let rg: Vec<&[P]> = ps[g].iter().map(|r| &r[..]).collect();
                let rh: Vec<&[P]> = ps[h].iter().map(|r| &r[..]).collect();
                if cells(&rg, &rh).both {
                    return (MpolyV::Overlap, pts.len(), nested);
                }
                if (in_box(x.0, x.1, y.0) && in_box(x.0, x.1, y.1)) || (in_box(y.0, y.1, x.0) && in_box(y.0, y.1, x.1)) {
                    if cells(&rg[..1], &rh[..1]).both {
                        nested += 1;
                    }
                }
            }
        }
    }
    (MpolyV::Valid, pts.len(), nested)
}

/// Extreme points in counter-clockwise order starting from the lexicographic
/// minimum (Andrew's monotone chain, collinear points dropped).
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut v = pts.to_vec();
    v.sort();
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let half = |it: &mut dyn Iterator<Item = &P>| -> Vec<P> {
        let mut h: Vec<P> = vec![];
        for &q in it {
            while h.len() >= 2 && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut v.iter());
    let up = half(&mut v.iter().rev());
    lo.extend(up);
    lo
}

/// Twice the signed area.
pub fn area2(r: &[P]) -> i128 {
    r.windows(2).map(|w| w[0].x as i128 * w[1].y as i128 - w[1].x as i128 * w[0].y as i128).sum()
}
