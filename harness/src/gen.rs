//! Generators of integer shapes.
use crate::geo::*;
use crate::rng::Rng;

pub fn pt(r: &mut Rng, b: i64) -> P {
    p(r.range(-b, b), r.range(-b, b))
}

/// An integer affine map; nonsingular, so incidence is preserved exactly.
#[derive(Clone, Copy, Debug)]
pub struct Map {
    pub m: [i64; 4],
    pub t: P,
    /// So far that a crossing may be rounded to a lattice point: only for shapes without.
    pub very: bool,
}
impl Map {
    pub fn at(&self, q: P) -> P {
        p(self.m[0] * q.x + self.m[1] * q.y + self.t.x, self.m[2] * q.x + self.m[3] * q.y + self.t.y)
    }
    pub fn all(&self, v: &[P]) -> Vec<P> {
        v.iter().map(|q| self.at(*q)).collect()
    }
    pub fn all2(&self, v: &[Vec<P>]) -> Vec<Vec<P>> {
        v.iter().map(|q| self.all(q)).collect()
    }
}
pub const SYM: [[i64; 4]; 8] = [
    [1, 0, 0, 1],
    [0, -1, 1, 0],
    [-1, 0, 0, -1],
    [0, 1, -1, 0],
    [1, 0, 0, -1],
    [-1, 0, 0, 1],
    [0, 1, 1, 0],
    [0, -1, -1, 0],
];

pub fn extent<'a>(it: impl Iterator<Item = &'a P>) -> i64 {
    it.map(|q| q.x.abs().max(q.y.abs())).max().unwrap_or(0)
}

/// A shift far from the origin for coordinates of magnitude `mx`: beyond 2^bits, where
/// products of coordinates are rounded but products of differences are not, and where
/// neighbouring numbers are (unless `very`) still closer than a crossing and a lattice
/// point can be.
pub fn far(r: &mut Rng, mx: i64, bits: u32, very: bool) -> Option<P> {
    let l = 64 - mx.max(1).leading_zeros() as i64;
    let top = match (bits > 12, very) {
        (true, true) => 50,
        (false, true) => 21,
        (true, false) => 47 - 2 * l,
        (false, false) => 18 - 2 * l,
    };
    if top <= bits as i64 {
        return None;
    }
    let k = r.range(bits as i64 + 1, top);
    let mut t = pt(r, 1 << k);
    if r.chance(1, 4) {
        t.x = r.range(-3, 3);
    } else if r.chance(1, 3) {
        t.y = r.range(-3, 3);
    }
    Some(t)
}

/// A random map that keeps coordinates of magnitude `ext` within 2^bits.
pub fn rand_map(r: &mut Rng, ext: i64, bits: u32) -> Map {
    let lim = 1i64 << bits;
    assert!(ext <= lim, "harness: extent {} over {}", ext, lim);
    let ext = ext.max(1);
    let s = *r.pick(&SYM);
    let mut m = s;
    let room = lim / ext; // largest admissible row sum
    match r.below(6) {
        0 | 1 => (),
        2 if room >= 3 => {
            let k = r.range(-(room - 1).min(4), (room - 1).min(4));
            m = [s[0] + k * s[2], s[1] + k * s[3], s[2], s[3]];
        }
        3 if room >= 2 => {
            let k = r.range(1, room);
            let k = if r.bool() { k } else { k.min(5) };
            m = [s[0] * k, s[1] * k, s[2] * k, s[3] * k];
        }
        4 | 5 if room >= 4 => {
            let c = (room / 2).min(if r.bool() { 7 } else { 1 << 20 });
            for _ in 0..20 {
                let q = [r.range(-c, c), r.range(-c, c), r.range(-c, c), r.range(-c, c)];
                if q[0] * q[3] != q[1] * q[2] {
                    m = q;
                    break;
                }
            }
        }
        _ => (),
    }
    let mx = (m[0].abs() + m[1].abs()).max(m[2].abs() + m[3].abs()) * ext;
    let mx = if mx > lim {
        m = s;
        ext
    } else {
        mx
    };
    let free = lim - mx;
    if r.chance(1, 10) {
        let very = r.chance(1, 3);
        if let Some(t) = far(r, mx, bits, very) {
            return Map { m, t, very };
        }
    }
    let t = match r.below(4) {
        0 => p(0, 0),
        1 => pt(r, free.min(10)),
        2 => pt(r, free),
        _ => p(if r.bool() { free } else { -free }, r.range(-free, free)),
    };
    Map { m, t, very: false }
}

pub fn close(mut v: Vec<P>) -> Vec<P> {
    if let Some(&f) = v.first() {
        v.push(f);
    }
    v
}
/// Start a ring (first == last) at its k-th vertex.
pub fn rotate_ring(r: &[P], k: usize) -> Vec<P> {
    let n = r.len() - 1;
    let mut v: Vec<P> = (0..n).map(|i| r[(i + k) % n]).collect();
    v.push(v[0]);
    v
}
pub fn rand_rot(r: &mut Rng, ring: &[P]) -> Vec<P> {
    if ring.len() < 2 || ring[0] != ring[ring.len() - 1] {
        return ring.to_vec();
    }
    let mut v = rotate_ring(ring, r.us(ring.len() - 1));
    if r.bool() {
        v.reverse();
    }
    v
}

pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
/// Lattice points strictly inside [a,b].
pub fn inner_lattice(a: P, b: P) -> i64 {
    gcd(b.x - a.x, b.y - a.y) - 1
}
pub fn lattice_at(a: P, b: P, k: i64) -> P {
    let g = inner_lattice(a, b) + 1;
    p(a.x + (b.x - a.x) / g * k, a.y + (b.y - a.y) / g * k)
}
/// A random lattice point of [a,b], ends included.
pub fn on_edge(r: &mut Rng, a: P, b: P) -> P {
    if a == b {
        return a;
    }
    let g = inner_lattice(a, b) + 1;
    lattice_at(a, b, r.range(0, g))
}
/// Insert lattice points on edges, each edge with the given probability.
pub fn densify(r: &mut Rng, ls: &[P], num: u64, den: u64) -> Vec<P> {
    let mut v = vec![];
    for w in ls.windows(2) {
        v.push(w[0]);
        if w[0] != w[1] && inner_lattice(w[0], w[1]) > 0 && r.chance(num, den) {
            let k = r.range(1, inner_lattice(w[0], w[1]));
            v.push(lattice_at(w[0], w[1], k));
        }
    }
    if let Some(l) = ls.last() {
        v.push(*l);
    }
    v
}
/// Drop vertices in the middle of straight stretches of a ring.
pub fn corners(ring: &[P]) -> Vec<P> {
    let n = ring.len() - 1;
    let v: Vec<P> = (0..n).filter(|&i| cross(ring[(i + n - 1) % n], ring[i], ring[(i + 1) % n]) != 0).map(|i| ring[i]).collect();
    close(v)
}

/// A lattice point off segment [a,b] as little as possible (cross = +-gcd), near its middle.
pub fn near_point(r: &mut Rng, a: P, b: P) -> P {
    let (dx, dy) = (b.x - a.x, b.y - a.y);
    let g = gcd(dx, dy);
    if g == 0 {
        return a;
    }
    let (dx, dy) = (dx / g, dy / g);
    // u,v with dx*v - dy*u = +-1
    fn ext(a: i64, b: i64) -> (i64, i64, i64) {
        if b == 0 {
            (a, 1, 0)
        } else {
            let (g, x, y) = ext(b, a % b);
            (g, y, x - (a / b) * y)
        }
    }
    let (gg, s, t) = ext(dx, dy); // dx*s + dy*t = gg (= +-1)
    let (mut u, mut v) = (-t * gg, s * gg);
    if r.bool() {
        u = -u;
        v = -v;
    }
    // bring it next to the middle of the segment
    let want = (g as f64) * r.unit();
    let have = (u as f64 * dx as f64 + v as f64 * dy as f64) / ((dx as f64).powi(2) + (dy as f64).powi(2));
    let k = (want - have).floor() as i64;
    p(a.x + u + k * dx, a.y + v + k * dy)
}

// ---------------------------------------------------------------- rings

pub fn two_opt(r: &mut Rng, n: usize, b: i64, closed: bool) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 50 * n {
        let q = pt(r, b);
        tries += 1;
        if !v.contains(&q) {
            v.push(q);
        }
    }
    if v.len() < 3 {
        return if closed { close(v) } else { v };
    }
    let n = v.len();
    for _ in 0..60 * n {
        let m = if closed { n } else { n - 1 };
        let mut hit = None;
        'o: for i in 0..m {
            for j in i + 1..m {
                let (a, bb, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
                let bad = match seg_rel(a, bb, c, d) {
                    Rel::None => false,
                    Rel::At(q) => !((j == i + 1 && q == bb) || (closed && i == 0 && j == n - 1 && q == a)),
                    _ => true,
                };
                if bad {
                    hit = Some((i, j));
                    break 'o;
                }
            }
        }
        match hit {
            None => break,
            Some((i, j)) => {
                if r.chance(1, 20) {
                    r.shuffle(&mut v);
                } else {
                    v[i + 1..=j].reverse();
                }
            }
        }
    }
    if closed {
        close(v)
    } else {
        v
    }
}

pub fn star_ring(r: &mut Rng, n: usize, b: i64) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    for _ in 0..4 * n {
        if v.len() >= n {
            break;
        }
        let q = pt(r, b);
        if q != p(0, 0) && !v.iter().any(|&w| cross(p(0, 0), w, q) == 0 && w.x as i128 * q.x as i128 + w.y as i128 * q.y as i128 > 0) {
            v.push(q);
        }
    }
    let half = |q: &P| if q.y > 0 || (q.y == 0 && q.x > 0) { 0 } else { 1 };
    v.sort_by(|u, w| half(u).cmp(&half(w)).then(0.cmp(&cross(p(0, 0), *u, *w))));
    close(v)
}

pub fn convex_ring(r: &mut Rng, n: usize, b: i64) -> Vec<P> {
    let v: Vec<P> = (0..n).map(|_| pt(r, b)).collect();
    close(hull(&v))
}

/// Points close to a circle: convex rings with many corners.
pub fn round_ring(r: &mut Rng, n: usize, b: i64) -> Vec<P> {
    let v: Vec<P> = (0..n)
        .map(|_| {
            let a = r.unit() * std::f64::consts::TAU;
            p((a.cos() * b as f64) as i64, (a.sin() * b as f64) as i64)
        })
        .collect();
    close(hull(&v))
}

pub fn rect_ring(x0: i64, y0: i64, x1: i64, y1: i64) -> Vec<P> {
    vec![p(x0, y0), p(x1, y0), p(x1, y1), p(x0, y1), p(x0, y0)]
}
pub fn diamond(c: P, r: i64) -> Vec<P> {
    vec![p(c.x + r, c.y), p(c.x, c.y + r), p(c.x - r, c.y), p(c.x, c.y - r), p(c.x + r, c.y)]
}

/// Comb with k teeth.
pub fn comb_ring(k: usize, h: i64) -> Vec<P> {
    let mut v = vec![p(0, 0), p(4 * k as i64 - 2, 0)];
    for i in (0..k as i64).rev() {
        v.push(p(4 * i + 2, h));
        v.push(p(4 * i, h));
        if i > 0 {
            v.push(p(4 * i, 1));
            v.push(p(4 * i - 2, 1));
        }
    }
    v.push(p(0, 0));
    // p(0,h) to p(0,0) closes it
    v
}

/// An open rectilinear spiral path with k arms, spacing 2.
pub fn spiral(k: usize) -> Vec<P> {
    let mut v = vec![p(0, 0)];
    let mut q = p(0, 0);
    let mut len = 2;
    for i in 0..k {
        q = match i % 4 {
            0 => p(q.x + len, q.y),
            1 => p(q.x, q.y + len),
            2 => p(q.x - len, q.y),
            _ => p(q.x, q.y - len),
        };
        v.push(q);
        if i % 2 == 1 {
            len += 2;
        }
    }
    v
}
/// A thick spiral: ring around a spiral corridor.
pub fn spiral_ring(k: usize) -> Vec<P> {
    let s: Vec<P> = spiral(k).iter().map(|q| p(2 * q.x, 2 * q.y)).collect();
    let n = s.len();
    let dir = |a: P, b: P| p((b.x - a.x).signum(), (b.y - a.y).signum());
    let mut l = vec![];
    let mut rt = vec![];
    for i in 0..n {
        let d0 = if i > 0 { dir(s[i - 1], s[i]) } else { dir(s[0], s[1]) };
        let d1 = if i + 1 < n { dir(s[i], s[i + 1]) } else { d0 };
        // left normals
        let (n0, n1) = (p(-d0.y, d0.x), p(-d1.y, d1.x));
        let o = if n0 == n1 { n0 } else { p(n0.x + n1.x, n0.y + n1.y) };
        l.push(p(s[i].x + o.x, s[i].y + o.y));
        rt.push(p(s[i].x - o.x, s[i].y - o.y));
    }
    rt.reverse();
    l.extend(rt);
    close(l)
}

/// Grid regions: polygons (with holes) made of the 4-connected components of a
/// random cell set.  Different components meet only at corners and every ring is
/// simple, so the list is a valid multi-polygon with islands in holes.
pub fn grid_polys(r: &mut Rng, w: usize, h: usize, num: u64, den: u64, unit_vertices: bool) -> Vec<Poly> {
    let mut cell = vec![vec![false; w]; h];
    for row in cell.iter_mut() {
        for c in row.iter_mut() {
            *c = r.chance(num, den);
        }
    }
    cells_to_polys(&cell, unit_vertices)
}

pub fn cells_to_polys(cell: &[Vec<bool>], unit_vertices: bool) -> Vec<Poly> {
    let h = cell.len() as i64;
    let w = cell[0].len() as i64;
    let get = |x: i64, y: i64| x >= 0 && y >= 0 && x < w && y < h && cell[y as usize][x as usize];
    let mut label = vec![vec![usize::MAX; w as usize]; h as usize];
    let mut n = 0;
    for y in 0..h {
        for x in 0..w {
            if get(x, y) && label[y as usize][x as usize] == usize::MAX {
                let mut st = vec![(x, y)];
                label[y as usize][x as usize] = n;
                while let Some((a, b)) = st.pop() {
                    for (c, d) in [(a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)] {
                        if get(c, d) && label[d as usize][c as usize] == usize::MAX {
                            label[d as usize][c as usize] = n;
                            st.push((c, d));
                        }
                    }
                }
                n += 1;
            }
        }
    }
    // directed edges, region on the left; (from, dir) -> label
    use std::collections::{BTreeMap, BTreeSet};
    let mut edges: BTreeMap<(i64, i64, u8), usize> = BTreeMap::new();
    for y in 0..h {
        for x in 0..w {
            if get(x, y) {
                let l = label[y as usize][x as usize];
                if !get(x, y - 1) {
                    edges.insert((x, y, 0), l);
                }
                if !get(x + 1, y) {
                    edges.insert((x + 1, y, 1), l);
                }
                if !get(x, y + 1) {
                    edges.insert((x + 1, y + 1, 2), l);
                }
                if !get(x - 1, y) {
                    edges.insert((x, y + 1, 3), l);
                }
            }
        }
    }
    let step = |x: i64, y: i64, d: u8| match d {
        0 => (x + 1, y),
        1 => (x, y + 1),
        2 => (x - 1, y),
        _ => (x, y - 1),
    };
    let mut seen: BTreeSet<(i64, i64, u8)> = BTreeSet::new();
    let mut ext: Vec<Vec<P>> = vec![vec![]; n];
    let mut holes: Vec<Vec<Vec<P>>> = vec![vec![]; n];
    for (&(x0, y0, d0), &lab) in &edges {
        if seen.contains(&(x0, y0, d0)) {
            continue;
        }
        let (mut x, mut y, mut d) = (x0, y0, d0);
        let mut ring = vec![];
        loop {
            seen.insert((x, y, d));
            ring.push(p(x, y));
            let (nx, ny) = step(x, y, d);
            let l = edges[&(x, y, d)];
            let left = (d + 1) % 4;
            let right = (d + 3) % 4;
            let cand: Vec<u8> = [left, d, right].into_iter().filter(|&e| edges.contains_key(&(nx, ny, e))).collect();
            let nd = if cand.len() == 1 {
                cand[0]
            } else {
                // pinch: cells of one component are joined around it, others kept apart
                let same = edges[&(nx, ny, right)] == edges[&(nx, ny, left)];
                if same {
                    right
                } else {
                    left
                }
            };
            debug_assert_eq!(l, edges[&(nx, ny, nd)]);
            x = nx;
            y = ny;
            d = nd;
            if (x, y, d) == (x0, y0, d0) {
                break;
            }
        }
        let ring = close(ring);
        let ring = if unit_vertices { ring } else { corners(&ring) };
        if area2(&ring) > 0 {
            ext[lab] = ring;
        } else {
            holes[lab].push(ring);
        }
    }
    ext.into_iter()
        .zip(holes)
        .map(|(e, hs)| {
            let mut q = vec![e];
            q.extend(hs);
            q
        })
        .collect()
}

/// A random simple ring (not guaranteed simple; the oracle decides), |c| <= b.
pub fn any_ring(r: &mut Rng, b: i64) -> Vec<P> {
    let v = match r.below(10) {
        0 | 1 | 2 => {
            let n = 3 + r.size(0, 9).min(60);
            two_opt(r, n, b, true)
        }
        3 | 4 => {
            let n = 4 + r.size(0, 16);
            star_ring(r, n, b)
        }
        5 => {
            let n = 4 + r.more(12, 400);
            convex_ring(r, n, b)
        }
        6 => {
            let s = 2 + r.more(5, 24);
            grid_ring(r, s)
        }
        7 => {
            let (x0, y0) = (r.range(-b, b - 1), r.range(-b, b - 1));
            rect_ring(x0, y0, r.range(x0 + 1, b), r.range(y0 + 1, b))
        }
        8 => {
            let n = 3 + r.more(20, 400);
            round_ring(r, n, b)
        }
        _ => {
            let k = 1 + r.more(4, 100);
            let h = 2 + r.range(0, 6);
            if r.bool() {
                comb_ring(k, h)
            } else {
                spiral_ring(2 + 2 * k)
            }
        }
    };
    if v.len() < 4 || extent(v.iter()) > b.max(40 * r.big as i64) {
        return rect_ring(-b, -b, b, b);
    }
    v
}

/// The exterior of a random polyomino.
pub fn grid_ring(r: &mut Rng, s: usize) -> Vec<P> {
    let unit = r.bool();
    let ps = grid_polys(r, s, s, 3, 5, unit);
    match ps.into_iter().max_by_key(|q| q[0].len()) {
        Some(q) => {
            let o = s as i64 / 2;
            q[0].iter().map(|v| p(v.x - o, v.y - o)).collect()
        }
        None => rect_ring(0, 0, 1, 1),
    }
}

/// A polygon whose vertices are lattice points of the boundary of `ring`, in
/// boundary order.
pub fn inscribed(r: &mut Rng, ring: &[P]) -> Vec<P> {
    let mut v = vec![];
    for w in ring.windows(2) {
        let k = *r.pick(&[0, 1, 1, 1, 2]);
        let mut qs: Vec<P> = (0..k).map(|_| on_edge(r, w[0], w[1])).collect();
        qs.sort_by_key(|q| (q.x - w[0].x).abs() + (q.y - w[0].y).abs());
        for q in qs {
            if v.last() != Some(&q) && v.first() != Some(&q) {
                v.push(q);
            }
        }
    }
    close(v)
}

/// A star-shaped ring and a second one through many points of its boundary,
/// turning in (now and then out) between them.
pub fn touching_stars(r: &mut Rng) -> (Vec<P>, Vec<P>) {
    let e = match r.below(4) {
        0 => rect_ring(-2, -2, 2, 2),
        1 => {
            let n = 4 + r.us(3);
            convex_ring(r, n, 3)
        }
        _ => {
            let n = 3 + r.us(6);
            star_ring(r, n, 3)
        }
    };
    let e = if e.len() < 4 { rect_ring(-2, -1, 1, 2) } else { e };
    let e: Vec<P> = e.iter().map(|v| p(8 * v.x, 8 * v.y)).collect();
    let corners = r.chance(1, 2);
    let extra = *r.pick(&[0, 1, 1, 2, 4]);
    // (point, edge it lies on or starts)
    let mut at: Vec<(P, usize)> = vec![];
    for (k, w) in e.windows(2).enumerate() {
        if corners || r.bool() {
            at.push((w[0], k));
        }
        let mut qs: Vec<P> = (0..r.us(extra + 1)).map(|_| on_edge(r, w[0], w[1])).collect();
        qs.sort_by_key(|q| (q.x - w[0].x).abs() + (q.y - w[0].y).abs());
        at.extend(qs.into_iter().map(|q| (q, k)));
    }
    at.dedup_by_key(|a| a.0);
    let n = at.len();
    let turn = r.range(1, 7) as u64;
    let mut v = vec![];
    for k in 0..n {
        let (a, b) = (at[k], at[(k + 1) % n]);
        v.push(a.0);
        let same = a.1 == b.1 || (a.1 + 1) % (e.len() - 1) == b.1 && b.0 == e[b.1];
        if if same { r.chance(19, 20) } else { r.chance(turn, 8) } {
            let t = if r.chance(1, 12 * n as u64) { 9 } else { r.range(1, 7) };
            let m = p((a.0.x + b.0.x) * t / 16, (a.0.y + b.0.y) * t / 16);
            v.push(m);
        }
    }
    v.dedup();
    (e, close(v))
}

// ---------------------------------------------------------------- chains

/// x strictly increasing.
pub fn monotone(r: &mut Rng, n: usize, step: i64, amp: i64) -> Vec<P> {
    let mut x = 0;
    (0..n)
        .map(|_| {
            x += r.range(1, step);
            p(x, r.range(-amp, amp))
        })
        .collect()
}

/// Rows joined at alternating ends.
pub fn boustrophedon(rows: usize, len: i64, gap: i64) -> Vec<P> {
    let mut v = vec![];
    for i in 0..rows as i64 {
        if i % 2 == 0 {
            v.push(p(0, i * gap));
            v.push(p(len, i * gap));
        } else {
            v.push(p(len, i * gap));
            v.push(p(0, i * gap));
        }
    }
    v
}

pub fn walk(r: &mut Rng, n: usize, b: i64, avoid: bool) -> Vec<P> {
    let mut v = vec![pt(r, b)];
    let mut seen: std::collections::HashSet<P> = v.iter().copied().collect();
    for _ in 1..n {
        let c = v[v.len() - 1];
        let mut done = false;
        for _ in 0..8 {
            let (dx, dy) = match r.below(3) {
                0 => *r.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1)]),
                1 => (r.range(-1, 1), r.range(-1, 1)),
                _ => (r.range(-2, 2), r.range(-2, 2)),
            };
            let q = p(c.x + dx, c.y + dy);
            if (avoid && seen.contains(&q)) || q == c {
                continue;
            }
            v.push(q);
            seen.insert(q);
            done = true;
            break;
        }
        if !done {
            break;
        }
    }
    v
}

/// A chain: (shape name, positions). Coordinates are not bounded by `b` strictly
/// but stay within max(b, 4000).
pub fn any_chain(r: &mut Rng, b: i64) -> Vec<P> {
    let mut v = match r.below(13) {
        0 => {
            let n = 2 + r.us(6);
            (0..n).map(|_| pt(r, b.min(3))).collect()
        }
        1 => {
            let n = 2 + r.size(0, 40);
            walk(r, n, 3, true)
        }
        2 => {
            let n = 2 + r.size(0, 40);
            let mut v = walk(r, n, 3, true);
            // cut at the first contact so that longer simple walks are common
            if v.len() > 60 {
                // what is longest valid, by bisection
                let (mut lo, mut hi) = (2, v.len() + 1);
                while hi - lo > 1 {
                    let k = (lo + hi) / 2;
                    if ls_check(&v[..k]) == LsV::Valid {
                        lo = k
                    } else {
                        hi = k
                    }
                }
                v.truncate(lo);
            }
            while v.len() > 2 && ls_check(&v) != LsV::Valid {
                v.pop();
            }
            v
        }
        3 | 4 => {
            let g = any_ring(r, b);
            rand_rot(r, &g)
        }
        5 => {
            // open ring: drop the closing position
            let g = any_ring(r, b);
            let mut v = rand_rot(r, &g);
            v.pop();
            v
        }
        6 => {
            // tail: a ring entered from outside or left at its start
            let g = any_ring(r, b);
            let mut v = rand_rot(r, &g);
            let q = pt(r, b);
            if r.bool() {
                v.push(q);
            } else {
                v.insert(0, q);
            }
            v
        }
        7 => {
            // last segment passes through or ends on the first vertex or edge
            let g = any_ring(r, b);
            let mut v = rand_rot(r, &g);
            v.pop();
            let f = v[0];
            let l = v[v.len() - 1];
            match r.below(3) {
                0 => v.push(p(2 * f.x - l.x, 2 * f.y - l.y)),
                1 => {
                    let q = on_edge(r, v[0], v[1]);
                    v.push(q)
                }
                _ => {
                    let i = r.us(v.len() - 1);
                    let q = on_edge(r, v[i], v[i + 1]);
                    v.push(q)
                }
            }
            v
        }
        8 => {
            let n = 2 + r.size(0, 30);
            monotone(r, n, 3, b.min(50))
        }
        9 => {
            let n = 3 + r.more(10, 60);
            two_opt(r, n, b, false)
        }
        10 => {
            let k = 1 + r.more(12, 200);
            spiral(k)
        }
        11 => {
            let rows = 1 + r.more(6, 150);
            let gap = r.range(1, 3);
            boustrophedon(rows, r.range(1, 40), gap)
        }
        _ => {
            let n = 2 + r.us(5);
            (0..n).map(|_| pt(r, b)).collect()
        }
    };
    // mutations
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) {
        if v.len() < 2 {
            break;
        }
        mutate_chain(r, &mut v, b);
    }
    v
}

pub fn mutate_chain(r: &mut Rng, v: &mut Vec<P>, b: i64) {
    if v.len() < 2 {
        return;
    }
    let n = v.len();
    let i = r.us(n);
    let j = r.us(n - 1);
    match r.below(9) {
        0 => v[i] = on_edge(r, v[j], v[j + 1]),
        1 => v[i] = near_point(r, v[j], v[j + 1]),
        2 => {
            let q = on_edge(r, v[j], v[j + 1]);
            v.insert(i, q)
        }
        3 => {
            let q = near_point(r, v[j], v[j + 1]);
            v.insert(i, q)
        }
        4 => v[i] = v[j],
        5 => {
            let q = v[i];
            v.insert(i, q)
        }
        6 => {
            let d = (b / 50).max(1);
            v[i] = p(v[i].x + r.range(-d, d), v[i].y + r.range(-d, d))
        }
        7 => {
            *v = densify(r, v, 1, 2);
        }
        _ => {
            if n > 2 {
                v.remove(i);
            }
        }
    }
    for q in v.iter_mut() {
        let m = b.max(1000);
        q.x = q.x.clamp(-m, m);
        q.y = q.y.clamp(-m, m);
    }
}
