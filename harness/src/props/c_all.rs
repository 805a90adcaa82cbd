//! C26 no undefined behaviour: the workloads of all properties, for a build
//! with a sanitizer or an interpreter as the judge.
use super::*;
use magog::flatbush::Flatbush;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        quick: 500_000,
        thorough: 20_000_000,
        floors: &[],
        rule: "A case is a case of one of the other properties (drawn by index), executed under a sanitizer or interpreter. Verdicts of the other properties are ignored here. Non-trivial as there. Monitor: AddressSanitizer, ThreadSanitizer and Miri reports, arithmetic overflow checks.",
        case: c26,
    }]
}

fn table() -> &'static Vec<Prop> {
    static T: OnceLock<Vec<Prop>> = OnceLock::new();
    T.get_or_init(|| super::table().into_iter().filter(|p| !["C26", "C27", "C28"].contains(&p.id)).collect())
}

fn c26(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if r.chance(1, 40) {
        ctx.cat("misuse");
        ctx.evals += 1;
        ctx.nontrivial(0);
        return misuse(r);
    }
    let t = table();
    let p = &t[(i % t.len() as u64) as usize];
    // special cases keyed by index should come up for every property
    let j = match r.below(600) {
        0 => 10 + r.below(90),
        1..=20 => 100 + r.below(3_900),
        _ => r.below(p.quick.max(2)),
    };
    let mut sub = Ctx { thorough: false, want_sample: ctx.want_sample, ..Ctx::default() };
    let out = (p.case)(j, r, &mut sub);
    ctx.evals += 1;
    ctx.cat(p.id);
    if ctx.distinct.len() < 2_000_000 {
        ctx.distinct.extend(sub.distinct);
    }
    ctx.schedules.extend(sub.schedules);
    for s in sub.samples {
        ctx.sample(|| format!("{} {}", p.id, s));
    }
    // an overflow is a panic in this build and wraps in another
    if let Err(Fail::Viol(m)) = out {
        let head = m.split("\n  input:").next().unwrap_or("");
        if head.contains("panicked: attempt to ") && head.contains("with overflow") || head.contains("unsafe precondition") {
            return Err(Fail::Viol(m));
        }
    }
    Ok(())
}

/// Calls that are documented or bound to panic: they must do so before touching anything.
fn misuse(r: &mut Rng) -> R {
    let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16, 33, 64]);
    let at = |k: usize| Position::new(k as f64, (k * k % 7) as f64);
    let ps: Vec<Position<f64>> = (0..n).map(at).collect();
    let beyond = [n.saturating_sub(1), n, n + 1, n + 7, n + 100_000][r.us(5)];
    let ls = LineString::new(ps.clone());
    let _ = sut("get_segment", || ls.get_segment(beyond));
    let _ = sut("convex_hull", || Polygon::from(ls.clone()).convex_hull().num_points());
    let mut open = ps.clone();
    open.truncate(3);
    let _ = sut("convex_hull", || Polygon::<f64>::from(open).convex_hull().num_points());
    let degree = *r.pick(&[2usize, 4, 8, 16]);
    let t = sut("Flatbush::new", || Flatbush::new(&ps, degree))?;
    for d in [0usize, 3, 6, 12] {
        let _ = sut("Flatbush::new", || Flatbush::new(&ps, d).root_node().level);
    }
    let more: Vec<Position<f64>> = (0..n * 9 + 5).map(at).collect();
    let u = sut("Flatbush::new", || Flatbush::new(&more, degree * 2))?;
    // nodes of another index, and nodes that do not exist
    let mut node = u.root_node();
    while node.level > 0 {
        let _ = sut("get_children", || t.get_children(node));
        let mut other = node;
        other.sibling_index += r.us(1000);
        let _ = sut("get_children", || t.get_children(other));
        let _ = sut("get_children", || u.get_children(other));
        node = match sut("get_children", || u.get_children(node)) {
            Ok(c) if !c.is_empty() => c[0],
            _ => break,
        };
    }
    Ok(())
}
