//! P14 segment intersection, P15 segment queries, P26 base math: complete sets of segments / values.
use crate::gen::*;
use crate::geo::*;
use crate::query::{r2, v2, Q8};
use crate::run::*;
use cavalier_contours::core::math::*;
use cavalier_contours::core::traits::*;
use cavalier_contours::polyline::*;
use std::f64::consts::{PI, TAU};

const EPS: f64 = 1e-5;

pub fn seg_set(pts: &[P], bulges: &[f64]) -> Vec<Seg> {
    let mut o = vec![];
    for i in 0..pts.len() {
        for j in 0..pts.len() {
            if i != j {
                for b in bulges {
                    o.push(Seg::new(pts[i], pts[j], *b));
                }
            }
        }
    }
    o
}
/// every arc of at most a half turn between n equally spaced points of a circle, both directions
pub fn circle_set(c: P, rad: f64, n: usize, turn: f64) -> Vec<Seg> {
    let mut o = vec![];
    let at = |i: usize| {
        let g = (i % n) as f64 * TAU / n as f64 + turn;
        c + p(g.cos(), g.sin()) * rad
    };
    for i in 0..n {
        for d in 1..=n / 2 {
            let b = ((d as f64 * TAU / n as f64) / 4.0).tan().min(1.0);
            o.push(Seg::new(at(i), at(i + d), b));
            o.push(Seg::new(at(i + d), at(i), -b));
            o.push(Seg::new(at(i), at(i + d), 0.0));
        }
    }
    o
}
/// segments between points that differ by about the comparison epsilon
fn near_set(es: &[f64], pts: &[P], bulges: &[f64]) -> Vec<Seg> {
    let mut q = pts.to_vec();
    for a in &pts[..2] {
        for e in es {
            for d in [p(1.0, 0.0), p(0.0, 1.0), p(-0.6, -0.8)] {
                q.push(*a + d * *e);
            }
        }
    }
    let o = seg_set(&q, bulges);
    o.into_iter().filter(|s| s.len() > 0.1).collect()
}
fn vs(s: &Seg) -> (PlineVertex<f64>, PlineVertex<f64>) {
    (PlineVertex::new(s.a.x, s.a.y, s.bulge), PlineVertex::new(s.b.x, s.b.y, 0.0))
}
fn sh(s: &Seg) -> String {
    format!("({},{})->({},{}) bulge {}", s.a.x, s.a.y, s.b.x, s.b.y, s.bulge)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    None,
    Tangent,
    One,
    Two,
    Lines,
    Arcs,
}
fn call(s: &Seg, u: &Seg) -> (Kind, Vec<P>) {
    let (v1, v2_) = vs(s);
    let (u1, u2) = vs(u);
    match pline_seg_intr(v1, v2_, u1, u2, EPS) {
        PlineSegIntr::NoIntersect => (Kind::None, vec![]),
        PlineSegIntr::TangentIntersect { point } => (Kind::Tangent, vec![r2(point)]),
        PlineSegIntr::OneIntersect { point } => (Kind::One, vec![r2(point)]),
        PlineSegIntr::TwoIntersects { point1, point2 } => (Kind::Two, vec![r2(point1), r2(point2)]),
        PlineSegIntr::OverlappingLines { point1, point2 } => (Kind::Lines, vec![r2(point1), r2(point2)]),
        PlineSegIntr::OverlappingArcs { point1, point2 } => (Kind::Arcs, vec![r2(point1), r2(point2)]),
    }
}

/// distance from tangency or from an end point that makes the classification a matter of epsilon
pub fn borderline(s: &Seg, u: &Seg) -> bool {
    near_ends(s, u) || shallow(s, u)
}
fn near_ends(s: &Seg, u: &Seg) -> bool {
    // ends that are near, but not on, the other segment
    for (x, y) in [(s, u), (u, s)] {
        for q in [x.a, x.b] {
            let d = y.dist(q);
            if d > 1e-9 && d < 2e-3 {
                return true;
            }
        }
    }
    false
}
/// nearly tangent supports, nearly parallel lines, nearly equal circles
fn shallow(s: &Seg, u: &Seg) -> bool {
    match (s.arc, u.arc) {
        (None, None) => {
            let c = s.tan(0.0).cross(u.tan(0.0)).abs();
            c > 1e-9 && c < 1e-3
        }
        (Some(k), Some(m)) => {
            let d = k.c.dist(m.c);
            for g in [d - k.r - m.r, d - (k.r - m.r).abs()] {
                if g.abs() > 1e-14 * (1.0 + d + k.r + m.r + k.c.len()) && g.abs() < 1e-3 {
                    return true;
                }
            }
            (d > 1e-10 && d < 1e-3) || ((k.r - m.r).abs() > 1e-10 && (k.r - m.r).abs() < 1e-3)
        }
        (Some(k), None) => near_tan(&k, u),
        (None, Some(k)) => near_tan(&k, s),
    }
}
fn near_tan(k: &ArcD, l: &Seg) -> bool {
    let t = l.tan(0.0);
    let g = (k.c - l.a).cross(t).abs() - k.r;
    g.abs() > 1e-14 * (1.0 + k.r + k.c.len() + l.a.len()) && g.abs() < 1e-3
}

fn tangent_supports(s: &Seg, u: &Seg, q: P) -> bool {
    let (ts, tu) = (s.tan(s.closest(q).0), u.tan(u.closest(q).0));
    ts.cross(tu).abs() < 1e-4
}

fn pair(r: &mut Rec, s: &Seg, u: &Seg) -> bool {
    r.call();
    let (k, pts) = call(s, u);
    let edge = borderline(s, u);
    let tol = if edge { 1e-4 } else { 1e-6 };
    // sound
    for q in &pts {
        let d = s.dist(*q).max(u.dist(*q));
        if !r.check(d < tol, "intersect point is not on both segments", || format!("{k:?} {q:?} is {d} away")) {
            return false;
        }
    }
    let mut meets: Vec<P> = vec![];
    // (only points exactly on both count when epsilon decides)
    for q in meet_points(s, u, if edge { 1e-13 } else { 1e-8 }) {
        if !meets.iter().any(|m| m.dist(q) < 5e-5) {
            meets.push(q);
        }
    }
    let laps = overlaps(s, u, 1e-6);
    if edge {
        r.class("borderline: soundness and completeness with a wide tolerance");
        for q in &meets {
            let d = pts.iter().map(|x| x.dist(*q)).fold(9.0, f64::min);
            let in_lap = matches!(k, Kind::Lines | Kind::Arcs);
            let rad = s.arc.map_or(1.0, |k| k.r).max(u.arc.map_or(1.0, |k| k.r));
            if !r.check(d < 3.0 * (2.0 * rad * EPS).sqrt() + 1e-3 || in_lap, "intersect missed", || format!("{q:?}: {k:?} {pts:?}")) {
                return false;
            }
        }
        return true;
    }
    if laps.iter().any(|l| l.0.dist(l.1) < 1e-4) {
        r.class("not judged: overlap not longer than epsilon");
        return true;
    }
    if !laps.is_empty() {
        r.class("overlapping");
        let want = if s.is_arc() { Kind::Arcs } else { Kind::Lines };
        // two half circles: overlap may be the whole of both
        let (a, b) = laps[0];
        let (la, lb) = (u.closest(a).0, u.closest(b).0);
        let (a, b) = if la <= lb { (a, b) } else { (b, a) };
        if !r.check(k == want, "overlap not classified as overlapping", || format!("{k:?} {pts:?}, overlap from {a:?} to {b:?}")) {
            return false;
        }
        return r.check(pts[0].dist(a) < 1e-6 && pts[1].dist(b) < 1e-6, "overlap end points in the direction of the second segment", || {
            format!("{pts:?}, overlap from {a:?} to {b:?}")
        });
    }
    for q in &meets {
        let d = pts.iter().map(|x| x.dist(*q)).fold(9.0, f64::min);
        if !r.check(d < 5e-5, "intersect missed", || format!("{q:?}: {k:?} {pts:?}")) {
            return false;
        }
    }
    if !r.check(meets.len() == pts.len(), "number of intersect points", || format!("{k:?} {pts:?}, exact {meets:?}")) {
        return false;
    }
    let ok = match meets.len() {
        0 => k == Kind::None,
        1 => {
            let t = tangent_supports(s, u, meets[0]);
            if !t || (!s.is_arc() && !u.is_arc()) {
                k == Kind::One
            } else if same_support(s, u, 1e-6) {
                k == Kind::One
            } else {
                k == Kind::Tangent
            }
        }
        _ => k == Kind::Two,
    };
    r.class(match k {
        Kind::None => "none",
        Kind::Tangent => "tangent",
        Kind::One => "one",
        Kind::Two => "two",
        _ => "other",
    });
    if !r.check(ok, "classification", || format!("{k:?} {pts:?}, exact {meets:?}")) {
        return false;
    }
    if k == Kind::Two {
        let (a, b) = (u.closest(pts[0]).0, u.closest(pts[1]).0);
        if !r.check(a < b, "two intersects are ordered along the second segment", || format!("{pts:?} at {a} and {b}")) {
            return false;
        }
    }
    true
}

/// the underlying solvers on the supporting curves
fn solvers(r: &mut Rec, s: &Seg, u: &Seg) -> bool {
    r.call();
    match (s.arc, u.arc) {
        (None, None) => {
            let x = line_line_intr(v2(s.a), v2(s.b), v2(u.a), v2(u.b), EPS);
            let (d, e) = (s.b - s.a, u.b - u.a);
            let cr = d.unit().cross(e.unit()).abs();
            if cr > 1e-9 && cr < 1e-3 {
                return true;
            }
            let edge = borderline(s, u);
            let on = |t: f64, q: &Seg| t * q.len() > -1e-9 && (t - 1.0) * q.len() < 1e-9 && q.len() > 0.0;
            match x {
                LineLineIntr::NoIntersect => r.check(cr <= 1e-9 && (edge || meet_points(s, u, 1e-9).is_empty()), "line-line none", || format!("{x:?}")),
                LineLineIntr::TrueIntersect { seg1_t, seg2_t } | LineLineIntr::FalseIntersect { seg1_t, seg2_t } => {
                    let (a, b) = (s.a + d * seg1_t, u.a + e * seg2_t);
                    if !r.check(a.dist(b) < (if edge || cr <= 1e-9 { EPS } else { 1e-6 }) * (1.0 + a.len()), "line-line parametric values give different points", || format!("{x:?}: {a:?} {b:?}")) {
                        return false;
                    }
                    let both = on(seg1_t, s) && on(seg2_t, u);
                    let is_true = matches!(x, LineLineIntr::TrueIntersect { .. });
                    let wide = |t: f64, q: &Seg| t * q.len() > -EPS && (t - 1.0) * q.len() < EPS;
                    let ok = both == is_true || (is_true && wide(seg1_t, s) && wide(seg2_t, u));
                    r.check(edge || ok, "line-line true or false intersect", || format!("{x:?}"))
                }
                LineLineIntr::Overlapping { seg2_t0, seg2_t1 } => {
                    let l = overlaps(s, u, 1e-6);
                    if edge {
                        return true;
                    }
                    if !r.check(!l.is_empty(), "line-line overlap", || format!("{x:?}")) {
                        return false;
                    }
                    let (a, b) = (u.a + e * seg2_t0, u.a + e * seg2_t1);
                    let (la, lb) = l[0];
                    let ok = (a.dist(la) < 1e-6 && b.dist(lb) < 1e-6) || (a.dist(lb) < 1e-6 && b.dist(la) < 1e-6);
                    r.check(ok && seg2_t0 < seg2_t1, "line-line overlap ends", || format!("{x:?}: {a:?} {b:?} exact {l:?}"))
                }
            }
        }
        (None, Some(k)) | (Some(k), None) => {
            let l = if s.is_arc() { u } else { s };
            let x = line_circle_intr(v2(l.a), v2(l.b), k.r, v2(k.c), EPS);
            let t = l.tan(0.0);
            let d = l.b - l.a;
            let gap = (k.c - l.a).cross(t).abs() - k.r;
            let foot = (k.c - l.a).dot(t) / l.len();
            let near = gap.abs() > 1e-10 && gap.abs() < 1e-4;
            match x {
                LineCircleIntr::NoIntersect => r.check(gap > -1e-10, "line-circle none", || format!("{x:?} gap {gap}")),
                LineCircleIntr::TangentIntersect { t0 } => {
                    let ok = (gap.abs() < 1e-10 || near) && ((t0 - foot) * l.len()).abs() < 1e-3;
                    r.check(ok, "line-circle tangent", || format!("{x:?} gap {gap} foot {foot}"))
                }
                LineCircleIntr::TwoIntersects { t0, t1 } => {
                    let (a, b) = (l.a + d * t0, l.a + d * t1);
                    let ok = (a.dist(k.c) - k.r).abs() < 1e-6 && (b.dist(k.c) - k.r).abs() < 1e-6 && a.dist(b) > 1e-6;
                    r.check(ok && gap < 0.0, "line-circle two", || format!("{x:?} gap {gap}: {a:?} {b:?}"))
                }
            }
        }
        (Some(k), Some(m)) => {
            let x = circle_circle_intr(k.r, v2(k.c), m.r, v2(m.c), EPS);
            let d = k.c.dist(m.c);
            let gap = (d - k.r - m.r).max((k.r - m.r).abs() - d); // > 0: apart
            match x {
                CircleCircleIntr::NoIntersect => r.check(gap > -1e-10, "circle-circle none", || format!("{x:?} gap {gap}")),
                CircleCircleIntr::Overlapping => r.check(d < 1e-4 && (k.r - m.r).abs() < 1e-4, "circle-circle overlapping", || format!("{x:?}")),
                CircleCircleIntr::TangentIntersect { point } => {
                    let q = r2(point);
                    let ok = gap.abs() < 1e-4 && (q.dist(k.c) - k.r).abs() < 1e-4 && (q.dist(m.c) - m.r).abs() < 1e-4;
                    r.check(ok, "circle-circle tangent", || format!("{x:?} gap {gap}"))
                }
                CircleCircleIntr::TwoIntersects { point1, point2 } => {
                    let ok = [point1, point2].iter().all(|q| (r2(*q).dist(k.c) - k.r).abs() < 1e-6 && (r2(*q).dist(m.c) - m.r).abs() < 1e-6)
                        && r2(point1).dist(r2(point2)) > 1e-6;
                    r.check(ok && gap < 1e-10, "circle-circle two", || format!("{x:?} gap {gap}"))
                }
            }
        }
    }
}

fn sets(cx: &Ctx) -> Vec<(String, Vec<Seg>)> {
    let full = [0.0, Q8, -Q8, 1.0, -1.0];
    let mut o = vec![
        ("exact-3x3".to_string(), seg_set(&lattice(3, 3, 1.0, 0.0, 0), &full)),
        ("jittered-3x3".to_string(), seg_set(&lattice(3, 3, 1.0, 0.2, 11), &full)),
    ];
    let mut circ = circle_set(p(0.3, 0.2), 1.0, 8, 0.0);
    circ.extend(circle_set(p(2.3, 0.2), 1.0, 4, 0.0)); // externally tangent
    circ.extend(circle_set(p(0.3, -0.3), 0.5, 4, 0.0)); // internally tangent
    circ.extend(circle_set(p(0.3, 0.2), 0.5, 4, 0.3)); // concentric
    circ.extend(circle_set(p(1.3, 0.2), 1.0, 6, 0.1)); // crossing
    o.push(("circles".into(), circ.clone()));
    o.push(("exact-4x4".into(), seg_set(&lattice(4, 4, 1.0, 0.0, 0), &full)));
    o.push(("jittered-4x4".into(), seg_set(&lattice(4, 4, 1.0, 0.2, 5), &[0.0, 0.2, -0.2, 1.0, -0.7])));
    let mut c = circle_set(p(-0.7, 0.9), 1.3, 12, 0.2);
    c.extend(circle_set(p(-0.7, 0.9), 1.3, 9, 0.2));
    c.extend(circle_set(p(0.4, 0.9), 1.3, 8, 0.2));
    o.push(("circles-12".into(), c));
    // the same at other scales and places
    o.push(("circles-x100".into(), circ.iter().map(|s| Seg::new(s.a * 100.0, s.b * 100.0, s.bulge)).collect()));
    o.push(("exact-3x3-small".into(), seg_set(&lattice(3, 3, 0.003, 0.0, 0), &full)));
    let mut c = circ[..48].to_vec();
    for (dx, dy) in [(4e-9, 2e-3), (-4e-9, 0.01), (2e-8, -2e-3), (1e-6, 1.0)] {
        for q in [p(0.3, 0.1), p(0.8, -0.3), p(1.25, 0.2), p(0.5, 2.0)] {
            c.push(Seg::new(q, q + p(dx, dy), 0.0));
            c.push(Seg::new(q, q + p(dy, dx), 0.0));
        }
    }
    o.push(("steep".into(), c));
    o.push(("near-1".into(), near_set(&[1e-3, 1e-4, 4e-5, 3e-6, 1e-7], &[p(0.0, 0.0), p(1.0, 0.0), p(0.0, 1.0)], &full)));
    if cx.thorough {
        o.push(("exact-5x5".into(), seg_set(&lattice(5, 5, 0.5, 0.0, 0), &[0.0, Q8, -Q8, 1.0, -1.0, 0.2, -0.2, 1e-3, -0.9])));
        o.push(("jittered-5x5".into(), seg_set(&lattice(5, 5, 0.8, 0.25, 17), &[0.0, Q8, -Q8, 1.0, -1.0, 0.03, -0.6])));
        let b: Vec<f64> = (-10..=10).map(|k| k as f64 / 10.0).collect();
        o.push(("jittered-many-bulges".into(), seg_set(&lattice(3, 3, 1.1, 0.3, 23), &b)));
        o.push(("near-2".into(), near_set(&[3e-3, 5e-5, 2e-6, 1e-9], &[p(0.0, 0.0), p(1.0, 0.0), p(0.5, 0.5), p(2.0, 0.0)], &full)));
        let mut c = circle_set(p(0.0, 0.0), 1.0, 24, 0.0);
        c.extend(circle_set(p(2.0, 0.0), 1.0, 24, 0.0));
        c.extend(circle_set(p(0.5, 0.0), 0.5, 16, 0.0));
        c.extend(circle_set(p(0.0, 1.5), 0.5, 16, 0.0));
        c.extend(circle_set(p(1.0, 0.0), 1.0, 12, 0.0));
        o.push(("circles-24".into(), c));
    }
    let m = p(137.25, -64.5);
    o.push(("circles-moved".into(), circ.iter().map(|s| Seg::new(s.a + m, s.b + m, s.bulge)).collect()));
    o
}

pub fn p14(cx: &Ctx) -> i32 {
    for (name, set) in sets(cx) {
        cx.space(&name, set.len() * set.len(), |i, r| {
            let (s, u) = (&set[i / set.len()], &set[i % set.len()]);
            if name.starts_with("near") && shallow(s, u) {
                return r.class("not judged: shallow crossing within epsilon");
            }
            r.case(|| format!("{} with {}", sh(s), sh(u)));
            if !pair(r, s, u) {
                return;
            }
            // swapped and inverted: both orders of the pair and both directions are in the set, so
            // only the agreement between them is left to be checked here
            let (k, pts) = call(s, u);
            for (t, x, y) in [("swapped", *u, *s), ("first inverted", s.rev(), *u), ("second inverted", *s, u.rev())] {
                r.call();
                let (k2, p2) = call(&x, &y);
                let tol = if name.starts_with("near") { 3.0 * EPS } else { 1e-6 * (1.0 + s.len()) };
                if borderline(s, u) {
                    continue;
                }
                let same = p2.len() == pts.len() && pts.iter().all(|q| p2.iter().any(|w| w.dist(*q) < tol)) && k == k2;
                if !r.check(same, "not symmetric", || format!("{k:?} {pts:?}, {t}: {k2:?} {p2:?}")) {
                    return;
                }
            }
            solvers(r, s, u);
        });
    }
    // the solvers with points in place of lines
    let q: Vec<P> = lattice(4, 4, 0.5, 0.0, 0).into_iter().chain(lattice(3, 3, 0.7, 0.25, 3)).collect();
    let l: Vec<Seg> = q.iter().take(16).flat_map(|a| q.iter().take(16).filter(move |b| a.dist(**b) > 0.1).map(move |b| Seg::new(*a, *b, 0.0))).collect();
    let tiny = [p(0.0, 0.0), p(1e-6, 0.0), p(-2e-6, 1e-6)];
    cx.space("point-line-solver", q.len() * l.len() * tiny.len(), |i, r| {
        let (a, s, e) = (q[i % q.len()], &l[i / q.len() % l.len()], tiny[i / q.len() / l.len()]);
        let b = a + e;
        r.case(|| format!("point {a:?} {b:?} with {}", sh(s)));
        let d = s.dist(a);
        if d > 1e-12 && d < 1e-3 {
            return r.class("not judged: within epsilon of the line");
        }
        r.class(if d < 1e-12 { "on the line" } else { "off the line" });
        for swap in [false, true] {
            r.call();
            let x = if swap { line_line_intr(v2(s.a), v2(s.b), v2(a), v2(b), EPS) } else { line_line_intr(v2(a), v2(b), v2(s.a), v2(s.b), EPS) };
            match x {
                LineLineIntr::TrueIntersect { seg1_t, seg2_t } => {
                    let t = if swap { seg1_t } else { seg2_t };
                    r.check(d < 1e-12 && (s.a + (s.b - s.a) * t).dist(a) < 2.0 * EPS, "point on a line", || format!("swap {swap}: {x:?}"));
                }
                LineLineIntr::NoIntersect => {
                    r.check(d > 1e-12, "point on a line is missed", || format!("swap {swap}"));
                }
                _ => {
                    r.check(e.len() > 0.0 && d > 1e-12, "point and line", || format!("swap {swap}: {x:?}"));
                }
            }
        }
    });
    cx.space("point-point-solver", q.len() * q.len(), |i, r| {
        let (a, b) = (q[i % q.len()], q[i / q.len()]);
        r.case(|| format!("points {a:?} {b:?}"));
        r.call();
        let x = line_line_intr(v2(a), v2(a), v2(b), v2(b), EPS);
        let same = a.dist(b) == 0.0;
        r.check(same == matches!(x, LineLineIntr::TrueIntersect { .. }) && (same || matches!(x, LineLineIntr::NoIntersect)), "two points", || format!("{x:?}"));
    });
    cx.space("point-circle-solver", q.len() * q.len() * 4 * tiny.len(), |i, r| {
        let (a, c) = (q[i % q.len()], q[i / q.len() % q.len()]);
        let rad = [0.5, 1.0, 1.25, 2.0f64.sqrt()][i / q.len() / q.len() % 4];
        let b = a + tiny[i / q.len() / q.len() / 4];
        r.case(|| format!("point {a:?} {b:?} with circle {c:?} {rad}"));
        let gap = (a.dist(c) - rad).abs();
        r.call();
        let x = line_circle_intr(v2(a), v2(b), rad, v2(c), EPS);
        if gap < 1e-12 {
            r.class("on the circle");
            let ok = matches!(x, LineCircleIntr::TangentIntersect { t0 } if (a + (b - a) * t0).dist(a) < 2.0 * EPS);
            r.check(ok, "point on a circle", || format!("{x:?}"));
        } else if gap > 1e-3 {
            r.class("off the circle");
            r.check(matches!(x, LineCircleIntr::NoIntersect), "point off a circle", || format!("{x:?}"));
        }
    });
    // one segment ends within epsilon of an inner point of the other: the touch is reported
    let hosts: Vec<Seg> = [0.0, 1.0, -1.0, 0.5, -0.5, 0.1].iter().flat_map(|b| [Seg::new(p(0.0, 0.0), p(2.0, 0.0), *b), Seg::new(p(-1.3, 0.4), p(1.1, 2.3), *b)]).collect();
    let ts = [0.25, 0.5, 0.7];
    let offs = [0.0, 1e-9, -1e-9, 1e-7, -1e-7, 1e-6, -1e-6, 3e-6, -3e-6];
    let phis: Vec<f64> = [0.0, 1e-3, 1e-2, 0.1, 0.5, 1.2].iter().flat_map(|a| [*a, -*a, PI - *a, PI + *a]).chain([PI / 2.0, -PI / 2.0]).collect();
    let lens = [0.05, 0.4, 3.0];
    let bs = [0.0, 0.2, -0.2, 1.0, -1.0];
    cx.space("touch", hosts.len() * ts.len() * offs.len() * phis.len() * lens.len() * bs.len(), |i, r| {
        let (h, i) = (&hosts[i % hosts.len()], i / hosts.len());
        let (t, i) = (ts[i % ts.len()], i / ts.len());
        let (off, i) = (offs[i % offs.len()], i / offs.len());
        let (phi, i) = (phis[i % phis.len()], i / phis.len());
        let (len, b) = (lens[i % lens.len()], bs[i / lens.len()]);
        let d = h.tan(t);
        let e = h.at(t) + p(-d.y, d.x) * off;
        let u = Seg::new(e, e + p(d.x * phi.cos() - d.y * phi.sin(), d.x * phi.sin() + d.y * phi.cos()) * len, b);
        if !(h.is_arc() && !u.is_arc()) && off != 0.0 && d.cross(u.tan(0.0)).abs() < 0.5 {
            return r.class("not judged: shallow meeting beyond an end that only lines snap to");
        }
        let rad = h.arc.map_or(1.0, |k| k.r).max(u.arc.map_or(1.0, |k| k.r));
        let tol = 3.0 * (2.0 * rad * EPS).sqrt() + 1e-3;
        for (x, y) in [(*h, u), (u, *h), (*h, u.rev()), (u.rev(), *h), (h.rev(), u), (u, h.rev())] {
            r.case(|| format!("{} with {}", sh(&x), sh(&y)));
            r.call();
            let (k, pts) = call(&x, &y);
            let near = pts.iter().map(|q| q.dist(e)).fold(9.0, f64::min);
            if !r.check(near < tol, "end point on the other segment is not an intersect", || format!("{k:?} {pts:?}")) {
                return;
            }
            if !r.check(pts.iter().all(|q| h.dist(*q).max(u.dist(*q)) < 2.0 * EPS), "intersect point is not on both segments", || format!("{k:?} {pts:?}")) {
                return;
            }
        }
    });
    cx.note("Pairs whose ends or tangency lie within 1e-3 of, but not on, an epsilon decision are checked for soundness and completeness with a wider tolerance; classification there depends on epsilon.");
    cx.finish("all ordered pairs of all segments over lattices (exact, jittered) and over points of equal, concentric, tangent and crossing circles; every result compared with exact meeting points and overlap stretches, and with the swapped and inverted calls")
}
pub fn p15(cx: &Ctx) -> i32 {
    let mut all = sets(cx);
    all.retain(|x| !x.0.starts_with("near"));
    all.push(("jittered-bulges".into(), {
        let b: Vec<f64> = (-20..=20).map(|k| k as f64 / 20.0).collect();
        seg_set(&lattice(3, 3, 1.3, 0.3, 3), &b)
    }));
    all.push(("exact-5x5-bulges".into(), seg_set(&lattice(5, 5, 0.5, 0.0, 0), &[0.0, 1.0, -1.0, Q8, -Q8, 0.2, -0.2, 1e-4, -1e-3])));
    let grid: Vec<P> = (0..100).map(|i| p((i % 10) as f64 * 0.5 - 1.0, (i / 10) as f64 * 0.5 - 1.0)).collect();
    for (name, set) in all {
        cx.space(&name, set.len(), |i, r| {
            let s = &set[i];
            r.case(|| sh(s));
            let (a, b) = vs(s);
            let l = s.len();
            let sc = 1.0 + s.arc.map(|k| k.r).unwrap_or(0.0) + s.a.len();
            let tol = 1e-9 * sc * sc;
            r.class(if s.is_arc() { "arc" } else { "line" });
            r.call();
            let g = seg_length(a, b);
            r.check((g - l).abs() < tol, "length", || format!("{g} exact {l}"));
            let g = r2(seg_midpoint(a, b));
            r.check(g.dist(s.at(0.5)) < tol, "midpoint", || format!("{g:?} exact {:?}", s.at(0.5)));
            if let Some(k) = s.arc {
                let (rr, c) = seg_arc_radius_and_center(a, b);
                r.check((rr - k.r).abs() < tol && r2(c).dist(k.c) < tol, "radius and center", || format!("{rr} {c:?} exact {} {:?}", k.r, k.c));
                let sw = angle_from_bulge(a.bulge);
                r.check((sw - k.sw).abs() < 1e-12, "angle from bulge", || format!("{sw} exact {}", k.sw));
                r.check((bulge_from_angle(sw) - s.bulge).abs() < 1e-12, "bulge from angle", || format!("{}", bulge_from_angle(sw)));
            }
            let t = s.bounds();
            let e = seg_bounding_box(a, b);
            let ok = (e.min_x - t.0).abs() < tol + 1e-8 && (e.min_y - t.1).abs() < tol + 1e-8 && (e.max_x - t.2).abs() < tol + 1e-8 && (e.max_y - t.3).abs() < tol + 1e-8;
            if !r.check(ok, "bounding box is tight", || format!("{e:?} exact {t:?}")) {
                return;
            }
            let e = seg_fast_approx_bounding_box(a, b);
            let ok = e.min_x <= t.0 + tol && e.min_y <= t.1 + tol && e.max_x >= t.2 - tol && e.max_y >= t.3 - tol;
            if !r.check(ok, "approximate bounding box contains the segment", || format!("{e:?} exact {t:?}")) {
                return;
            }
            // never larger than the box of the chord widened by the sagitta on both sides
            let h = s.bulge.abs() * s.a.dist(s.b) / 2.0;
            let loose = e.min_x >= s.a.x.min(s.b.x) - h - tol && e.max_x <= s.a.x.max(s.b.x) + h + tol && e.min_y >= s.a.y.min(s.b.y) - h - tol && e.max_y <= s.a.y.max(s.b.y) + h + tol;
            if !r.check(loose, "approximate bounding box exceeds the sagitta", || format!("{e:?} exact {t:?}")) {
                return;
            }
            for k in 0..=20 {
                let t = k as f64 / 20.0;
                let q = s.at(t);
                r.call();
                // tangent
                let g = r2(seg_tangent_vector(a, b, v2(q)));
                if !r.check(g.len() > 0.0 && g.unit().dist(s.tan(t)) < 1e-7 * sc, "tangent vector", || format!("at {t}: {g:?} exact {:?}", s.tan(t))) {
                    return;
                }
                // split
                let w = seg_split_at_point(a, b, v2(q), EPS);
                let (c, d) = (w.updated_start, w.split_vertex);
                let first = Seg::new(p(c.x, c.y), p(d.x, d.y), c.bulge);
                let second = Seg::new(p(d.x, d.y), s.b, d.bulge);
                let both = [(&first, 0.0, t), (&second, t, 1.0)];
                for (h, t0, t1) in both {
                    if (t1 - t0) * l < 3.0 * EPS {
                        // degenerate half: a point, which sweeps no angle
                        if !r.check(h.bulge.abs() < 1e-4, "split at an end keeps a bulge", || format!("at {t}: {c:?} {d:?}")) {
                            return;
                        }
                        if !r.check(h.a.dist(s.at(t0)) < 2.0 * EPS && h.b.dist(s.at(t1)) < 2.0 * EPS, "split at an end", || format!("at {t}: {c:?} {d:?}")) {
                            return;
                        }
                        continue;
                    }
                    for m in [0.0, 0.25, 0.5, 0.75, 1.0] {
                        let (x, y) = (h.at(m), s.at(t0 + (t1 - t0) * m));
                        if !r.check(x.dist(y) < 1e-7 * sc, "split changes the curve", || format!("at {t}: {c:?} {d:?}: {x:?} exact {y:?}")) {
                            return;
                        }
                    }
                }
            }
            // closest points
            let mut qs = grid.clone();
            if let Some(k) = s.arc {
                for f in [0.0, 0.1, 0.9, 1.1, 3.0] {
                    for m in 0..16 {
                        let g = m as f64 * PI / 8.0;
                        qs.push(k.c + p(g.cos(), g.sin()) * (k.r * f));
                    }
                    qs.push(k.c + (s.a - k.c) * f);
                    qs.push(k.c + (s.b - k.c) * f);
                }
                for f in [1e-6, 2e-5, 5e-4] {
                    for m in 0..16 {
                        let g = m as f64 * PI / 8.0;
                        qs.push(k.c + p(g.cos(), g.sin()) * f);
                    }
                }
            } else {
                for m in -4..9 {
                    let t = m as f64 / 4.0;
                    let d = s.b - s.a;
                    qs.push(s.a + d * t);
                    qs.push(s.a + d * t + d.left() * 0.3);
                }
            }
            for q in qs {
                r.call();
                let g = r2(seg_closest_point(a, b, v2(q), 1e-9));
                let want = s.dist(q);
                if !r.check((g.dist(q) - want).abs() < 1e-7 * sc && s.dist(g) < 1e-7 * sc, "closest point", || format!("to {q:?}: {g:?} at {} exact {want}", g.dist(q))) {
                    return;
                }
            }
        });
    }
    cx.finish("all segments over lattices and circles x bulge alphabet x 21 parameters (split, tangent) and query grids (closest point); every function compared with the exact curve")
}

pub fn p26(cx: &Ctx) -> i32 {
    // angles
    let mut ang: Vec<f64> = vec![];
    for k in -72..=72 {
        for d in [0.0, 1e-3, -1e-3] {
            ang.push(k as f64 * PI / 12.0 + d);
        }
    }
    for k in [-100.0, -17.3, -6.9, 25.0, 40.1, 1e4] {
        ang.push(k);
    }
    let n = ang.len();
    let cong = |a: f64, b: f64| {
        let d = (a - b) / TAU;
        (d - d.round()).abs() * TAU
    };
    cx.space("angle-pairs", n * n, |i, r| {
        let (a, b) = (ang[i / n], ang[i % n]);
        r.case(|| format!("angles {a} and {b}"));
        r.call();
        let g = normalize_radians(a);
        r.check(g >= 0.0 && g <= TAU + 1e-12 && cong(g, a) < 1e-9, "normalize_radians", || format!("{a}: {g}"));
        let d = delta_angle(a, b);
        // the shortest signed turn from a to b
        let x = norm2pi(b - a);
        let want = if x > PI { x - TAU } else { x };
        let amb = (x - PI).abs() < 1e-9 || x < 1e-9 || TAU - x < 1e-9;
        let ok = cong(d, b - a) < 1e-9 && d.abs() <= PI + 1e-9 && (amb || (d - want).abs() < 1e-9);
        r.check(ok, "delta_angle", || format!("{d} exact {want}"));
        for neg in [true, false] {
            let s = delta_angle_signed(a, b, neg);
            r.check((s.abs() - d.abs()).abs() < 1e-12 && (if neg { s <= 0.0 } else { s >= 0.0 }), "delta_angle_signed", || format!("{neg}: {s} of {d}"));
        }
        r.class(if amb { "half or whole turn" } else { "generic" });
    });
    let m: Vec<f64> = (-30..=30).map(|k| k as f64 * PI / 12.0 + 0.01).collect();
    let st: Vec<f64> = (-12..=24).map(|k| k as f64 * PI / 6.0).collect();
    let sw: Vec<f64> = (-11..=11).map(|k| k as f64 * PI / 6.0).collect();
    cx.space("angle-sweeps", m.len() * st.len() * sw.len(), |i, r| {
        let t = m[i % m.len()];
        let s = st[i / m.len() % st.len()];
        let w = sw[i / m.len() / st.len()];
        r.case(|| format!("test {t} start {s} sweep {w}"));
        r.call();
        let within = if w >= 0.0 { norm2pi(t - s) <= w } else { norm2pi(s - t) <= -w };
        r.class(if within { "within" } else { "outside" });
        let g = angle_is_within_sweep(t, s, w);
        r.check(g == within, "angle_is_within_sweep", || format!("{g}"));
        // inclusive at both ends and fuzzy by epsilon
        for (q, on) in [(s, true), (s + w, true), (s + w + 1e-9 * w.signum(), true), (s - 1e-9 * w.signum(), true), (s + w + 0.3 * w.signum(), w.abs() + 0.3 >= TAU)] {
            let g = angle_is_within_sweep(q, s, w);
            if w == 0.0 && q != s {
                continue;
            }
            r.check(g == on, "angle_is_within_sweep at an end", || format!("{q}: {g}"));
        }
        let e = s + w;
        let btw = norm2pi(t - s) <= norm2pi(e - s);
        let g = angle_is_between(t, s, e);
        r.check(g == btw, "angle_is_between", || format!("end {e}: {g}"));
        for eps in [0.02, 0.2] {
            let rel = norm2pi(t - s);
            let end = norm2pi(e - s);
            if (rel - end - eps).abs() > 1e-9 && (rel - TAU + eps).abs() > 1e-9 {
                let g = angle_is_between_eps(t, s, e, eps);
                r.check(g == (rel < end + eps || rel > TAU - eps), "angle_is_between_eps", || format!("end {e} eps {eps}: {g}"));
                let g = angle_is_within_sweep_eps(t, s, w, eps);
                let x = if w >= 0.0 { norm2pi(t - s) } else { norm2pi(t - s - w) };
                let want = x < w.abs() + eps || x > TAU - eps;
                let edge = (x - w.abs() - eps).abs() < 1e-9 || (x - TAU + eps).abs() < 1e-9;
                r.check(g == want || edge, "angle_is_within_sweep_eps", || format!("eps {eps}: {g}"));
            }
        }
    });
    // quadratics with known roots
    let roots: Vec<f64> = vec![0.0, -1e8, -1e4, -37.5, -3.0, -1.0, -0.5, -1e-3, 1e-3, 0.25, 1.0, 2.0, 11.0, 1e4];
    let lead = [1.0, -1.0, 0.125, 7.0, -300.0];
    cx.space("quadratics", roots.len() * roots.len() * lead.len(), |i, r| {
        let a = lead[i % lead.len()];
        let x = roots[i / lead.len() % roots.len()];
        let y = roots[i / lead.len() / roots.len()];
        r.case(|| format!("{a}(x-{x})(x-{y})"));
        let (b, c) = (-a * (x + y), a * x * y);
        let d = (b * b - 4.0 * a * c).max(0.0).sqrt();
        r.call();
        let (s, t) = quadratic_solutions(a, b, c, d);
        let near = |u: f64, v: f64| (u - v).abs() <= 1e-6 * (1.0 + v.abs()) || (x == y && (u - v).abs() <= 1e-5 * (1.0 + v.abs()));
        // relative accuracy also of the small root (that is what the careful form is for)
        let fine = |u: f64, v: f64| (u - v).abs() <= 1e-9 * v.abs() || (x - y).abs() < 1e-2 * (x.abs() + y.abs()) && near(u, v);
        r.check((fine(s, x) && fine(t, y)) || (fine(s, y) && fine(t, x)), "quadratic_solutions", || format!("{s} {t}"));
        r.class(if x == y { "double root" } else { "two roots" });
    });
    // points and lines
    let pts: Vec<P> = {
        let mut v = lattice(4, 4, 1.0, 0.0, 0);
        v.extend(lattice(3, 3, 1.0, 0.3, 9));
        v.push(p(1e3, -5e2));
        v.push(p(0.0, 0.0));
        v
    };
    let k = pts.len();
    cx.space("points", k * k * k, |i, r| {
        let (a, b, q) = (pts[i % k], pts[i / k % k], pts[i / k / k]);
        r.case(|| format!("{a:?} {b:?} {q:?}"));
        let (va, vb, vq) = (v2(a), v2(b), v2(q));
        r.call();
        let cr = (b - a).cross(q - a);
        let sure = cr == 0.0 && a.x.fract() == 0.0 && b.x.fract() == 0.0 && q.x.fract() == 0.0 && a.y.fract() == 0.0 && b.y.fract() == 0.0 && q.y.fract() == 0.0;
        if cr.abs() > 1e-7 || sure {
            r.check(is_left(va, vb, vq) == (cr > 0.0), "is_left", || format!("cross {cr}"));
            r.check(is_left_or_equal(va, vb, vq) == (cr >= 0.0), "is_left_or_equal", || format!("cross {cr}"));
            r.check(is_left_or_coincident(va, vb, vq) == (cr >= 0.0), "is_left_or_coincident", || format!("cross {cr}"));
            r.check(is_right_or_coincident(va, vb, vq) == (cr <= 0.0), "is_right_or_coincident", || format!("cross {cr}"));
        }
        for eps in [0.5, 2.0] {
            if (cr.abs() - eps).abs() > 1e-6 {
                r.check(is_left_or_coincident_eps(va, vb, vq, eps) == (cr > -eps), "is_left_or_coincident_eps", || format!("cross {cr} eps {eps}"));
                r.check(is_right_or_coincident_eps(va, vb, vq, eps) == (cr < eps), "is_right_or_coincident_eps", || format!("cross {cr} eps {eps}"));
            }
        }
        // sector of the arc a -> b around q
        for cw in [true, false] {
            let u = pts[(i * 7 + 3) % k] - q;
            let (s, e) = (a - q, b - q);
            let turn = s.cross(e);
            let tol = 1e-6;
            if s.len() < 1e-6 || e.len() < 1e-6 || u.len() < 1e-6 || turn.abs() < tol || s.cross(u).abs() < tol || u.cross(e).abs() < tol {
                continue;
            }
            if (turn > 0.0) == cw {
                continue; // more than a half turn: not a sector the function is defined for
            }
            let want = if cw { s.cross(u) < 0.0 && u.cross(e) < 0.0 } else { s.cross(u) > 0.0 && u.cross(e) > 0.0 };
            let g = point_within_arc_sweep(vq, va, vb, cw, v2(q + u), 1e-7);
            r.check(g == want, "point_within_arc_sweep", || format!("{cw} {u:?}: {g}"));
            // inclusive at both rays
            for w in [s, e] {
                r.check(point_within_arc_sweep(vq, va, vb, cw, v2(q + w * 1.5), 1e-7 * (1.0 + w.dot(w))), "point_within_arc_sweep on a ray", || format!("{cw} {w:?}"));
            }
        }
        let s = Seg::new(a, b, 0.0);
        let g = r2(line_seg_closest_point(va, vb, vq));
        r.check((g.dist(q) - s.dist(q)).abs() < 1e-7 && s.dist(g) < 1e-7, "line_seg_closest_point", || format!("{g:?} exact distance {}", s.dist(q)));
        let g = r2(midpoint(va, vb));
        r.check(g.dist((a + b) * 0.5) < 1e-12, "midpoint", || format!("{g:?}"));
        r.check((dist_squared(va, vb) - a.dist(b).powi(2)).abs() < 1e-6, "dist_squared", || format!("{}", dist_squared(va, vb)));
        if a.dist(b) > 1e-9 {
            let g = angle(va, vb);
            r.check(p(g.cos(), g.sin()).dist((b - a).unit()) < 1e-9, "angle", || format!("{g}"));
            for t in [-1.0, 0.0, 0.3, 1.0, 2.5] {
                let w = point_from_parametric(va, vb, t);
                r.check(r2(w).dist(a + (b - a) * t) < 1e-9 * (1.0 + a.len() + b.len()), "point_from_parametric", || format!("{t}: {w:?}"));
                let back = parametric_from_point(va, vb, w, 1e-5);
                r.check((back - t).abs() < 1e-9 * (1.0 + a.len() / a.dist(b)), "parametric_from_point", || format!("{t}: {back}"));
            }
        }
        // circles
        for g in [0.0, 0.4, PI, -2.0, 7.0] {
            let w = r2(point_on_circle(1.75, va, g));
            r.check(w.dist(a + p(g.cos(), g.sin()) * 1.75) < 1e-9, "point_on_circle", || format!("{g}: {w:?}"));
            let w = r2(va.rotate_about(vb, g));
            let d = a - b;
            let want = b + p(d.x * g.cos() - d.y * g.sin(), d.x * g.sin() + d.y * g.cos());
            r.check(w.dist(want) < 1e-9 * (1.0 + d.len()), "rotate_about", || format!("{g}: {w:?} exact {want:?}"));
        }
        // vectors
        r.check(r2(va + vb) == a + b && r2(va - vb) == a - b && r2(-va) == -a, "vector add, sub, neg", || format!("{va:?} {vb:?}"));
        r.check((va.dot(vb) - a.dot(b)).abs() < 1e-9 && (va.perp_dot(vb) - a.cross(b)).abs() < 1e-9, "dot products", || format!("{va:?} {vb:?}"));
        r.check((va.length() - a.len()).abs() < 1e-9 && (va.length_squared() - a.dot(a)).abs() < 1e-6, "length", || format!("{va:?}"));
        r.check(r2(va.perp()) == a.left() && r2(va.scale(-2.5)) == a * -2.5, "perp and scale", || format!("{va:?}"));
        if a.len() > 0.0 {
            r.check(r2(va.normalize()).dist(a.unit()) < 1e-12 && r2(va.unit_perp()).dist(a.unit().left()) < 1e-12, "normalize", || format!("{va:?}"));
        }
        for eps in [1e-9, 0.75, 3.0] {
            let want = (a.x - b.x).abs() < eps && (a.y - b.y).abs() < eps;
            r.check(va.fuzzy_eq_eps(vb, eps) == want, "vector fuzzy_eq_eps", || format!("{eps}"));
        }
        r.class(if cr > 0.0 { "left" } else if cr < 0.0 { "right" } else { "collinear" });
        let (lo, hi) = min_max(a.x, b.x);
        r.check(lo == a.x.min(b.x) && hi == a.x.max(b.x), "min_max", || format!("{lo} {hi}"));
    });
    // fuzzy comparisons of numbers and vertexes
    let num: Vec<f64> = vec![-5.0, -1.0, -0.5, -1e-6, -1e-9, 0.0, 1e-9, 1e-6, 0.25, 0.5, 1.0, 1.0 + 1e-9, 1.0 + 1e-6, 2.0, 5.0];
    let eps = [1e-10, 1e-8, 1e-5, 0.3, 2.0];
    cx.space("fuzzy", num.len() * num.len() * num.len() * eps.len(), |i, r| {
        let n = num.len();
        let (a, b, c, e) = (num[i % n], num[i / n % n], num[i / n / n % n], eps[i / n / n / n]);
        r.case(|| format!("{a} {b} {c} eps {e}"));
        r.call();
        let edge = ((a - b).abs() - e).abs() < 1e-12;
        if !edge {
            let eq = (a - b).abs() < e;
            r.check(a.fuzzy_eq_eps(b, e) == eq, "fuzzy_eq_eps", || format!("{}", !eq));
            r.check(a.fuzzy_gt_eps(b, e) == (a + e > b), "fuzzy_gt_eps", || "".into());
            r.check(a.fuzzy_lt_eps(b, e) == (a < b + e), "fuzzy_lt_eps", || "".into());
            r.check((a.fuzzy_gt_eps(b, e) && a.fuzzy_lt_eps(b, e)) == eq, "fuzzy order consistent with equality", || "".into());
            r.class(if eq { "equal" } else { "different" });
        }
        if (a.abs() - e).abs() > 1e-13 {
            r.check(a.fuzzy_eq_zero_eps(e) == (a.abs() < e), "fuzzy_eq_zero_eps", || "".into());
        }
        let (lo, hi) = (b.min(c), b.max(c));
        if ((a - lo).abs() - e).abs() > 1e-12 && ((a - hi).abs() - e).abs() > 1e-12 {
            r.check(a.fuzzy_in_range_eps(lo, hi, e) == (a > lo - e && a < hi + e), "fuzzy_in_range_eps", || "".into());
        }
        let v = PlineVertex::new(a, b, c);
        let w = PlineVertex::new(b, a, c);
        if !edge {
            r.check(v.fuzzy_eq_eps(w, e) == ((a - b).abs() < e), "vertex fuzzy_eq_eps", || "".into());
            let w = PlineVertex::new(c, c, a);
            let v = PlineVertex::new(c, c, b);
            r.check(v.fuzzy_eq_eps(w, e) == ((a - b).abs() < e), "vertex fuzzy_eq_eps of bulge", || "".into());
        }
        let z = PlineVertex::new(a, b, c);
        r.check(z.bulge_is_zero() == (c.abs() < 1e-8) , "bulge_is_zero", || format!("{c}"));
        if c.abs() > 1e-7 {
            r.check(z.bulge_is_pos() == (c > 0.0) && z.bulge_is_neg() == (c < 0.0), "bulge sign", || format!("{c}"));
        }
        r.check(z.pos().x == a && z.pos().y == b && z.with_bulge(b).bulge == b && z.with_bulge(b).x == a, "vertex parts", || format!("{z:?}"));
    });
    // default epsilon of both number types
    cx.space("defaults", 1, |_, r| {
        r.case(|| "default epsilon".into());
        r.check(f64::fuzzy_epsilon() > 0.0 && f64::fuzzy_epsilon() < 1e-5, "fuzzy_epsilon", || format!("{}", f64::fuzzy_epsilon()));
        r.check(1.0f64.fuzzy_eq(1.0 + 1e-12) && !1.0f64.fuzzy_eq(1.001), "fuzzy_eq", || "".into());
        r.check((f64::tau() - TAU).abs() < 1e-15 && (f64::pi() - PI).abs() < 1e-15 && f64::two() == 2.0 && f64::four() == 4.0, "constants", || "".into());
    });
    cx.finish("all pairs and triples of finite sets of angles, sweeps, points, roots and numbers; every helper compared with its defining identity")
}
