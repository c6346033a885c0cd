//! P04-P07: parallel offsets of single polylines against the exact offset curve.
use crate::gen::*;
use crate::geo::*;
use crate::run::*;
use cavalier_contours::polyline::*;

pub const TOL: f64 = 2.5e-4;
const DELTA: f64 = 5e-3;
const MIN_EDGE: f64 = 2e-2;

/// structural validity of a result polyline
pub fn shape_error(q: &Path, want_closed: Option<bool>) -> Option<String> {
    if q.v.len() < 2 {
        return Some(format!("{} has fewer than 2 vertices", show(q)));
    }
    if let Some(c) = want_closed {
        if q.closed != c {
            return Some(format!("{} has wrong closedness", show(q)));
        }
    }
    for s in q.segs() {
        if !(s.a.x.is_finite() && s.a.y.is_finite() && s.bulge.is_finite()) {
            return Some(format!("{} is not finite", show(q)));
        }
        if s.a.dist(s.b) < 9e-6 {
            return Some(format!("{} has adjacent repeat positions", show(q)));
        }
    }
    None
}

/// Every point of the result is at distance |d| from the input.
pub fn distance_error(segs: &[Seg], d: f64, q: &Path) -> Option<String> {
    for s in q.segs() {
        for t in [0.0, 0.25, 0.5, 0.75, 1.0] {
            let m = s.at(t);
            let e = dist_segs(segs, m) - d.abs();
            // slivers shorter than ten times the documented tolerance are held to a coarser measure
            if e.abs() > if s.len() < 1e-3 { 2.0 * TOL } else { TOL } {
                return Some(format!(
                    "point ({:.6},{:.6}) of {} is at distance |d|{:+.6} from the input",
                    m.x, m.y, show(q), e
                ));
            }
        }
    }
    None
}

pub struct Edge {
    pub m: P,
    pub near: P,
    pub far: P,
}

/// Everything the offset curve can consist of: offset segments on both sides, circles at the ends.
pub fn primitives(segs: &[Seg], d: f64) -> Vec<Seg> {
    let mut prim: Vec<Seg> = vec![];
    for s in segs {
        for k in [d, -d] {
            if let Some(o) = s.offset(k) {
                prim.push(o);
            }
        }
        prim.extend(circle(s.a, d.abs()));
        prim.extend(circle(s.b, d.abs()));
    }
    prim
}

/// All edges of the true offset curve of `segs` (closed boundary set, any number of loops) on the
/// side selected by `side`, decided by brute force on the arrangement of all primitive offsets.
pub fn true_edges(segs: &[Seg], d: f64, side: &dyn Fn(P) -> bool) -> Vec<Edge> {
    let r = d.abs();
    let prim = primitives(segs, d);
    let mut out: Vec<Edge> = vec![];
    sub_edges(&prim, &prim, MIN_EDGE, |_, s, t0, t1| {
        let tm = (t0 + t1) / 2.0;
        let m = s.at(tm);
        if (dist_segs(segs, m) - r).abs() > 1e-6 || !side(m) {
            return;
        }
        let n = s.tan(tm).left();
        let (p1, p2) = (m + n * DELTA, m - n * DELTA);
        let (d1, d2) = (dist_segs(segs, p1), dist_segs(segs, p2));
        let (near, far, dn, df) = if d1 < d2 { (p1, p2, d1, d2) } else { (p2, p1, d2, d1) };
        if dn < r - DELTA * 0.5 && df > r + DELTA * 0.5 && !out.iter().any(|e: &Edge| e.m.dist(m) < 1e-7) {
            out.push(Edge { m, near, far });
        }
    });
    out
}

pub struct Input {
    pub path: Path,
    pub segs: Vec<Seg>,
    pub ccw: bool,
}
impl Input {
    pub fn new(path: &Path) -> Input {
        Input { segs: path.segs(), ccw: path.area() > 0.0, path: path.clone() }
    }
    pub fn inward(&self, d: f64) -> bool {
        (d > 0.0) == self.ccw
    }
    pub fn edges(&self, d: f64) -> Vec<Edge> {
        let inw = self.inward(d);
        true_edges(&self.segs, d, &|m| (winding(&self.segs, m) != 0) == inw)
    }
    /// P04: soundness of the results
    pub fn sound(&self, d: f64, res: &[Path]) -> Option<String> {
        let inw = self.inward(d);
        for q in res {
            if let Some(e) = shape_error(q, Some(true)) {
                return Some(e);
            }
            if let Some(e) = distance_error(&self.segs, d, q) {
                return Some(e);
            }
            for s in q.segs() {
                let m = s.at(0.5);
                if (winding(&self.segs, m) != 0) != inw {
                    return Some(format!("point ({:.6},{:.6}) of {} is on the wrong side", m.x, m.y, show(q)));
                }
            }
            if let Some(e) = self_cross(q) {
                return Some(format!("{} crosses itself at ({:.6},{:.6})", show(q), e.x, e.y));
            }
            // direction: a loop inside the input keeps its direction; a loop around it as well
            let area = q.area();
            if area.abs() > 1e-3 {
                let keep = if inw {
                    true
                } else {
                    // around the input?
                    winding(&q.segs(), self.segs[0].at(0.3)) != 0
                };
                if ((area > 0.0) == self.ccw) != keep {
                    return Some(format!("{} has the wrong direction", show(q)));
                }
            }
        }
        None
    }
    /// A stretch of a candidate curve is nearer than |d| by less than a few offset tolerances
    /// (1e-4): whether the library keeps it is below the resolution it documents.
    pub fn tolerance_limited(&self, d: f64) -> bool {
        let r = d.abs();
        let mut prim = primitives(&self.segs, d);
        // an arc offset beyond its center is bridged by a straight line
        for s in &self.segs {
            if let Some(k) = s.arc {
                let f = 1.0 - r / k.r;
                if f < 0.0 {
                    prim.push(Seg::new(k.c + (s.a - k.c) * f, k.c + (s.b - k.c) * f, 0.0));
                }
            }
        }
        let mut bad = false;
        sub_edges(&prim, &prim, 2e-6, |_, s, t0, t1| {
            let depth = [0.25, 0.5, 0.75].iter().map(|u| r - dist_segs(&self.segs, s.at(t0 + (t1 - t0) * u)));
            let depth = depth.fold(-1.0, f64::max);
            bad = bad || (depth > 1e-7 && depth < 3e-4) || (depth.abs() < 1e-3 && (t1 - t0) * s.len() < 4e-3);
        });
        bad
    }
    /// P05: completeness and coverage
    pub fn complete(&self, d: f64, edges: &[Edge], res: &[Path]) -> Option<String> {
        let rs: Vec<Vec<Seg>> = res.iter().map(|q| q.segs()).collect();
        let inw = self.inward(d);
        let sign = if self.ccw { 1 } else { -1 };
        for e in edges {
            let dist = rs.iter().map(|s| dist_segs(s, e.m)).fold(f64::INFINITY, f64::min);
            if dist > TOL {
                return Some(format!(
                    "offset curve point ({:.6},{:.6}) is missing (nearest result at {dist:.2e})",
                    e.m.x, e.m.y
                ));
            }
            for (q, want) in [(e.near, !inw), (e.far, inw)] {
                if rs.iter().any(|s| dist_segs(s, q) < DELTA * 0.3) {
                    continue;
                }
                let w: i32 = rs.iter().map(|s| winding(s, q)).sum();
                if w != want as i32 * sign {
                    return Some(format!(
                        "point ({:.6},{:.6}) has winding {w} in the result, expected {}",
                        q.x, q.y, want as i32 * sign
                    ));
                }
            }
        }
        None
    }
}

/// a transversal crossing of two non adjacent segments, if any
pub fn self_cross(q: &Path) -> Option<P> {
    let segs = q.segs();
    let n = segs.len();
    for i in 0..n {
        for j in (i + 1)..n {
            for m in meet_points(&segs[i], &segs[j], 1e-7) {
                let (t1, _) = segs[i].closest(m);
                let (t2, _) = segs[j].closest(m);
                // crossing in the interior of both, at an angle
                let inner = |s: &Seg| m.dist(s.a) > 2e-3 && m.dist(s.b) > 2e-3;
                if inner(&segs[i]) && inner(&segs[j]) && segs[i].tan(t1).cross(segs[j].tan(t2)).abs() > 0.05 {
                    return Some(m);
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------------------------- input spaces
pub struct OSpace {
    pub name: &'static str,
    pub paths: Vec<Path>,
    pub d: Vec<f64>,
}
pub const Q8: f64 = 0.414213562373095;

pub fn spaces(thorough: bool) -> Vec<OSpace> {
    let mut v = vec![];
    let signed = |a: &[f64]| -> Vec<f64> { a.iter().flat_map(|x| [*x, -*x]).collect() };
    // generic position: every simple polygon on a jittered lattice
    let g = lattice(3, 3, 1.0, 0.17, 5);
    let mut a = closed_simple(&g, 2, &[0.0, 0.35, -0.5, 0.8, 1.0, -1.0], 0.02);
    a.extend(closed_simple(&g, 3, if thorough { &[0.0, 0.35, -0.45, 0.2, -0.2, 1.0, -0.9] } else { &[0.0, 0.35, -0.45, 1.0, -0.9] }, 0.02));
    a.extend(closed_simple(&g, 4, if thorough { &[0.0, 0.35, -0.45, 1.0, -0.9] } else { &[0.0, 0.4, -0.35] }, 0.02));
    a.extend(closed_simple(&g, 5, if thorough { &[0.0, 0.4, -0.45] } else { &[0.0, -0.45] }, 0.02));
    a.extend(closed_simple(&g, 6, if thorough { &[0.0, 0.3] } else { &[0.0] }, 0.02));
    a.extend(closed_simple(&g, 7, &[0.0], 0.02));
    if thorough {
        a.extend(closed_simple(&g, 8, &[0.0], 0.02));
        a.extend(closed_simple(&g, 9, &[0.0], 0.02));
    }
    v.push(OSpace { name: "generic", paths: a, d: signed(if thorough { &[0.03, 0.07, 0.21, 0.37, 0.58, 0.83, 1.3] } else { &[0.07, 0.21, 0.37, 0.83] }) });
    // small against the absolute epsilons
    let mut c = closed_simple(&g, 2, &[0.0, 0.35, -0.5, 1.0, -1.0], 0.02);
    c.extend(closed_simple(&g, 3, &[0.0, 0.35, -0.45, 1.0, -0.9], 0.02));
    c.extend(closed_simple(&g, 4, if thorough { &[0.0, 0.4, -0.35, -0.9] } else { &[0.0, -0.35] }, 0.02));
    for (k, f) in [1.0 / 16.0, 1.0 / 64.0, 1.0 / 128.0].into_iter().enumerate() {
        let paths = c.iter().map(|q| q.scale(f)).collect();
        v.push(OSpace { name: ["small-16", "small-64", "small-128"][k], paths, d: signed(&[0.21 * f, 0.37 * f, 0.83 * f]) });
    }
    // offsets at and around the distances where the offsets of three segments meet
    let mut c = closed_simple(&g, 3, &[0.0, 0.35, -0.45], 0.02);
    c.extend(closed_simple(&g, 4, &[0.0, 0.4], 0.02));
    c.extend(closed_simple(&g, 5, &[0.0], 0.02));
    c.extend(closed_simple(&g, 6, &[0.0], 0.02));
    let (n, step) = (c.len(), if thorough { 1 } else { 3 });
    let c: Vec<Path> = (0..n).step_by(step).map(|i| c[i].clone()).collect();
    v.push(OSpace { name: "critical", paths: critical(&c, 0.5), d: signed(&[0.5, 0.5 - 1e-9, 0.5 + 1e-9, 0.5 - 3e-5, 0.5 + 3e-5, 0.5 - 6e-5, 0.5 + 6e-5, 0.5 - 2e-4, 0.5 + 2e-4]) });
    // exact lattice: right angles, tangencies, exact collapses
    let l = lattice(3, 3, 1.0, 0.0, 0);
    let mut a = closed_simple(&l, 2, &[0.0, Q8, -Q8, 1.0, -1.0], 0.02);
    a.extend(closed_simple(&l, 3, &[0.0, Q8, -Q8, 1.0, -1.0], 0.02));
    a.extend(closed_simple(&l, 4, if thorough { &[0.0, Q8, -Q8, 1.0, -1.0] } else { &[0.0, Q8, -Q8] }, 0.02));
    a.extend(closed_simple(&l, 5, if thorough { &[0.0, Q8, -Q8] } else { &[0.0, Q8] }, 0.02));
    a.extend(closed_simple(&l, 6, if thorough { &[0.0, Q8] } else { &[0.0] }, 0.02));
    a.extend(closed_simple(&l, 7, &[0.0], 0.02));
    a.extend(closed_simple(&l, 8, &[0.0], 0.02));
    let b = modulo_symmetry(a.clone());
    for k in 0..3 {
        v.push(OSpace { name: ["turned-1", "turned-2", "turned-3"][k], paths: turned(b.clone(), k), d: signed(&[0.125, 0.25, 0.35355339059327379, 0.5, 0.75, 1.0]) });
    }
    let names = ["nudged-1", "nudged-2", "nudged-3", "nudged-4", "nudged-5"];
    for (k, amp) in [1e-7, 1e-4, 3e-10, 1e-6, 1e-3].into_iter().enumerate().take(if thorough { 5 } else { 2 }) {
        v.push(OSpace { name: names[k], paths: nudged(b.clone(), k as u64, amp), d: signed(&[0.125, 0.25, 0.35355339059327379, 0.5, 0.75, 1.0]) });
    }
    v.push(OSpace { name: "special", paths: a, d: signed(if thorough { &[0.125, 0.25, 0.35355339059327379, 0.5, 0.75, 1.0] } else { &[0.125, 0.25, 0.5, 1.0] }) });
    // many vertices: every combination of side profiles around a ring
    let mut a = rings(3, "FADTNIJYSUBCW", 1.6);
    a.extend(rings(4, if thorough { "FADTNIJYSUBCW" } else { "FADTNJYSUCW" }, 1.9));
    a.extend(rings(5, if thorough { "FTNJSUCW" } else { "TNSUW" }, 2.2));
    a.extend(rings(8, if thorough { "TNSW" } else { "TSW" }, 2.9));
    v.push(OSpace { name: "rings", paths: a, d: signed(if thorough { &[0.03, 0.11, 0.23, 0.41, 0.77] } else { &[0.04, 0.11, 0.31] }) });
    v
}

pub fn results(p: &Polyline<f64>, d: f64) -> Vec<Path> {
    p.parallel_offset(d).iter().map(|q| path_of(q)).collect()
}
pub fn show_all(r: &[Path]) -> String {
    r.iter().map(show).collect::<Vec<_>>().join(" ")
}
pub fn otext(a: &Path, d: f64) -> String {
    format!("{} offset={d}", show(a))
}

pub fn p04_05(cx: &Ctx, which: u8) -> i32 {
    for sp in spaces(cx.thorough) {
        let nd = sp.d.len();
        cx.space(sp.name, sp.paths.len() * nd, |i, r| {
            let (a, d) = (&sp.paths[i / nd], sp.d[i % nd]);
            r.case(|| otext(a, d));
            let inp = Input::new(a);
            r.call();
            let res = results(&pl(a), d);
            r.class(match res.len() {
                0 => "empty",
                1 => "one",
                _ => "several",
            });
            if which == 4 {
                let mut e = inp.sound(d, &res);
                if e.is_some() && inp.tolerance_limited(d) {
                    r.class("tolerance_limited");
                    e = None;
                }
                r.check(e.is_none(), "sound", || format!("{}; result {}", e.unwrap(), show_all(&res)));
            } else {
                let edges = inp.edges(d);
                let mut e = inp.complete(d, &edges, &res);
                if e.is_some() && inp.tolerance_limited(d) {
                    r.class("tolerance_limited");
                    e = None;
                }
                r.check(e.is_none(), "complete", || format!("{}; result {}", e.unwrap(), show_all(&res)));
            }
        });
    }
    cx.finish("one state per (closed simple polyline, offset); the exact offset curve is constructed by brute force and compared with the returned polylines")
}
