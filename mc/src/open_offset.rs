//! P06: offsets of open and of self-intersecting polylines against the one-sided offset curve.
use crate::gen::*;
use crate::geo::*;
use crate::offset::*;
use crate::query::walks;
use crate::run::*;
use cavalier_contours::polyline::*;

/// Left (d > 0) or right (d < 0) offset segments and the arcs around vertexes where the path turns
/// away from that side: the whole curve before anything too near is removed.
fn one_sided(segs: &[Seg], closed: bool, d: f64) -> Vec<Seg> {
    let r = d.abs();
    let mut prim: Vec<Seg> = segs.iter().filter_map(|s| s.offset(d)).collect();
    let n = segs.len();
    for i in 0..n {
        if !closed && i + 1 == n {
            break;
        }
        let (s0, s1) = (&segs[i], &segs[(i + 1) % n]);
        let (t0, t1) = (s0.tan(1.0), s1.tan(0.0));
        let turn = t0.cross(t1).atan2(t0.dot(t1));
        // full reversals and (nearly) straight joins have no definite arc
        if turn.abs() > 3.1 || turn.abs() < 1e-6 || (turn > 0.0) == (d > 0.0) {
            continue;
        }
        let v = s1.a;
        let sg = d.signum();
        let (a, b) = (v + t0.left() * (sg * r), v + t1.left() * (sg * r));
        prim.push(Seg::new(a, b, (turn / 4.0).tan()));
    }
    prim
}

/// pieces of the one-sided curve which are at the offset distance from the whole input
fn expected(segs: &[Seg], closed: bool, d: f64) -> Vec<P> {
    let r = d.abs();
    let one = one_sided(segs, closed, d);
    let mut out: Vec<P> = vec![];
    sub_edges(&one, &primitives(segs, d), 2e-2, |_, s, t0, t1| {
        let at = |u: f64| s.at(t0 + (t1 - t0) * u);
        // at the offset distance, and not from two sides at once (a region collapsed to a curve)
        let clear = |u: f64| {
            let n = s.tan(t0 + (t1 - t0) * u).left() * 5e-3;
            (dist_segs(segs, at(u)) - r).abs() < 1e-6 && dist_segs(segs, at(u) + n).max(dist_segs(segs, at(u) - n)) > r + 2.5e-3
        };
        // around a position passed more than once the sides cannot be told apart
        let twice = |m: P| {
            let k = segs.iter().map(|s| (s.dist(m), s.at(s.closest(m).0))).fold((f64::MAX, m), |b, x| if x.0 < b.0 { x } else { b }).1;
            segs.iter().filter(|s| s.dist(k) < 1e-7).count() > 2
        };
        if [0.2, 0.5, 0.8].iter().all(|u| clear(*u) && !twice(at(*u))) {
            out.extend([at(0.2), at(0.5), at(0.8)]);
        }
    });
    out
}

fn judge(r: &mut Rec, a: &Path, d: f64, res: &[Path]) {
    let segs = a.segs();
    let mut e: Option<(&str, String)> = None;
    for q in res {
        if e.is_none() {
            e = shape_error(q, if a.closed { None } else { Some(false) }).map(|x| ("shape", x));
        }
        if e.is_none() {
            e = distance_error(&segs, d, q).map(|x| ("distance", x));
        }
        for s in q.segs() {
            let m = s.at(0.5);
            // side of the input at the nearest point, where it is the interior of one segment
            let (k, t, dist) = segs.iter().enumerate().map(|(k, s)| { let (t, x) = s.closest(m); (k, t, x) }).fold((0, 0.0, f64::MAX), |b, x| if x.2 < b.2 { x } else { b });
            let alone = segs.iter().enumerate().all(|(j, s)| j == k || s.dist(m) > dist + 1e-3);
            if e.is_none() && alone && t > 1e-3 && t < 1.0 - 1e-3 {
                let side = segs[k].tan(t).cross(m - segs[k].at(t));
                if side * d < 0.0 {
                    e = Some(("side", format!("point ({:.6},{:.6}) of {} is on the other side", m.x, m.y, show(q))));
                }
            }
        }
    }
    if e.is_none() {
        let rs: Vec<Seg> = res.iter().flat_map(|q| q.segs()).collect();
        for m in expected(&segs, a.closed, d) {
            let x = dist_segs(&rs, m);
            if x > TOL {
                e = Some(("complete", format!("offset curve point ({:.6},{:.6}) is missing (nearest result at {x:.2e})", m.x, m.y)));
                break;
            }
        }
    }
    if e.is_some() && Input::new(a).tolerance_limited(d) {
        r.class("tolerance_limited");
        e = None;
    }
    let l = e.as_ref().map(|x| x.0).unwrap_or("");
    r.check(e.is_none(), l, || format!("{}; result {}", e.as_ref().unwrap().1, show_all(res)));
}

struct Sp {
    name: &'static str,
    paths: Vec<Path>,
    d: Vec<f64>,
}

fn spaces06(thorough: bool) -> Vec<Sp> {
    let mut v = vec![];
    let signed = |a: &[f64]| -> Vec<f64> { a.iter().flat_map(|x| [*x, -*x]).collect() };
    let g = lattice(3, 3, 1.0, 0.17, 5);
    let l = lattice(3, 3, 1.0, 0.0, 0);
    let ds = signed(if thorough { &[0.03, 0.07, 0.21, 0.37, 0.58, 0.83, 1.3] } else { &[0.07, 0.37, 0.83] });
    let fold = |q: &Path| {
        // two segments on one line or circle lying on each other: the two sides cannot be told apart
        let s = q.segs();
        (0..s.len()).any(|i| (0..i).any(|j| same_support(&s[i], &s[j], 1e-9) && !overlaps(&s[i], &s[j], 1e-9).is_empty()))
    };
    let mut a = vec![];
    a.extend(any_paths(&g, 2, &[0.0, 0.35, -0.5, 0.8, 1.0, -1.0], false));
    a.extend(any_paths(&g, 3, &[0.0, 0.35, -0.45, 1.0, -0.9], false));
    a.extend(modulo_symmetry(any_paths(&g, 4, if thorough { &[0.0, 0.4, -0.35, 0.9] } else { &[0.0, 0.4] }, false)));
    a.extend(any_paths(&g, 5, &[0.0], false).into_iter().filter(|q| q.v[0].x < 1.5 || thorough));
    v.push(Sp { name: "open-generic", paths: a, d: ds.clone() });
    let mut a = vec![];
    a.extend(any_paths(&l, 2, &[0.0, Q8, -Q8, 1.0, -1.0], false));
    a.extend(modulo_symmetry(any_paths(&l, 3, &[0.0, Q8, -Q8, 1.0, -1.0], false)));
    a.extend(modulo_symmetry(any_paths(&l, 4, if thorough { &[0.0, Q8, -1.0] } else { &[0.0, -Q8] }, false)));
    a.extend(modulo_symmetry(any_paths(&l, 5, &[0.0], false)));
    if thorough {
        a.extend(modulo_symmetry(any_paths(&l, 6, &[0.0], false)));
    }
    a.retain(|q| !fold(q));
    for k in 0..3 {
        let b = a.clone();
        v.push(Sp { name: ["open-turned-1", "open-turned-2", "open-turned-3"][k], paths: turned(b, k), d: signed(if thorough { &[0.125, 0.25, 0.5, 0.75, 1.0] } else { &[0.25, 0.5, 1.0] }) });
    }
    let names = ["open-nudged-1", "open-nudged-2", "open-nudged-3", "open-nudged-4", "open-nudged-5"];
    for (k, amp) in [1e-7, 1e-4, 3e-10, 1e-6, 1e-3].into_iter().enumerate() {
        v.push(Sp { name: names[k], paths: nudged(a.clone(), k as u64, amp), d: signed(&[0.25, 0.5, 1.0]) });
    }
    v.push(Sp { name: "open-special", paths: a, d: signed(if thorough { &[0.125, 0.25, 0.5, 0.75, 1.0] } else { &[0.25, 0.5, 1.0] }) });
    let mut a = vec![];
    a.extend(any_paths(&g, 2, &[0.0, 0.35, -0.5, 0.8, 1.0, -1.0], true));
    a.extend(any_paths(&g, 3, if thorough { &[0.0, 0.35, -0.45, 0.2, -0.2, 1.0, -0.9] } else { &[0.0, 0.35, -0.45, -0.9] }, true));
    a.extend(any_paths(&g, 4, if thorough { &[0.0, 0.4, -0.35] } else { &[0.0, -0.35] }, true).into_iter().filter(|q| thorough || q.v[0].x < 0.5));
    a.extend(any_paths(&g, 5, &[0.0], true).into_iter().filter(|q| thorough || q.v[0].x < 0.5));
    a.retain(|q| !fold(q));
    v.push(Sp { name: "closed-generic", paths: a, d: ds });
    let mut a = any_paths(&l, 2, &[0.0, Q8, -Q8, 1.0, -1.0], true);
    a.extend(modulo_symmetry(any_paths(&l, 3, &[0.0, Q8, -Q8, 1.0, -1.0], true)));
    a.extend(modulo_symmetry(any_paths(&l, 4, if thorough { &[0.0, Q8, 1.0] } else { &[0.0, Q8] }, true)));
    a.extend(modulo_symmetry(any_paths(&l, 5, &[0.0], true)));
    a.retain(|q| !fold(q));
    for k in 0..3 {
        let b = a.clone();
        v.push(Sp { name: ["closed-turned-1", "closed-turned-2", "closed-turned-3"][k], paths: turned(b, k), d: signed(if thorough { &[0.125, 0.25, 0.5, 0.75, 1.0] } else { &[0.25, 0.5, 1.0] }) });
    }
    let names = ["closed-nudged-1", "closed-nudged-2", "closed-nudged-3", "closed-nudged-4", "closed-nudged-5"];
    for (k, amp) in [1e-7, 1e-4, 3e-10, 1e-6, 1e-3].into_iter().enumerate() {
        v.push(Sp { name: names[k], paths: nudged(a.clone(), k as u64, amp), d: signed(&[0.25, 0.5, 1.0]) });
    }
    v.push(Sp { name: "closed-special", paths: a, d: signed(if thorough { &[0.125, 0.25, 0.5, 0.75, 1.0] } else { &[0.25, 0.5, 1.0] }) });
    // touching itself at vertices
    let sq = lattice(3, 2, 1.0, 0.0, 0);
    for closed in [false, true] {
        let mut a = walks(&sq, 4, &[0.0, Q8, -1.0], closed, false);
        a.extend(walks(&sq, 5, if thorough { &[0.0, Q8, -1.0] } else { &[0.0, -Q8] }, closed, false));
        a.extend(walks(&sq, 6, &[0.0], closed, false));
        if thorough {
            a.extend(walks(&lattice(3, 2, 1.0, 0.13, 2), 5, &[0.0, 0.7, -0.4], closed, false));
            a.extend(walks(&lattice(3, 2, 1.0, 0.13, 2), 6, &[0.0], closed, false));
            a.extend(walks(&lattice(2, 2, 1.0, 0.0, 0), 7, &[0.0], closed, false));
        }
        a.retain(|q| !fold(q));
        for k in 1..3 {
            let b = a.iter().filter(|q| thorough || q.v.len() < 6).cloned().collect();
            v.push(Sp { name: [["open-walks-turned-1", "open-walks-turned-2"], ["closed-walks-turned-1", "closed-walks-turned-2"]][closed as usize][k - 1], paths: turned(b, k), d: signed(&[0.25, 0.5]) });
        }
        v.push(Sp { name: if closed { "closed-walks" } else { "open-walks" }, paths: a, d: signed(if thorough { &[0.125, 0.25, 0.5, 0.75, 1.0] } else { &[0.25, 0.6] }) });
    }
    // many vertices: rings of side profiles, cut open, and stars whose sides cross
    let mut a = rings(3, "FADTNIJYSUBCW", 1.6);
    a.extend(rings(4, if thorough { "FADTNIJYSUBCW" } else { "FADTNJYSUCW" }, 1.9));
    a.extend(rings(5, if thorough { "FTNJSUCW" } else { "TNSUW" }, 2.2));
    for q in &mut a {
        q.closed = false;
    }
    let dr = signed(if thorough { &[0.03, 0.11, 0.23, 0.41, 0.77] } else { &[0.04, 0.11, 0.31] });
    v.push(Sp { name: "open-rings", paths: a, d: dr.clone() });
    let mut a = stars(5, 2, if thorough { "FADTNIJYSUBCW" } else { "FADTNJSUW" }, 2.2);
    a.extend(stars(7, if thorough { 3 } else { 2 }, if thorough { "FATSW" } else { "TSW" }, 2.9));
    v.push(Sp { name: "closed-stars", paths: a, d: dr });
    v
}

pub fn p06(cx: &Ctx) -> i32 {
    for sp in spaces06(cx.thorough) {
        let nd = sp.d.len();
        cx.space(sp.name, sp.paths.len() * nd, |i, r| {
            let (a, d) = (&sp.paths[i / nd], sp.d[i % nd]);
            r.case(|| otext(a, d));
            r.call();
            let o = PlineOffsetOptions { handle_self_intersects: true, ..Default::default() };
            let res: Vec<Path> = pl(a).parallel_offset_opt(d, &o).iter().map(|q| path_of(q)).collect();
            r.class(match res.len() {
                0 => "empty",
                1 => "one",
                _ => "several",
            });
            judge(r, a, d, &res);
            if !a.closed {
                r.call();
                let plain = results(&pl(a), d);
                r.check(plain == res, "option matters for an open polyline", || show_all(&plain));
            }
        });
    }
    cx.space("too-short", 4, |i, r| {
        let mut q = Polyline::new();
        q.is_closed = i % 2 == 1;
        if i >= 2 {
            q.add(1.0, 2.0, 0.5);
        }
        r.case(|| format!("{q:?}"));
        for h in [false, true] {
            for d in [0.5, -0.5] {
                r.call();
                let o = PlineOffsetOptions { handle_self_intersects: h, ..Default::default() };
                r.check(q.parallel_offset_opt(d, &o).is_empty(), "no result", || format!("{d}"));
            }
        }
    });
    cx.finish("one state per (open or self-intersecting polyline, offset); every result point is measured against the input and every piece of the one-sided offset curve at the offset distance must be covered")
}
