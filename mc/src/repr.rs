//! P07: the offset curve does not depend on how the closed input polyline is represented.
use crate::gen::*;
use crate::geo::*;
use crate::offset::*;
use crate::run::*;
use cavalier_contours::polyline::*;

/// sample points of a result that lie on the offset curve proper: the side away from the input is
/// farther than the offset, i.e. the region has not collapsed there
fn proper(segs: &[Seg], d: f64, res: &[Path]) -> Vec<P> {
    let r = d.abs();
    let mut out = vec![];
    for q in res {
        for s in q.segs() {
            if s.len() < 1e-3 {
                continue;
            }
            for t in [0.1, 0.3, 0.5, 0.7, 0.9] {
                let m = s.at(t);
                let n = s.tan(t).left() * 5e-3;
                if dist_segs(segs, m + n).max(dist_segs(segs, m - n)) > r + 2.5e-3 {
                    out.push(m);
                }
            }
        }
    }
    out
}

fn differ(segs: &[Seg], d: f64, a: &[Path], b: &[Path], whole: bool) -> Option<String> {
    let sa: Vec<Seg> = a.iter().flat_map(|q| q.segs()).collect();
    let sb: Vec<Seg> = b.iter().flat_map(|q| q.segs()).collect();
    for (x, y, name) in [(a, &sb, "the variant lacks"), (b, &sa, "only the variant has")] {
        for m in proper(segs, d, x) {
            let e = dist_segs(y, m);
            if e > 2.0 * TOL {
                return Some(format!("{name} the point ({:.6},{:.6}) (off by {e:.2e})", m.x, m.y));
            }
        }
    }
    if whole {
        // same direction and enclosed area as well
        let (x, y): (f64, f64) = (a.iter().map(|q| q.area()).sum(), b.iter().map(|q| q.area()).sum());
        if (x - y).abs() > 5e-3 {
            return Some(format!("signed area is {y} instead of {x}"));
        }
    }
    None
}

/// every segment split at the middle (0), or into thirds on segment k - 1
fn split(q: &Path, k: usize) -> Path {
    let mut v = vec![];
    for (i, s) in q.segs().iter().enumerate() {
        let cuts: &[f64] = if k == 0 { &[0.5] } else if i == k - 1 { &[0.33, 0.71] } else { &[] };
        let mut t = 0.0;
        for &c in cuts.iter().chain(&[1.0]) {
            let u = s.sub(t, c);
            v.push(vx(u.a.x, u.a.y, u.bulge));
            t = c;
        }
    }
    Path::new(v, true)
}

pub fn p07(cx: &Ctx) -> i32 {
    for sp in spaces07(cx.thorough) {
        let nd = sp.d.len();
        cx.space(sp.name, sp.paths.len() * nd, |i, r| {
            let (a, d) = (&sp.paths[i / nd], sp.d[i % nd]);
            r.case(|| otext(a, d));
            r.call();
            let segs = a.segs();
            let base = results(&pl(a), d);
            r.class(match base.len() {
                0 => "empty",
                1 => "one",
                _ => "several",
            });
            let n = a.v.len();
            let mut fails: Vec<(&'static str, String)> = vec![];
            // variants whose result must be the same curve, given in the frame of the input
            let mut compare = |r: &mut Rec, what: &'static str, info: &dyn Fn() -> String, res: Vec<Path>, whole: bool| {
                r.call();
                if let Some(e) = differ(&segs, d, &base, &res, whole) {
                    fails.push((what, format!("{}: {e}; base {} variant {}", info(), show_all(&base), show_all(&res))));
                } else {
                    r.ok();
                }
            };
            for k in 1..n {
                compare(r, "start vertex", &|| format!("start {k}"), results(&pl(&a.start(k)), d), true);
            }
            for k in 0..=n {
                compare(r, "extra vertexes", &|| format!("split {k}"), results(&pl(&split(a, k)), d), true);
            }
            let p = pl(a);
            let ix = p.create_approx_aabb_index();
            let fine = p.create_aabb_index();
            for (h, index) in [(false, Some(&ix)), (false, Some(&fine)), (true, None), (true, Some(&ix))] {
                let o = PlineOffsetOptions { handle_self_intersects: h, aabb_index: index, ..Default::default() };
                let res: Vec<Path> = p.parallel_offset_opt(d, &o).iter().map(|q| path_of(q)).collect();
                compare(r, if h { "handle_self_intersects" } else { "supplied index" }, &|| format!("index {}", index.is_some()), res, !h);
            }
            let back = |v: Vec<Path>| -> Vec<Path> { v.iter().map(|q| q.rev()).collect() };
            for k in [0, n - 1] {
                compare(r, "inverted direction", &|| format!("start {k}"), back(results(&pl(&a.rev().start(k)), -d)), true);
            }
            for s in 1..8 {
                let t = symmetry(a, s);
                let f = if s >= 4 { -1.0 } else { 1.0 };
                let inv = [0, 3, 2, 1, 4, 5, 6, 7][s];
                // undo: rotations by the inverse rotation, flips are (rotate after swap), undone below
                let res: Vec<Path> = results(&pl(&t), d * f)
                    .iter()
                    .map(|q| if s < 4 { symmetry(q, inv) } else { undo_flip(q, s) })
                    .collect();
                compare(r, "symmetry of the square", &|| format!("symmetry {s}"), res, true);
            }
            for m in [crate::geo::p(-3.5, 0.25), crate::geo::p(1024.0, -512.0)] {
                let res: Vec<Path> = results(&pl(&a.translate(m)), d).iter().map(|q| q.translate(-m)).collect();
                compare(r, "translation", &|| format!("by ({},{})", m.x, m.y), res, true);
            }
            // scale of the polyline, of the position epsilons and of the distance epsilon
            for (k, kp, kd) in [(0.5, 1.0, 1.0), (8.0, 1.0, 1.0), (16.0, 16.0, 16.0), (0.125, 1.0, 1.0)] {
                let base = PlineOffsetOptions::default();
                let o = PlineOffsetOptions {
                    pos_equal_eps: base.pos_equal_eps * kp,
                    slice_join_eps: base.slice_join_eps * kp,
                    offset_dist_eps: base.offset_dist_eps * kd,
                    ..base
                };
                let res: Vec<Path> = pl(&a.scale(k)).parallel_offset_opt(d * k, &o).iter().map(|q: &Polyline<f64>| path_of(q).scale(1.0 / k)).collect();
                compare(r, "scaling", &|| format!("by {k}"), res, true);
            }
            let (c, s) = (0.8, 0.6);
            let turn = |q: &Path, s: f64| q.map(|v| crate::geo::p(c * v.x - s * v.y, s * v.x + c * v.y), false);
            let res: Vec<Path> = results(&pl(&turn(a, s)), d).iter().map(|q| turn(q, -s)).collect();
            compare(r, "rotation", &|| "3-4-5".into(), res, true);
            if !fails.is_empty() && Input::new(a).tolerance_limited(d) {
                r.class("tolerance_limited");
                fails.clear();
            }
            for (l, m) in fails {
                r.fail(l, m);
            }
        });
    }
    cx.finish("one state per (closed simple polyline, offset); every start vertex, split, index, option, direction, symmetry, translation, scale and rotation of it is offset and compared with the plain result as a point set and by signed area")
}

/// inverse of symmetry s >= 4 (x and y swapped, then rotated)
fn undo_flip(q: &Path, s: usize) -> Path {
    let r = symmetry(q, [0, 3, 2, 1][s - 4]);
    r.map(|v| p(v.y, v.x), true)
}

fn spaces07(thorough: bool) -> Vec<OSpace> {
    let mut v = vec![];
    let signed = |a: &[f64]| -> Vec<f64> { a.iter().flat_map(|x| [*x, -*x]).collect() };
    let g = lattice(3, 3, 1.0, 0.17, 5);
    let mut a = closed_simple(&g, 2, &[0.0, 0.35, -0.5, 0.8, 1.0, -1.0], 0.02);
    a.extend(closed_simple(&g, 3, if thorough { &[0.0, 0.35, -0.45, 1.0, -0.9] } else { &[0.0, 0.35, -0.9] }, 0.02));
    a.extend(closed_simple(&g, 4, if thorough { &[0.0, 0.4, -0.35] } else { &[0.0, -0.35] }, 0.02));
    a.extend(closed_simple(&g, 5, &[0.0], 0.02));
    a.extend(closed_simple(&g, 6, &[0.0], 0.02));
    if thorough {
        a.extend(closed_simple(&g, 7, &[0.0], 0.02));
        a.extend(closed_simple(&g, 5, &[0.0, 0.3], 0.02));
    }
    v.push(OSpace { name: "generic", paths: a, d: signed(if thorough { &[0.07, 0.21, 0.37, 0.58, 0.83] } else { &[0.12, 0.37] }) });
    let l = lattice(3, 3, 1.0, 0.0, 0);
    let mut a = closed_simple(&l, 2, &[0.0, Q8, -Q8, 1.0, -1.0], 0.02);
    a.extend(closed_simple(&l, 3, &[0.0, Q8, -Q8, 1.0, -1.0], 0.02));
    a.extend(closed_simple(&l, 4, if thorough { &[0.0, Q8, -Q8] } else { &[0.0, Q8] }, 0.02));
    a.extend(closed_simple(&l, 5, &[0.0], 0.02));
    a.extend(closed_simple(&l, 6, &[0.0], 0.02));
    a.extend(closed_simple(&l, 7, &[0.0], 0.02));
    a.extend(closed_simple(&l, 8, &[0.0], 0.02));
    let a = modulo_symmetry(a);
    v.push(OSpace { name: "turned", paths: turned(a.clone(), 1), d: signed(if thorough { &[0.125, 0.25, 0.5, 1.0] } else { &[0.25, 0.5] }) });
    v.push(OSpace { name: "nudged", paths: nudged(a.clone(), 4, 1e-7), d: signed(if thorough { &[0.125, 0.25, 0.5, 1.0] } else { &[0.25, 0.5] }) });
    v.push(OSpace { name: "special", paths: a, d: signed(if thorough { &[0.125, 0.25, 0.5, 1.0] } else { &[0.25, 0.5] }) });
    let mut a = rings(3, if thorough { "FADTNIJYSUBCW" } else { "ATNJSUW" }, 1.6);
    a.extend(rings(4, if thorough { "FTNJSUCW" } else { "TNUW" }, 1.9));
    a.extend(rings(5, if thorough { "TNSUW" } else { "TS" }, 2.2));
    a.extend(rings(8, if thorough { "TNS" } else { "SW" }, 2.9));
    v.push(OSpace { name: "rings", paths: a, d: signed(if thorough { &[0.03, 0.11, 0.23, 0.41, 0.77] } else { &[0.11, 0.31] }) });
    v
}
