//! P08: offsets of shapes made of several polylines against the exact offset curve of the region.
use crate::gen::*;
use crate::geo::*;
use crate::offset::*;
use crate::run::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

const DELTA: f64 = 5e-3;

/// loops of a valid shape, and the winding sum inside its material
#[derive(Clone)]
struct Sh {
    loops: Vec<Path>,
    material: i32,
}
impl Sh {
    fn segs(&self) -> Vec<Seg> {
        self.loops.iter().flat_map(|q| q.segs()).collect()
    }
}

fn orient(q: &Path, ccw: bool) -> Path {
    if (q.area() > 0.0) == ccw {
        q.clone()
    } else {
        q.rev()
    }
}

/// all loops keep some distance from each other
fn apart(l: &[Path], clr: f64) -> bool {
    (0..l.len()).all(|i| (0..i).all(|j| l[i].segs().iter().all(|s| l[j].segs().iter().all(|t| seg_seg_dist(s, t) > clr))))
}
fn inside(a: &Path, b: &Path) -> bool {
    winding(&b.segs(), a.v[0].p()) != 0
}

fn check(r: &mut Rec, sh: &Sh, d: f64, res: &Shape<f64>) {
    let segs = sh.segs();
    let rad = d.abs();
    let get = |l: &[IndexedPolyline<f64>]| -> Vec<Path> { l.iter().map(|q| path_of(&q.polyline)).collect() };
    let (ccw, cw) = (get(&res.ccw_plines), get(&res.cw_plines));
    let all: Vec<Path> = ccw.iter().chain(&cw).cloned().collect();
    let rs: Vec<Vec<Seg>> = all.iter().map(|q| q.segs()).collect();
    let mut e: Option<(&str, String)> = None;
    let mut set = |l: &'static str, x: Option<String>| {
        if let (None, Some(x)) = (&e, x) {
            e = Some((l, x));
        }
    };
    // on the side the offset points to
    let wanted = |m: P| (winding(&segs, m) == sh.material) == (d > 0.0);
    for q in &all {
        set("shape", shape_error(q, Some(true)));
        set("distance", distance_error(&segs, d, q));
        for s in q.segs() {
            let m = s.at(0.5);
            if !wanted(m) {
                set("side", Some(format!("point ({:.6},{:.6}) of {} is on the wrong side", m.x, m.y, show(q))));
            }
        }
        if let Some(m) = self_cross(q) {
            set("crossing", Some(format!("{} crosses itself at ({:.6},{:.6})", show(q), m.x, m.y)));
        }
    }
    for (i, q) in all.iter().enumerate() {
        for (j, o) in all.iter().enumerate().take(i) {
            for s in &rs[i] {
                for t in &rs[j] {
                    for m in meet_points(s, t, 1e-7) {
                        let inner = |s: &Seg| m.dist(s.a) > 2e-3 && m.dist(s.b) > 2e-3;
                        let x = s.tan(s.closest(m).0).cross(t.tan(t.closest(m).0)).abs();
                        if inner(s) && inner(t) && x > 0.05 {
                            set("crossing", Some(format!("#{i} and #{j} cross at ({:.6},{:.6}): {} {}", m.x, m.y, show(q), show(o))));
                        }
                    }
                }
            }
        }
    }
    for q in &ccw {
        if q.area() < -1e-3 {
            set("sorting", Some(format!("{} among the counter clockwise polylines", show(q))));
        }
    }
    for q in &cw {
        if q.area() > 1e-3 {
            set("sorting", Some(format!("{} among the clockwise polylines", show(q))));
        }
    }
    // indexes
    for (k, (q, ip)) in all.iter().zip(res.ccw_plines.iter().chain(&res.cw_plines)).enumerate() {
        for (i, s) in q.segs().iter().enumerate() {
            let b = s.bounds();
            let hit = |ix: &static_aabb2d_index::StaticAABB2DIndex<f64>| ix.query(b.0 + 1e-7, b.1 + 1e-7, b.2 - 1e-7, b.3 - 1e-7);
            // boxes can be flat
            let hit2 = |ix: &static_aabb2d_index::StaticAABB2DIndex<f64>| {
                let mut h = hit(ix);
                h.extend(ix.query(b.0, b.1, b.2, b.3));
                h
            };
            if !hit2(&ip.spatial_index).contains(&i) {
                set("index", Some(format!("segment {i} of polyline {k} is not found in its index")));
            }
            if !hit2(&res.plines_index).contains(&k) {
                set("index", Some(format!("polyline {k} is not found in the index of the shape at segment {i}")));
            }
            let o = &ip.spatial_index.bounds();
            let cover = o.as_ref().map(|o| o.min_x <= b.0 + 1e-7 && o.min_y <= b.1 + 1e-7 && o.max_x >= b.2 - 1e-7 && o.max_y >= b.3 - 1e-7);
            if cover != Some(true) {
                set("index", Some(format!("index of polyline {k} does not cover segment {i}")));
            }
        }
    }
    // completeness and regions on both sides of every edge of the true curve
    let far_in = (d > 0.0) as i32; // is the far side material of the result?
    for x in true_edges(&segs, d, &wanted) {
        let dist = rs.iter().map(|s| dist_segs(s, x.m)).fold(f64::INFINITY, f64::min);
        if dist > TOL {
            set("complete", Some(format!("offset curve point ({:.6},{:.6}) is missing (nearest result at {dist:.2e})", x.m.x, x.m.y)));
            break;
        }
        for (q, m) in [(x.near, 1 - far_in), (x.far, far_in)] {
            if rs.iter().any(|s| dist_segs(s, q) < DELTA * 0.3) {
                continue;
            }
            let w: i32 = rs.iter().map(|s| winding(s, q)).sum();
            let want = sh.material - 1 + m;
            if w != want {
                set("region", Some(format!("point ({:.6},{:.6}) has winding {w} in the result, expected {want}", q.x, q.y)));
            }
        }
    }
    let _ = rad;
    if e.is_some() {
        let one = Path::new(vec![], true);
        if (Input { path: one, segs: segs.clone(), ccw: true }).tolerance_limited(d) {
            r.class("tolerance_limited");
            e = None;
        }
    }
    let l = e.as_ref().map(|x| x.0).unwrap_or("");
    r.check(e.is_none(), l, || format!("{}; result ccw: {} cw: {}", e.as_ref().unwrap().1, show_all(&ccw), show_all(&cw)));
}

fn at(q: &Path, d: P) -> Path {
    q.translate(d)
}

/// small closed simple shapes around the origin, not larger than about 1 x 1
fn small(amp: f64, thorough: bool) -> Vec<Path> {
    let l = lattice(2, 2, 0.8, amp, 11);
    let mut v = vec![];
    v.extend(closed_simple(&l, 2, &[Q8, 1.0, -1.0], 0.02));
    v.extend(closed_simple(&l, 3, if thorough { &[0.0, Q8, -0.3] } else { &[0.0, Q8] }, 0.02));
    v.extend(closed_simple(&l, 4, if thorough { &[0.0, Q8, -0.3] } else { &[0.0, -0.3] }, 0.02));
    let v: Vec<Path> = v.into_iter().map(|q| orient(&q, true)).collect();
    let mut v = modulo_symmetry(v);
    v.push(Path::new(vec![vx(0.0, 0.0, 1.0), vx(0.8, 0.0, 1.0)], true));
    v
}

fn big() -> Vec<Path> {
    let c = |v: &[(f64, f64, f64)]| Path::new(v.iter().map(|x| vx(x.0, x.1, x.2)).collect(), true);
    vec![
        c(&[(-2.0, -2.0, 0.0), (2.0, -2.0, 0.0), (2.0, 2.0, 0.0), (-2.0, 2.0, 0.0)]),
        c(&[(-2.3, 0.1, 1.0), (2.3, 0.1, 1.0)]),
        c(&[(-2.0, -2.0, 0.0), (2.0, -2.0, 0.4), (2.0, 2.0, 0.0), (0.1, 0.9, 0.0), (-2.0, 2.0, -0.2)]),
        c(&[(-2.2, -1.1, 0.0), (2.1, -1.3, 1.0), (2.2, 1.4, 0.0), (-2.3, 1.2, 0.7)]),
        c(&[(-2.0, -2.0, 0.0), (2.0, -2.0, 0.0), (2.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.5, 2.0, 0.0), (-2.0, 2.0, 0.0)]),
    ]
}

struct Sp {
    name: &'static str,
    shapes: Vec<Sh>,
    d: Vec<f64>,
}

fn spaces(thorough: bool) -> Vec<Sp> {
    let mut out = vec![];
    let signed = |a: &[f64]| -> Vec<f64> { a.iter().flat_map(|x| [*x, -*x]).collect() };
    for (amp, tag) in [(0.09, 0), (0.0, 1)] {
        let sm = small(amp, thorough);
        let j = |k: usize| if amp > 0.0 { jitter(k, 3, 0.07) } else { p(0.0, 0.0) };
        let d = signed(match (tag, thorough) {
            (0, false) => &[0.07, 0.19, 0.37, 0.61],
            (0, true) => &[0.04, 0.13, 0.28, 0.37, 0.61, 0.93],
            (_, false) => &[0.1, 0.2, 0.4],
            _ => &[0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.8],
        });
        // two and three islands side by side; the same as holes in the plane
        let pos: Vec<P> = [(1.1, 0.0), (1.3, 0.7), (-0.3, 1.2), (1.0, -1.0)].iter().enumerate().map(|(k, x)| p(x.0, x.1) + j(k)).collect();
        let mut isl = vec![];
        let few: Vec<&Path> = sm.iter().step_by(if thorough { 13 } else { 11 }).collect();
        for a in &sm {
            for b in &few {
                for q in &pos {
                    let l = vec![a.clone(), at(b, *q)];
                    if apart(&l, 0.03) {
                        isl.push(Sh { loops: l.clone(), material: 1 });
                        isl.push(Sh { loops: l.iter().map(|q| orient(q, false)).collect(), material: 0 });
                    }
                }
            }
        }
        for (i, a) in few.iter().enumerate() {
            for b in few.iter().skip(i % 2).step_by(2) {
                for c in few.iter().step_by(3) {
                    for (q1, q2) in [(0, 2), (3, 0), (2, 1)] {
                        let l = vec![(*a).clone(), at(b, pos[q1]), at(c, pos[q2])];
                        if apart(&l, 0.03) {
                            // every order of the list matters for slice selection
                            isl.push(Sh { loops: l.clone(), material: 1 });
                            isl.push(Sh { loops: l.iter().rev().map(|q| orient(q, false)).collect(), material: 0 });
                        }
                    }
                }
            }
        }
        out.push(Sp { name: ["islands-generic", "islands-special"][tag], shapes: isl, d: d.clone() });
        // holes in a big outer polyline
        let grid: Vec<P> = (0..9).map(|k| p(-1.6 + 1.2 * (k % 3) as f64, -1.6 + 1.2 * (k / 3) as f64) + j(k + 9)).collect();
        let mut hol = vec![];
        let hs: Vec<&Path> = sm.iter().step_by(if thorough { 3 } else { 8 }).collect();
        for b in big() {
            for h in &hs {
                for g in &grid {
                    let l = vec![b.clone(), orient(&at(h, *g), false)];
                    if apart(&l, 0.03) && inside(&l[1], &b) {
                        hol.push(Sh { loops: l, material: 1 });
                    }
                }
            }
            let hs: Vec<&Path> = sm.iter().step_by(if thorough { 17 } else { 17 }).collect();
            for h in &hs {
                for k in &hs {
                    for x in 0..9 {
                        for y in 0..x {
                            let l = vec![orient(&at(k, grid[y]), false), b.clone(), orient(&at(h, grid[x]), false)];
                            if apart(&l, 0.03) && inside(&l[0], &b) && inside(&l[2], &b) {
                                hol.push(Sh { loops: l, material: 1 });
                            }
                        }
                    }
                }
            }
        }
        out.push(Sp { name: ["holes-generic", "holes-special"][tag], shapes: hol, d: d.clone() });
        // island inside a hole inside an outer polyline, and the complement
        let mut nest = vec![];
        for b in big() {
            for m in big() {
                let m = m.scale(0.65);
                for h in &hs {
                    for g in &grid {
                        let l = vec![b.clone(), orient(&m, false), at(h, *g)];
                        if apart(&l, 0.03) && inside(&l[1], &b) && inside(&l[2], &m) {
                            nest.push(Sh { loops: l.clone(), material: 1 });
                            nest.push(Sh { loops: l.iter().map(|q| q.rev()).collect(), material: 0 });
                        }
                    }
                }
            }
        }
        out.push(Sp { name: ["nested-generic", "nested-special"][tag], shapes: nest, d });
    }
    // exact lattices turned, contacts hold up to rounding
    for k in 0..3 {
        let sp = &out[3 + k];
        let shapes = sp.shapes.iter().map(|s| Sh { loops: turned(s.loops.clone(), k), material: s.material }).collect();
        let (name, d) = (["islands-turned", "holes-turned", "nested-turned"][k], sp.d.clone());
        let almost = sp.shapes.iter().map(|s| Sh { loops: nudged(s.loops.clone(), k as u64, [1e-7, 1e-4, 3e-10][k]), material: s.material }).collect();
        out.push(Sp { name, shapes, d: d.clone() });
        out.push(Sp { name: ["islands-nudged", "holes-nudged", "nested-nudged"][k], shapes: almost, d });
    }
    // rings of side profiles inside of each other, with an island beside or within the hole
    let outer = rings(3, if thorough { "FADTNSUW" } else { "FANSUW" }, 2.6);
    let hole = rings(3, if thorough { "FADTNSUW" } else { "ATSUW" }, 1.25);
    let mut nest = vec![];
    for (i, a) in outer.iter().enumerate() {
        for (j, b) in hole.iter().enumerate() {
            let b = b.translate(p(0.07, -0.06));
            if !inside(&b, a) || !apart(&[a.clone(), b.clone()], 0.03) {
                continue;
            }
            let mut l = vec![a.clone(), b.rev()];
            match (i + j) % 3 {
                1 => l.push(a.scale(0.21)),
                2 => l.insert(0, b.scale(0.8).translate(p(2.2, 1.4))),
                _ => {}
            }
            if apart(&l, 0.03) && (l.len() == 2 || (inside(&l[2], &b) || !inside(&l[0], &l[1]))) {
                nest.push(Sh { loops: l.clone(), material: 1 });
                nest.push(Sh { loops: l.iter().map(|q| q.rev()).collect(), material: 0 });
            }
        }
    }
    out.push(Sp { name: "rings", shapes: nest, d: signed(if thorough { &[0.05, 0.13, 0.24, 0.37, 0.55] } else { &[0.06, 0.19, 0.41] }) });
    out.push(Sp { name: "splitting", shapes: splitting(thorough), d: signed(if thorough { &[0.06, 0.1, 0.17, 0.23, 0.31, 0.4] } else { &[0.07, 0.19, 0.31] }) });
    out
}

/// loops whose offsets fall apart (dumbbells inward, rings with a gap outward) next to loops that interact
fn splitting(thorough: bool) -> Vec<Sh> {
    let c = |v: &[(f64, f64, f64)]| Path::new(v.iter().map(|x| vx(x.0, x.1, x.2)).collect(), true);
    let bar = |w: f64| {
        let (a, b) = (0.5 - w / 2.0, 0.5 + w / 2.0);
        c(&[
            (-1.5, 0.0, 0.0), (-0.5, 0.0, 0.0), (-0.5, a, 0.0), (0.5, a, 0.0), (0.5, 0.0, 0.0), (1.5, 0.0, 0.0),
            (1.5, 1.0, 0.0), (0.5, 1.0, 0.0), (0.5, b, 0.0), (-0.5, b, 0.0), (-0.5, 1.0, 0.0), (-1.5, 1.0, 0.0),
        ])
    };
    let three = c(&[
        (-1.6, 0.0, 1.0), (-0.7, 0.07, 0.0), (-0.3, 0.08, 0.0), (-0.2, 0.0, 1.0), (0.6, 0.0, 0.0), (1.0, 0.05, 0.0),
        (1.4, 0.0, 1.0), (1.4, 0.9, 0.0), (1.0, 0.32, 0.0), (0.6, 0.9, 1.0), (-0.2, 0.9, 0.0), (-0.3, 0.33, 0.0), (-0.7, 0.31, 0.0), (-1.6, 0.9, 1.0),
    ]);
    // rings of width 0.3 with a gap
    let ring = |g: f64| {
        c(&[
            (-g, -0.6, 0.0), (-g, -0.9, 0.0), (-0.9, -0.9, 0.0), (-0.9, 0.9, 0.0), (0.9, 0.9, 0.0), (0.9, -0.9, 0.0), (g, -0.9, 0.0),
            (g, -0.6, 0.0), (0.6, -0.6, 0.0), (0.6, 0.6, 0.0), (-0.6, 0.6, 0.0), (-0.6, -0.6, 0.0),
        ])
    };
    let gadgets: Vec<Path> = [bar(0.3), three, ring(0.12), ring(0.05)].iter().map(|q| orient(q, true)).filter(|q| is_simple(q, 0.02)).collect();
    assert!(gadgets.len() == 4);
    let sm = [
        c(&[(0.0, 0.0, 0.0), (0.7, 0.05, 0.0), (0.62, 0.8, 0.0), (0.03, 0.7, 0.0)]),
        c(&[(0.0, 0.0, 1.0), (0.6, 0.11, 1.0)]),
        c(&[(0.0, 0.0, 0.0), (0.75, 0.21, 0.0), (0.1, 0.6, -0.3)]),
    ];
    let pos: Vec<P> = (0..if thorough { 30 } else { 15 }).map(|k| p(-2.4 + 1.0 * (k % 5) as f64, -1.85 + 1.03 * (k / 5 % 3) as f64 + 0.31 * (k / 15) as f64) + jitter(k, 5, 0.1)).collect();
    let mut out = vec![];
    for g in &gadgets {
        for (i, a) in sm.iter().enumerate() {
            for b in sm.iter().skip(i % 2) {
                for x in &pos {
                    for y in &pos {
                        let l = vec![g.clone(), at(a, *x), at(b, *y)];
                        if !apart(&l, 0.03) || inside(&l[1], g) || inside(&l[2], g) {
                            continue;
                        }
                        let near = |i: usize, j: usize| l[i].segs().iter().any(|s| l[j].segs().iter().any(|t| seg_seg_dist(s, t) < 0.6));
                        if !near(1, 2) || !(near(0, 1) || near(0, 2)) {
                            continue;
                        }
                        out.push(Sh { loops: l.clone(), material: 1 });
                        out.push(Sh { loops: l.iter().map(|q| orient(q, false)).collect(), material: 0 });
                        if thorough {
                            let r: Vec<Path> = [1, 0, 2].iter().map(|k| l[*k].clone()).collect();
                            out.push(Sh { loops: r.clone(), material: 1 });
                            out.push(Sh { loops: r.iter().map(|q| orient(q, false)).collect(), material: 0 });
                        }
                    }
                }
            }
        }
        // an island with a hole near its edge listed after the gadget
        let plate = c(&[(-2.2, -2.6, 0.0), (2.2, -2.4, 0.0), (2.0, -1.0, 0.0), (-2.1, -1.05, 0.0)]);
        for a in &sm {
            for x in 0..8 {
                for y in 0..3 {
                    let h = orient(&at(a, p(-2.0 + 0.43 * x as f64, -2.45 + 0.2 * y as f64)), false);
                    let l = vec![g.clone(), plate.clone(), h];
                    if apart(&l, 0.03) && inside(&l[2], &plate) {
                        out.push(Sh { loops: l.clone(), material: 1 });
                        out.push(Sh { loops: l.iter().map(|q| q.rev()).collect(), material: 0 });
                    }
                }
            }
        }
    }
    out
}

/// the shape holds the given polylines, in order, in the list of their direction, with full indexes
fn built(r: &mut Rec, loops: &[Path], s: &Shape<f64>) {
    let kept: Vec<&Path> = loops.iter().filter(|q| q.v.len() > 1).collect();
    let (a, b): (Vec<&Path>, Vec<&Path>) = kept.iter().partition(|q| q.closed && q.area() > 0.0);
    let got = |l: &[IndexedPolyline<f64>]| -> Vec<Path> { l.iter().map(|q| path_of(&q.polyline)).collect() };
    let same = |x: &[&Path], y: &[Path]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| *p == q);
    r.check(same(&a, &got(&s.ccw_plines)) && same(&b, &got(&s.cw_plines)), "from_plines", || {
        format!("{} | {}", show_all(&got(&s.ccw_plines)), show_all(&got(&s.cw_plines)))
    });
    for (k, q) in s.ccw_plines.iter().chain(&s.cw_plines).enumerate() {
        for (i, t) in path_of(&q.polyline).segs().iter().enumerate() {
            let b = t.bounds();
            let ok = q.spatial_index.query(b.0, b.1, b.2, b.3).contains(&i) && s.plines_index.query(b.0, b.1, b.2, b.3).contains(&k);
            r.check(ok, "index of a new shape", || format!("segment {i} of polyline {k} is not found"));
        }
    }
}

pub fn p08(cx: &Ctx) -> i32 {
    for sp in spaces(cx.thorough) {
        let nd = sp.d.len();
        cx.space(sp.name, sp.shapes.len() * nd, |i, r| {
            let (a, d) = (&sp.shapes[i / nd], sp.d[i % nd]);
            r.case(|| format!("{} offset={d}", show_all(&a.loops)));
            r.call();
            let s = Shape::from_plines(a.loops.iter().map(pl));
            if i % nd == 0 {
                built(r, &a.loops, &s);
            }
            let res = s.parallel_offset(d, ShapeOffsetOptions::new());
            r.class(match res.ccw_plines.len() + res.cw_plines.len() {
                0 => "empty",
                1 => "one",
                n if n == a.loops.len() => "as many",
                _ => "merged or split",
            });
            check(r, a, d, &res);
        });
    }
    // every list of up to 3 polylines of these kinds
    let kinds: Vec<Path> = vec![
        Path::new(vec![], true),
        Path::new(vec![vx(5.0, 5.0, 0.3)], true),
        Path::new(vec![vx(5.0, 5.0, 0.3)], false),
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(1.0, 0.0, 0.0), vx(0.0, 1.0, 0.0)], true),
        Path::new(vec![vx(3.0, 0.0, -1.0), vx(4.0, 0.0, -1.0)], true),
        Path::new(vec![vx(0.0, 3.0, 0.0), vx(1.0, 4.0, 0.0), vx(2.0, 3.0, 0.0)], true),
    ];
    let n = kinds.len();
    for k in 0..=3 {
        cx.space(&format!("lists-{k}"), n.pow(k as u32), |i, r| {
            let l: Vec<Path> = (0..k).map(|j| kinds[i / n.pow(j as u32) % n].clone()).collect();
            r.case(|| show_all(&l));
            r.call();
            let s = Shape::from_plines(l.iter().map(pl));
            built(r, &l, &s);
            let kept = l.iter().filter(|q| q.v.len() > 1).count();
            if kept == 0 {
                let z = s.parallel_offset(0.1, ShapeOffsetOptions::new());
                let e = Shape::<f64>::empty();
                let none = |s: &Shape<f64>| s.ccw_plines.is_empty() && s.cw_plines.is_empty() && s.plines_index.bounds().is_none();
                r.check(none(&s) && none(&z) && none(&e), "empty shape", || show_all(&l));
            }
        });
    }
    cx.finish("one state per (shape of up to 3 polylines, offset); the exact offset curve of the whole region is constructed by brute force and compared both ways")
}
