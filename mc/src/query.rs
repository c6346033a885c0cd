//! P09 winding numbers, P10 measures, P11 closest point / point at length, P23 spatial indexes:
//! every path of complete lattice families x every query of a complete grid.
use crate::gen::*;
use crate::geo::*;
use crate::run::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;

pub const Q8: f64 = 0.41421356237309503; // 90 degree arc
const S: f64 = 0.2; // about 45 degree arc

pub fn v2(q: P) -> Vector2<f64> {
    Vector2::new(q.x, q.y)
}
pub fn r2(q: Vector2<f64>) -> P {
    p(q.x, q.y)
}

/// Paths whose vertices are given by all words (repeats allowed, `adjacent` repeats too or not)
pub fn walks(pts: &[P], k: usize, bulges: &[f64], closed: bool, adjacent: bool) -> Vec<Path> {
    let mut out = vec![];
    words(pts.len(), k, |ix| {
        if closed && ix.iter().any(|i| *i < ix[0]) {
            return;
        }
        let m = if closed { k } else { k - 1 };
        if !adjacent && (0..m).any(|i| ix[i] == ix[(i + 1) % k]) {
            return;
        }
        if !adjacent && (0..k).all(|i| (0..i).all(|j| ix[i] != ix[j])) {
            return; // no repeat at all: belongs to the families of distinct vertices
        }
        words(bulges.len(), m, |w| {
            let v = (0..k)
                .map(|i| vx(pts[ix[i]].x, pts[ix[i]].y, if i < m { bulges[w[i]] } else { 0.0 }))
                .collect();
            out.push(Path::new(v, closed));
        });
    });
    out
}

/// The families of paths shared by the query properties
pub fn families(cx: &Ctx, open: bool) -> Vec<(String, Vec<Path>)> {
    let exact = lattice(3, 3, 1.0, 0.0, 0);
    let jit = lattice(3, 3, 1.0, 0.11, 7);
    let sq = lattice(3, 2, 1.0, 0.0, 0);
    let full = [0.0, Q8, -Q8, 1.0, -1.0];
    let some = [0.0, 1.0, -Q8];
    let mut o: Vec<(String, Vec<Path>)> = vec![];
    for closed in [true, false] {
        if !closed && !open {
            continue;
        }
        let t = if closed { "closed" } else { "open" };
        for (nm, pts) in [("exact", &exact), ("jittered", &jit)] {
            o.push((format!("{t}2-{nm}"), any_paths(pts, 2, &[0.0, S, -S, Q8, -Q8, 0.8, -0.8, 1.0, -1.0], closed)));
            o.push((format!("{t}3-{nm}"), any_paths(pts, 3, &[0.0, S, -S, Q8, -Q8, 1.0, -1.0], closed)));
            o.push((format!("{t}4-{nm}"), any_paths(pts, 4, if cx.thorough { &full } else { &some }, closed)));
        }
        o.push((format!("{t}4-walks"), walks(&sq, 4, &some, closed, false)));
        o.push((format!("{t}5-walks"), walks(&sq, 5, if cx.thorough { &some } else { &[1.0, -Q8] }, closed, false)));
        if cx.thorough {
            o.push((format!("{t}5-block"), any_paths(&sq, 5, &[0.0, 1.0, -Q8, Q8], closed)));
            o.push((format!("{t}5-jittered-block"), any_paths(&lattice(3, 2, 1.0, 0.17, 5), 5, &[0.0, 1.0, -1.0, Q8], closed)));
            o.push((format!("{t}6-walks"), walks(&lattice(2, 2, 1.0, 0.0, 0), 6, &[0.0, 1.0, -Q8], closed, false)));
        }
        if cx.deep {
            o.push((format!("{t}4-more-bulges"), any_paths(&lattice(3, 3, 1.0, 0.13, 3), 4, &[0.0, S, -Q8, 0.8, -1.0, 1.0, -0.05], closed)));
            o.push((format!("{t}5-3x3"), any_paths(&exact, 5, &some, closed)));
            o.push((format!("{t}6-block"), any_paths(&sq, 6, &some, closed)));
        }
        o.push((format!("{t}3-turned"), turned(any_paths(&exact, 3, if cx.deep { &full } else { &some }, closed), 1)));
        o.push((format!("{t}-walks-turned"), turned(walks(&sq, 4, &some, closed, false), 2)));
        // many vertices: rings and stars of side profiles
        let mut v = rings(3, "FADTNIJYSUBCW", 1.6);
        v.extend(rings(4, if cx.deep { "FADTNJYSUBCW" } else { "FTNJSUCW" }, 1.6));
        v.extend(stars(5, 2, if cx.deep { "FADTNIJYSUBCW" } else { "FADTNSUW" }, 1.6));
        v.extend(stars(7, 3, if cx.deep { "FDTSW" } else { "DTW" }, 1.6));
        for q in &mut v {
            *q = q.translate(p(1.0, 1.0));
            q.closed = closed;
        }
        o.push((format!("{t}-rings"), v));
        o.push((format!("{t}-repeats"), {
            let pts = lattice(2, 2, 1.0, 0.0, 0);
            let mut v = walks(&pts, 2, &[0.0, 1.0], closed, true);
            v.extend(walks(&pts, 3, &[0.0, 1.0, -Q8], closed, true));
            v.extend(walks(&pts, 4, &[0.0, -1.0], closed, true));
            v
        }));
        o.push((format!("{t}-tiny"), vec![Path::new(vec![], closed), Path::new(vec![vx(1.0, 0.5, 0.0)], closed), Path::new(vec![vx(0.5, 0.5, 1.0)], closed)]));
    }
    o
}

fn grid(lo: f64, hi: f64, step: f64) -> Vec<P> {
    let n = ((hi - lo) / step).round() as usize;
    let mut o = vec![];
    for j in 0..=n {
        for i in 0..=n {
            o.push(p(lo + i as f64 * step, lo + j as f64 * step));
        }
    }
    o
}

pub fn p09(cx: &Ctx) -> i32 {
    let g = grid(-0.75, 2.75, 0.25);
    for (name, paths) in families(cx, true) {
        cx.space(&name, paths.len(), |i, r| {
            let path = &paths[i];
            r.case(|| show(path));
            let segs = path.segs();
            let a = pl(path);
            let back = pl(&path.rev());
            let n = path.v.len();
            let turned: Vec<Polyline<f64>> = if path.closed { (1..n).map(|k| pl(&path.start(k))).collect() } else { vec![] };
            let ok_geo = segs.iter().all(|s| s.len() > 1e-9 || s.bulge == 0.0 || s.a == s.b);
            if !ok_geo {
                return;
            }
            let mut near = vec![];
            for s in &segs {
                if s.len() < 1e-9 {
                    continue;
                }
                for t in [0.03, 0.5, 0.9] {
                    for d in [1e-4, -1e-4] {
                        near.push(s.at(t) + s.tan(t).left() * d);
                    }
                }
            }
            let mut most = 0;
            for (k, q) in g.iter().chain(near.iter()).enumerate() {
                if dist_segs(&segs, *q) < 1e-6 {
                    continue;
                }
                let want = if path.closed { winding(&segs, *q) } else { 0 };
                most = most.max(want.abs());
                let got = a.winding_number(v2(*q));
                r.call();
                if !r.check(got == want, "winding number", || format!("at {q:?}: {got}, exact {want}")) {
                    return;
                }
                let got = back.winding_number(v2(*q));
                r.call();
                if !r.check(got == -want, "winding number of the inverted path", || format!("at {q:?}: {got}, exact {}", -want)) {
                    return;
                }
                if k % 4 == 0 {
                    for (s, b) in turned.iter().enumerate() {
                        let got = b.winding_number(v2(*q));
                        r.call();
                        if !r.check(got == want, "winding number with another start vertex", || format!("start {} at {q:?}: {got}, exact {want}", s + 1)) {
                            return;
                        }
                    }
                }
            }
            r.class(match most {
                0 => "encloses no query",
                1 => "turns once",
                2 => "turns twice",
                _ => "turns three times or more",
            });
        });
    }
    cx.note("Queries within 1e-6 of the path are excluded, as documented. Arcs are limited to half circles as the data type demands.");
    cx.finish("all vertex sequences over a 3x3 lattice (exact and jittered) x all words of a bulge alphabet x all points of a 15x15 query grid plus points 1e-4 beside every segment; winding number compared with an independent signed crossing count for the path, its inverse and every start vertex")
}

fn box_of(segs: &[Seg]) -> (f64, f64, f64, f64) {
    segs.iter().fold((f64::MAX, f64::MAX, f64::MIN, f64::MIN), |b, s| {
        let c = s.bounds();
        (b.0.min(c.0), b.1.min(c.1), b.2.max(c.2), b.3.max(c.3))
    })
}
fn box_eq(a: (f64, f64, f64, f64), b: (f64, f64, f64, f64), tol: f64) -> bool {
    (a.0 - b.0).abs() < tol && (a.1 - b.1).abs() < tol && (a.2 - b.2).abs() < tol && (a.3 - b.3).abs() < tol
}

fn measures(r: &mut Rec, tag: &str, path: &Path, tol: f64) -> bool {
    let segs = path.segs();
    let a = pl(path);
    let area = path.area();
    let len = path.len();
    for _ in 0..4 {
        r.call();
    }
    let g = a.area();
    if !r.check((g - area).abs() < tol, "area", || format!("{tag}: area {g}, exact {area}")) {
        return false;
    }
    let g = a.path_length();
    if !r.check((g - len).abs() < tol, "path length", || format!("{tag}: path_length {g}, exact {len}")) {
        return false;
    }
    let g = a.extents();
    let ok = match &g {
        None => segs.is_empty(),
        Some(b) => !segs.is_empty() && box_eq((b.min_x, b.min_y, b.max_x, b.max_y), box_of(&segs), tol),
    };
    if !r.check(ok, "extents", || format!("{tag}: extents {g:?}, exact {:?}", box_of(&segs))) {
        return false;
    }
    let o = a.orientation();
    let ok = match o {
        PlineOrientation::Open => !path.closed,
        PlineOrientation::Clockwise => path.closed && area < tol,
        PlineOrientation::CounterClockwise => path.closed && area > -tol,
    };
    r.check(ok, "orientation", || format!("{tag}: {o:?} with exact area {area}"))
}

pub fn p10(cx: &Ctx) -> i32 {
    for (name, paths) in families(cx, true) {
        cx.space(&name, paths.len(), |i, r| {
            let path = &paths[i];
            r.case(|| show(path));
            r.class(if !path.closed {
                "open"
            } else if path.area() > 1e-6 {
                "counter clockwise"
            } else if path.area() < -1e-6 {
                "clockwise"
            } else {
                "zero area"
            });
            if !measures(r, "as given", path, 1e-7) || !measures(r, "inverted", &path.rev(), 1e-7) {
                return;
            }
            if path.closed {
                for k in 1..path.v.len() {
                    if !measures(r, "other start vertex", &path.start(k), 1e-7) {
                        return;
                    }
                }
            }
            let moved = path.translate(p(-3.25, 7.5));
            let big = path.scale(8.0);
            let small = path.scale(0.125);
            let mirrored = path.map(|q| p(-q.x, q.y), true);
            for (t, q, f) in [("translated", &moved, 1e-6), ("scaled by 8", &big, 1e-5), ("scaled by 1/8", &small, 1e-7), ("mirrored", &mirrored, 1e-7)] {
                if !measures(r, t, q, f) {
                    return;
                }
            }
        });
    }
    cx.finish("all vertex sequences over lattices x all bulge words x {as given, inverted, every start vertex, translated, scaled, mirrored}; area, path length, extents and orientation compared with the closed form of every segment")
}

pub fn p11(cx: &Ctx) -> i32 {
    let g = grid(-1.0, 3.0, 0.5);
    for (name, paths) in families(cx, true) {
        cx.space(&name, paths.len(), |i, r| {
            let path = &paths[i];
            r.case(|| show(path));
            let a = pl(path);
            let segs = path.segs();
            let n = path.v.len();
            let mut qs = g.clone();
            for s in &segs {
                if let Some(k) = s.arc {
                    qs.push(k.c);
                    qs.push(k.c + p(1e-3, -2e-3));
                    for d in [p(2e-5, 1e-5), p(-1e-5, 2e-5), p(-2e-5, -2e-5), p(1e-6, -2e-6)] {
                        qs.push(k.c + d);
                    }
                    qs.push(k.c + (s.a - k.c) * 1.5);
                    qs.push(k.c - (s.a - k.c) * 0.5);
                    qs.push(k.c + (s.b - k.c) * 0.5);
                    qs.push(s.at(0.5) + s.tan(0.5) * 1e-3);
                }
                qs.push(s.at(0.3));
                qs.push(s.at(1.0));
            }
            for q in &qs {
                r.call();
                let got = a.closest_point(v2(*q), 1e-9);
                let Some(c) = got else {
                    r.check(n == 0, "closest point is None", || format!("query {q:?}"));
                    continue;
                };
                if n == 0 {
                    r.fail("closest point of an empty polyline", format!("{q:?}"));
                    return;
                }
                let want = if n == 1 { path.v[0].p().dist(*q) } else { dist_segs(&segs, *q) };
                let cp = r2(c.seg_point);
                let on = if n == 1 { cp.dist(path.v[0].p()) } else { segs.get(c.seg_start_index).map(|s| s.dist(cp)).unwrap_or(9.0) };
                if !r.check((c.distance - want).abs() < 1e-7, "closest distance", || format!("query {q:?}: distance {} exact {want}", c.distance)) {
                    return;
                }
                if !r.check((cp.dist(*q) - want).abs() < 1e-7, "closest point is not at the distance", || format!("query {q:?}: point {cp:?} exact distance {want}")) {
                    return;
                }
                if !r.check(on < 1e-7 && c.seg_start_index < n.max(1), "segment of the closest point", || format!("query {q:?}: point {cp:?} is {on} from segment {}", c.seg_start_index)) {
                    return;
                }
            }
            // point at path length
            let total = path.len();
            let mut cum = vec![0.0];
            for s in &segs {
                cum.push(cum.last().unwrap() + s.len());
            }
            let mut ts: Vec<f64> = vec![-2.0, -1e-3, 0.0, a.path_length()];
            for k in 1..24 {
                ts.push(total * k as f64 / 24.0);
            }
            for c in &cum {
                ts.push(*c - 1e-7);
                ts.push(*c);
                ts.push(*c + 1e-7);
            }
            for t in [1e-6, 0.5, 100.0] {
                ts.push(total + t);
            }
            for t in ts {
                r.call();
                match a.find_point_at_path_length(t) {
                    Err(e) => {
                        if !r.check((e - total).abs() < 1e-7 && (t > total - 1e-9 || n == 0), "point at length fails", || format!("target {t}: Err({e}), exact total {total}")) {
                            return;
                        }
                        if n == 0 {
                            continue;
                        }
                        // the exact total itself has to be found
                        if !r.check(t > a.path_length() - 1e-12, "point at length fails within the path", || format!("target {t}, path length {}", a.path_length())) {
                            return;
                        }
                    }
                    Ok((ix, pt)) => {
                        let pt = r2(pt);
                        if n == 0 {
                            r.fail("point at length of an empty polyline", format!("target {t}: {pt:?}"));
                            return;
                        }
                        if !r.check(t <= total + 1e-9, "point at length beyond the end", || format!("target {t} total {total}: {pt:?}")) {
                            return;
                        }
                        let tt = t.max(0.0).min(total);
                        let want = if n == 1 || total == 0.0 {
                            path.v[0].p()
                        } else {
                            let k = (0..segs.len()).find(|k| cum[k + 1] >= tt && segs[*k].len() > 0.0).unwrap_or(segs.len() - 1);
                            let l = segs[k].len();
                            segs[k].at(if l > 0.0 { ((tt - cum[k]) / l).clamp(0.0, 1.0) } else { 0.0 })
                        };
                        if !r.check(want.dist(pt) < 1e-6, "point at length", || format!("target {t}: {pt:?} exact {want:?}")) {
                            return;
                        }
                        let fits = n == 1 || (ix < segs.len() && cum[ix] <= tt + 1e-6 && tt - 1e-6 <= cum[ix + 1]);
                        if !r.check(fits, "segment of the point at length", || format!("target {t}: segment {ix} of lengths {cum:?}")) {
                            return;
                        }
                    }
                }
            }
        });
    }
    cx.finish("all vertex sequences over lattices x all bulge words x (query grid + arc centres, sector rays, on-path points; every 1/24 of the length, every vertex +-1e-7, negative and beyond); compared with brute force over all segments")
}

pub fn p23(cx: &Ctx) -> i32 {
    let mut fams = families(cx, true);
    // many segments: several levels of the index
    let mut long = vec![];
    for n in [15usize, 16, 17, 40, 300] {
        for b in [0.0, 1.0, -Q8] {
            for closed in [true, false] {
                let v = (0..n).map(|i| vx(i as f64 * 0.37 % 5.0, (i * i % 7) as f64 * 0.5, if i % 3 == 0 { b } else { 0.0 })).collect();
                long.push(Path::new(v, closed));
            }
        }
    }
    fams.push(("many-segments".into(), long));
    let boxes: Vec<(P, f64)> = grid(-1.0, 3.0, 0.8).into_iter().flat_map(|c| [(c, 0.05), (c, 0.6)]).collect();
    for (name, paths) in fams {
        cx.space(&name, paths.len(), |i, r| {
            let path = &paths[i];
            r.case(|| show(path));
            let a = pl(path);
            let segs = path.segs();
            let n = segs.len();
            for exact in [true, false] {
                r.call();
                let ix = if exact { a.create_aabb_index() } else { a.create_approx_aabb_index() };
                let nm = if exact { "exact" } else { "approximate" };
                if !r.check(ix.count() == n, "index item count", || format!("{nm}: {} items for {n} segments", ix.count())) {
                    return;
                }
                if n == 0 {
                    r.class("no segments");
                    let got = ix.query(-1e9, -1e9, 1e9, 1e9);
                    r.check(got.is_empty() && ix.bounds().is_none(), "index of too short polyline", || format!("{nm}: {got:?} {:?}", ix.bounds()));
                    continue;
                }
                r.class("indexed");
                // every item box
                let ids = ix.item_indices();
                let bx = ix.item_boxes();
                let mut seen = vec![false; n];
                for (k, b) in bx.iter().enumerate() {
                    let s = ids[k];
                    if !r.check(s < n && !seen[s], "index item key", || format!("{nm}: key {s}")) {
                        return;
                    }
                    seen[s] = true;
                    let t = segs[s].bounds();
                    let e = 1e-7;
                    let ok = b.min_x <= t.0 + e && b.min_y <= t.1 + e && b.max_x >= t.2 - e && b.max_y >= t.3 - e;
                    if !r.check(ok, "index box contains its segment", || format!("{nm}: segment {s} box {b:?} exact {t:?}")) {
                        return;
                    }
                    if exact && !r.check(box_eq((b.min_x, b.min_y, b.max_x, b.max_y), t, 1e-7), "exact index box is tight", || format!("segment {s} box {b:?} exact {t:?}")) {
                        return;
                    }
                }
                let t = box_of(&segs);
                let ok = ix.bounds().map(|b| b.min_x <= t.0 + 1e-7 && b.min_y <= t.1 + 1e-7 && b.max_x >= t.2 - 1e-7 && b.max_y >= t.3 - 1e-7).unwrap_or(false);
                if !r.check(ok, "index bounds contain the polyline", || format!("{nm}: {:?} exact {t:?}", ix.bounds())) {
                    return;
                }
                if exact && !r.check(box_eq(ix.bounds().map(|b| (b.min_x, b.min_y, b.max_x, b.max_y)).unwrap(), t, 1e-7), "exact index bounds are tight", || format!("{:?} exact {t:?}", ix.bounds())) {
                    return;
                }
                for (c, h) in &boxes {
                    r.call();
                    let mut got = ix.query(c.x - h, c.y - h, c.x + h, c.y + h);
                    got.sort();
                    let m = got.len();
                    got.dedup();
                    if !r.check(m == got.len() && got.iter().all(|s| *s < n), "query keys are unique segments", || format!("{nm}: {got:?}")) {
                        return;
                    }
                    for (s, sg) in segs.iter().enumerate() {
                        let t = sg.bounds();
                        let e = 1e-7;
                        let meets = t.0 + e <= c.x + h && t.2 - e >= c.x - h && t.1 + e <= c.y + h && t.3 - e >= c.y - h;
                        let touches = t.0 - e <= c.x + h && t.2 + e >= c.x - h && t.1 - e <= c.y + h && t.3 + e >= c.y - h;
                        let has = got.binary_search(&s).is_ok();
                        if !r.check(has || !meets, "query misses a segment", || format!("{nm}: box {c:?}+-{h} misses segment {s}")) {
                            return;
                        }
                        if exact && !r.check(!has || touches, "exact query reports a segment away from the box", || format!("box {c:?}+-{h} reports segment {s}")) {
                            return;
                        }
                    }
                }
            }
        });
    }
    cx.finish("all vertex sequences over lattices x all bulge words (plus long polylines for multi-level indexes) x both index kinds; every item box, the bounds and a complete grid of query boxes compared with the exact segment bounds")
}
