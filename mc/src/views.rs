//! P19 views: every source polyline x every pair of slice positions x direction, compared with the
//! vertices of the subpath.
use crate::edits::{traces, Rail};
use crate::gen::*;
use crate::geo::*;
use crate::query::{r2, v2, Q8};
use crate::run::*;
use cavalier_contours::polyline::*;

#[derive(Clone, Copy, Debug, PartialEq)]
struct At {
    i: usize,
    t: f64,
}

/// Vertices of the subpath from s forward to e (positions already snapped to vertices).
/// None: no length. Err: not a forward subpath (open polyline).
fn model(segs: &[Seg], closed: bool, n: usize, s: At, e: At) -> Result<Option<Path>, ()> {
    let m = segs.len();
    // the last vertex of an open polyline may be named as segment m
    let fix = |a: At| if !closed && a.i >= m { At { i: m - 1, t: 1.0 } } else { a };
    let (mut s, mut e) = (fix(s), fix(e));
    let raw_e = e;
    if s.t == 1.0 && (closed || s.i + 1 < m) {
        s = At { i: (s.i + 1) % m, t: 0.0 };
    }
    if e.t == 0.0 && (closed || e.i > 0) {
        e = At { i: (e.i + m - 1) % m, t: 1.0 };
    }
    if !closed {
        let (ps, pe) = (s.i as f64 + s.t, e.i as f64 + e.t);
        if ps > pe {
            return Err(());
        }
        if ps == pe {
            return Ok(None);
        }
    } else {
        let same_vertex = s.t == 0.0 && e.t == 1.0 && (e.i + 1) % m == s.i;
        if same_vertex && raw_e.i == s.i {
            return Ok(None); // both name the start of one segment
        }
        if s == e {
            return Ok(None);
        }
    }
    let _ = n;
    let mut v: Vec<Vx> = vec![];
    let mut add = |g: &Seg, t0: f64, t1: f64| {
        let q = if t0 == 0.0 && t1 == 1.0 { *g } else { g.sub(t0, t1) };
        v.push(vx(q.a.x, q.a.y, if g.is_arc() { q.bulge } else { 0.0 }));
    };
    if s.i == e.i && s.t < e.t {
        add(&segs[s.i], s.t, e.t);
    } else {
        if s.t < 1.0 {
            add(&segs[s.i], s.t, 1.0);
        }
        let mut k = (s.i + 1) % m;
        while k != e.i {
            add(&segs[k], 0.0, 1.0);
            k = (k + 1) % m;
        }
        if e.t > 0.0 {
            add(&segs[e.i], 0.0, e.t);
        }
    }
    let q = segs[e.i].at(e.t);
    v.push(vx(q.x, q.y, 0.0));
    Ok(Some(Path::new(v, false)))
}

fn same(a: &Path, b: &Path, tol: f64) -> bool {
    let n = a.v.len();
    a.closed == b.closed
        && n == b.v.len()
        && (0..n).all(|i| {
            a.v[i].p().dist(b.v[i].p()) < tol && (i + 1 == n || (a.v[i].b - b.v[i].b).abs() < tol)
        })
}

/// everything a user reads through the view
fn read_back(r: &mut Rec, src: &Polyline<f64>, d: PlineViewData<f64>, want: &Path, tol: f64, nest: bool) {
    let valid = d.validate_for_source(src);
    r.check(valid == ViewDataValidation::IsValid, "created view is valid for its source", || format!("{valid:?}"));
    if valid != ViewDataValidation::IsValid {
        return;
    }
    for inverted in [false, true] {
        let mut d = d;
        d.inverted_direction = inverted;
        let w = if inverted { want.rev() } else { want.clone() };
        let view = d.view(src);
        r.call();
        let got = path_of(&view);
        if !r.check(same(&got, &w, tol), "view vertices are those of the subpath", || {
            format!("inverted {inverted}: got {} want {} ({d:?})", show(&got), show(&w))
        }) {
            return;
        }
        let last = w.v.len() - 1;
        r.check(got.v[last].b == 0.0, "final bulge of a view is zero", || show(&got));
        r.check(!view.is_closed() && view.get(w.v.len()).is_none(), "view is open and ends", || String::new());
        let total = w.len();
        r.check((view.path_length() - total).abs() < tol * 10.0, "length of the view", || {
            format!("{} want {total}", view.path_length())
        });
        let x = view.extents();
        let mut bb = (f64::MAX, f64::MAX, f64::MIN, f64::MIN);
        for g in w.segs() {
            let b = g.bounds();
            bb = (bb.0.min(b.0), bb.1.min(b.1), bb.2.max(b.2), bb.3.max(b.3));
        }
        let okx = x
            .map(|x| {
                (x.min_x - bb.0).abs() < tol * 10.0
                    && (x.min_y - bb.1).abs() < tol * 10.0
                    && (x.max_x - bb.2).abs() < tol * 10.0
                    && (x.max_y - bb.3).abs() < tol * 10.0
            })
            .unwrap_or(false);
        r.check(okx, "extents of the view", || format!("{x:?} want {bb:?}"));
        r.check(
            view.iter_segments().len() == last && view.iter_vertexes().len() == last + 1,
            "iterator lengths of the view",
            || String::new(),
        );
        let back: Vec<_> = view.iter_vertexes().rev().collect();
        r.check(
            back.len() == last + 1 && (0..=last).all(|k| back[k] == view.at(last - k)),
            "reverse iteration of the view",
            || format!("{back:?}"),
        );
        let copy = Polyline::create_from(&view);
        r.check(same(&path_of(&copy), &w, tol), "copy made from the view", || show(&path_of(&copy)));
        let q = w.segs()[last / 2].at(0.3);
        let c = view.closest_point(v2(q), 1e-5);
        r.check(c.map(|c| c.distance < tol * 10.0).unwrap_or(false), "closest point through the view", || {
            format!("query {q:?}: {c:?}")
        });
        r.check(view.area() == 0.0 && view.winding_number(v2(p(0.53, 0.41))) == 0, "view has no area", || String::new());
        // detach and attach again
        let det = d.view(src).detach();
        let again = path_of(&det.view(src));
        r.check(again == got && det.inverted_direction == inverted, "detached view data is the same", || format!("{det:?}"));
        // a view of the view
        if nest && last >= 1 {
            let sg = path_of(&view).segs();
            let view = det.view(src);
            for (a, b) in [
                (At { i: 0, t: 0.5 }, At { i: last - 1, t: 0.75 }),
                (At { i: 0, t: 0.0 }, At { i: last - 1, t: 1.0 }),
                (At { i: last - 1, t: 0.25 }, At { i: last - 1, t: 1.0 }),
                (At { i: 0, t: 1.0 }, At { i: last - 1, t: 0.5 }),
            ] {
                let Ok(want2) = model(&sg, false, last + 1, a, b) else { continue };
                let d2 = PlineViewData::from_slice_points(&view, v2(sg[a.i].at(a.t)), a.i, v2(sg[b.i].at(b.t)), b.i, 1e-5);
                r.call();
                let got2 = d2.map(|d| path_of(&d.view(&view)));
                let ok = match (&got2, &want2) {
                    (None, None) => true,
                    (Some(g), Some(w)) => same(g, w, tol),
                    _ => false,
                };
                r.check(ok, "view of a view", || {
                    format!("inverted {inverted} {a:?} {b:?}: {:?} want {:?}", got2.as_ref().map(show), want2.as_ref().map(show))
                });
            }
            let whole = PlineViewData::from_entire_pline(&view);
            r.check(same(&path_of(&whole.view(&view)), &got, tol), "whole view of a view", || format!("{whole:?}"));
        }
    }
}

fn sources(cx: &Ctx) -> Vec<(String, Vec<Path>)> {
    let sq = lattice(3, 2, 1.0, 0.0, 0);
    let jit = lattice(2, 2, 1.0, 0.17, 3);
    let bl = [0.0, 1.0, -Q8];
    let mut o = vec![];
    for closed in [true, false] {
        let t = if closed { "closed" } else { "open" };
        o.push((format!("{t}2"), any_paths(&sq, 2, &[0.0, 0.2, -0.2, Q8, -Q8, 1.0, -1.0], closed)));
        o.push((format!("{t}3"), any_paths(&sq, 3, &bl, closed)));
        o.push((format!("{t}3-jittered"), any_paths(&jit, 3, &[0.0, Q8, -1.0], closed)));
        let sq4 = lattice(2, 2, 1.0, 0.0, 0);
        o.push((format!("{t}4"), any_paths(&sq4, 4, &bl, closed)));
        if cx.thorough {
            o.push((format!("{t}4-block"), any_paths(&sq, 4, &bl, closed)));
            o.push((format!("{t}5-block"), any_paths(&sq, 5, &[0.0, -1.0], closed)));
        }
        o.push((format!("{t}3-turned"), turned(any_paths(&sq, 3, &bl, closed), 1)));
        o.push((format!("{t}4-turned"), turned(any_paths(&sq4, 4, &bl, closed), 2)));
        // many vertices: rings and stars of side profiles
        let mut v = rings(3, if cx.deep { "FADTNYSUBCW" } else { "ATNSUW" }, 1.6);
        v.extend(rings(4, if cx.deep { "TNSUCW" } else { "SW" }, 1.9));
        v.extend(stars(5, 2, if cx.deep { "FATUW" } else { "AS" }, 1.9));
        v.iter_mut().for_each(|q| q.closed = closed);
        o.push((format!("{t}-rings"), v));
    }
    o
}

pub fn p19(cx: &Ctx) -> i32 {
    for (name, paths) in sources(cx) {
        cx.space(&name, paths.len(), |ix, r| {
            let path = &paths[ix];
            let n = path.v.len();
            let segs = path.segs();
            let m = segs.len();
            let src = pl(path);
            let eps = 1e-5;
            // exact positions, then positions within the epsilon of a vertex
            let mut pos: Vec<(At, At, P, bool)> = vec![]; // (named, snapped, point, near)
            for (i, g) in segs.iter().enumerate() {
                for t in [0.0, 0.25, 0.5, 0.8125, 1.0] {
                    pos.push((At { i, t }, At { i, t }, g.at(t), false));
                }
                let near = 2e-6 / g.len();
                pos.push((At { i, t: near }, At { i, t: 0.0 }, g.at(near), true));
                pos.push((At { i, t: 1.0 - near }, At { i, t: 1.0 }, g.at(1.0 - near), true));
            }
            if !path.closed {
                let q = path.v[n - 1].p();
                pos.push((At { i: m, t: 0.0 }, At { i: m - 1, t: 1.0 }, q, false));
            }
            // whole polyline
            let whole = PlineViewData::from_entire_pline(&src);
            r.call();
            let w = model(&segs, path.closed, n, At { i: 0, t: 0.0 }, At { i: m - 1, t: 1.0 }).unwrap().unwrap();
            r.case(|| format!("{} whole", show(path)));
            read_back(r, &src, whole, &w, 1e-9, true);
            for (sn, ss, sp, snear) in &pos {
                if r.failed() {
                    return;
                }
                // new start
                r.case(|| format!("{} new start {sn:?}", show(path)));
                let d = PlineViewData::from_new_start(&src, v2(*sp), sn.i, eps);
                r.call();
                let tol = if *snear { 3e-5 } else { 1e-9 };
                let want = if path.closed {
                    let s = if ss.t == 1.0 { At { i: (ss.i + 1) % m, t: 0.0 } } else { *ss };
                    let mut v: Vec<Vx> = vec![];
                    let first = segs[s.i].sub(s.t, 1.0);
                    v.push(vx(first.a.x, first.a.y, if s.t == 0.0 { segs[s.i].bulge } else { first.bulge }));
                    for k in 1..m {
                        let g = &segs[(s.i + k) % m];
                        v.push(vx(g.a.x, g.a.y, g.bulge));
                    }
                    if s.t > 0.0 {
                        let l = segs[s.i].sub(0.0, s.t);
                        v.push(vx(l.a.x, l.a.y, l.bulge));
                    }
                    let q = segs[s.i].at(s.t);
                    v.push(vx(q.x, q.y, 0.0));
                    Some(Path::new(v, false))
                } else {
                    model(&segs, false, n, *ss, At { i: m - 1, t: 1.0 }).unwrap()
                };
                match (d, &want) {
                    (None, None) => {
                        r.class("new-start-empty");
                        r.ok()
                    }
                    (Some(d), Some(w)) => {
                        r.class("new-start");
                        read_back(r, &src, d, w, tol, false);
                        if path.closed && !snear {
                            // the whole closed path from the point on
                            let ra = Rail::new(path);
                            let s0 = ra.cum[sn.i] + sn.t * segs[sn.i].len();
                            let e = traces(&ra, if s0 >= ra.total() { 0.0 } else { s0 }, &Rail::new(&path_of(&d.view(&src))), 1e-8);
                            r.check(e.is_ok(), "new start keeps the whole closed path", || e.unwrap_err());
                        }
                    }
                    (d, w) => r.fail("new start is empty exactly at the end", format!("{d:?} want {:?}", w.as_ref().map(show))),
                }
                for (en, es, ep, enear) in &pos {
                    let tol = if *snear || *enear { 3e-5 } else { 1e-9 };
                    if !path.closed && sn.i > en.i {
                        continue;
                    }
                    if sn.i == en.i && (*snear && *enear) && ss.t == es.t && sn.i != en.i {
                        continue;
                    }
                    let Ok(want) = model(&segs, path.closed, n, named(*ss, *sn, m), named(*es, *en, m)) else { continue };
                    r.case(|| format!("{} slice from {sn:?} to {en:?}", show(path)));
                    let d = PlineViewData::from_slice_points(&src, v2(*sp), sn.i.min(n - 1), v2(*ep), en.i.min(n - 1), eps);
                    r.call();
                    match (d, &want) {
                        (None, None) => {
                            r.class("slice-empty");
                            r.ok()
                        }
                        (Some(d), Some(w)) => {
                            r.class(if w.v.len() == 2 { "slice-one-segment" } else { "slice" });
                            read_back(r, &src, d, w, tol, !snear && !enear && (sn.t == 0.25 || en.t == 0.5));
                            negatives(r, &src, path, d);
                        }
                        (d, w) => r.fail(
                            "slice is empty exactly when it has no length",
                            format!("{d:?} want {:?}", w.as_ref().map(show)),
                        ),
                    }
                    // direct constructors with the exact start vertex
                    if let (Some(w), false, false) = (&want, *snear, *enear) {
                        let s = if ss.t == 1.0 && (path.closed || ss.i + 1 < m) { At { i: (ss.i + 1) % m, t: 0.0 } } else { *ss };
                        if s.i >= m || en.i >= m {
                            continue;
                        }
                        let start = PlineVertex::new(w.v[0].x, w.v[0].y, w.v[0].b);
                        let mut count = (en.i + m - s.i) % m;
                        if count == 0 && !(w.v.len() == 2 && en.t > s.t) {
                            count = if en.t == 0.0 { 0 } else { m };
                        }
                        let d = if w.v.len() == 2 && count == 0 {
                            PlineViewData::create_on_single_segment(&src, s.i, start, v2(*ep), eps)
                        } else if count > 0 {
                            Some(PlineViewData::create(&src, s.i, v2(*ep), en.i, start, count, eps))
                        } else {
                            continue;
                        };
                        r.call();
                        match d {
                            Some(d) => read_back(r, &src, d, w, tol, false),
                            None => r.fail("direct constructor gives no view", format!("want {}", show(w))),
                        }
                    }
                }
            }
            // collapsed single segment
            for (i, g) in segs.iter().enumerate() {
                for t in [0.0, 0.25, 0.8125] {
                    let q = g.at(t);
                    let d = PlineViewData::create_on_single_segment(
                        &src,
                        i,
                        PlineVertex::new(q.x, q.y, g.bulge),
                        v2(q + p(1e-6, -1e-6)),
                        eps,
                    );
                    r.call();
                    r.check(d.is_none(), "single segment view without length", || format!("{d:?}"));
                }
            }
        });
    }
    // one segment hardly longer than the epsilon: its inner points are within epsilon of both ends
    let lens = [1.05e-5, 1.2e-5, 1.3e-5, 1.41e-5, 1.7e-5, 2.5e-5, 5e-5];
    let dirs: Vec<f64> = (0..16).map(|k| 0.3927 * k as f64 + 0.05).collect();
    let bul = [(0.0, 0.0, 0.0), (0.35, 0.0, -0.4), (-0.4, 0.3, 0.2), (0.0, -0.6, 0.5)];
    cx.space("short-segment", lens.len() * dirs.len() * bul.len() * 2 * 5, |ix, r| {
        let (len, ix) = (lens[ix % lens.len()], ix / lens.len());
        let (dir, ix) = (dirs[ix % dirs.len()], ix / dirs.len());
        let (bu, ix) = (bul[ix % bul.len()], ix / bul.len());
        let (closed, rot) = (ix % 2 == 0, ix / 2);
        let q = p(2.1, 0.2);
        let mut v = vec![vx(0.0, 0.1, bu.0), vx(q.x, q.y, bu.1), vx(q.x + len * dir.cos(), q.y + len * dir.sin(), bu.2), vx(1.7, 1.9, 0.2), vx(-0.3, 1.5, -0.1)];
        if closed {
            v.rotate_left(rot);
        } else if rot > 0 {
            v.rotate_left(rot - 1);
            v.truncate(4);
        }
        let path = Path::new(v, closed);
        let n = path.v.len();
        let segs = path.segs();
        let src = pl(&path);
        let eps = 1e-5;
        let mut pos: Vec<(At, P)> = vec![];
        for (i, g) in segs.iter().enumerate() {
            for t in if g.len() < 1e-4 { vec![0.0, 0.2, 0.4, 0.5, 0.6, 0.8, 1.0] } else { vec![0.0, 0.3, 0.7, 1.0] } {
                pos.push((At { i, t }, g.at(t)));
            }
            if g.len() > 1e-4 {
                pos.push((At { i, t: 8e-6 / g.len() }, g.at(8e-6 / g.len())));
                pos.push((At { i, t: 1.0 - 8e-6 / g.len() }, g.at(1.0 - 8e-6 / g.len())));
            }
        }
        let rail = Rail::new(&path);
        for (s, sp) in &pos {
            for (e, ep) in &pos {
                let (a, b) = (rail.cum[s.i] + s.t * segs[s.i].len(), rail.cum[e.i] + e.t * segs[e.i].len());
                if !closed && (s.i > e.i || a > b) {
                    continue;
                }
                r.case(|| format!("{} slice from {s:?} to {e:?}", show(&path)));
                r.call();
                let d = PlineViewData::from_slice_points(&src, v2(*sp), s.i.min(n - 1), v2(*ep), e.i.min(n - 1), eps);
                if let Some(d) = d {
                    let valid = d.validate_for_source(&src);
                    if !r.check(valid == ViewDataValidation::IsValid, "created view is valid for its source", || format!("{valid:?}")) {
                        return;
                    }
                }
                let gap = if b >= a { b - a } else { b - a + rail.total() };
                if gap < 6e-5 || gap > rail.total() - 6e-5 {
                    r.class("short-segment: empty or whole by epsilon, only executed");
                    continue;
                }
                let Some(d) = d else {
                    r.fail("slice is empty", format!("{gap} long"));
                    return;
                };
                r.class("short-segment");
                let view = path_of(&d.view(&src));
                // joined within the epsilon of the named ends, as long as the stretch between them
                let ok = view.v[0].p().dist(*sp) < 2.0 * eps && view.v[view.v.len() - 1].p().dist(*ep) < 2.0 * eps && (view.len() - gap).abs() < 8.0 * eps;
                if !r.check(ok, "slice ends or length", || format!("{} long: {} want {gap} from {sp:?} to {ep:?}", view.len(), show(&view))) {
                    return;
                }
                for g in view.segs() {
                    for k in 0..5 {
                        let q = g.at(k as f64 / 4.0);
                        let far = dist_segs(&segs, q);
                        if !r.check(far < 3.0 * eps, "view leaves the source", || format!("{q:?} is {far} away: {}", show(&view))) {
                            return;
                        }
                    }
                }
            }
            r.call();
            if let Some(d) = PlineViewData::from_new_start(&src, v2(*sp), s.i, eps) {
                r.case(|| format!("{} new start {s:?}", show(&path)));
                let valid = d.validate_for_source(&src);
                if !r.check(valid == ViewDataValidation::IsValid, "created view is valid for its source", || format!("{valid:?}")) {
                    return;
                }
            }
        }
    });
    cx.note("Positions closer than the epsilon to a vertex count as that vertex; a view between two names of one vertex of a closed polyline is empty when the end names the segment that starts there and the full loop when it names the one that ends there.");
    cx.note("Expected subpath vertices are computed from exact segments; compared within 1e-9 (3e-5 for positions inside the epsilon).");
    cx.finish("a case is (source polyline, start position, end position); each is read forwards and inverted through the whole PlineSource interface")
}

fn named(snapped: At, named: At, m: usize) -> At {
    if named.i >= m {
        At { i: m - 1, t: 1.0 }
    } else {
        snapped
    }
}

/// data that does not describe a subpath is reported with the right reason
fn negatives(r: &mut Rec, src: &Polyline<f64>, path: &Path, d: PlineViewData<f64>) {
    let n = path.v.len();
    let segs = path.segs();
    let m = segs.len();
    let val = |d: &PlineViewData<f64>| d.validate_for_source(src);
    let mut x = d;
    x.end_index_offset = n + 1;
    let g = val(&x);
    r.check(
        g == ViewDataValidation::OffsetOutOfRange { offset: n + 1, source_length: n },
        "offset out of range is reported",
        || format!("{g:?}"),
    );
    let g = d.validate_for_source(&pl(&Path::new(path.v[..1].to_vec(), path.closed)));
    r.check(g == ViewDataValidation::SourceHasNoSegments, "source without segments is reported", || format!("{g:?}"));
    let far = p(7.3, -5.1);
    let mut x = d;
    x.updated_start = PlineVertex::new(far.x, far.y, d.updated_start.bulge);
    let g = val(&x);
    r.check(
        g == ViewDataValidation::UpdatedStartNotOnSegment { start_point: v2(far) },
        "start off the polyline is reported",
        || format!("{g:?}"),
    );
    // slightly off: 2e-3 beside the curve
    let si = d.start_index;
    if si < m {
        let gs = &segs[si];
        let off = gs.at(0.4) + gs.tan(0.4).left() * 4e-3;
        if gs.dist(off) > 3e-3 {
            let mut x = d;
            x.updated_start = PlineVertex::new(off.x, off.y, d.updated_start.bulge);
            let g = val(&x);
            r.check(
                g == ViewDataValidation::UpdatedStartNotOnSegment { start_point: v2(off) },
                "start beside the segment is reported",
                || format!("{g:?}"),
            );
        }
    }
    let mut x = d;
    x.end_point = v2(far);
    let g = val(&x);
    r.check(g == ViewDataValidation::EndPointNotOnSegment { end_point: v2(far) }, "end off the polyline is reported", || format!("{g:?}"));
    let ei = (d.start_index + d.end_index_offset) % n;
    let ev = src.at(ei);
    let mut x = d;
    x.end_point = ev.pos();
    let g = val(&x);
    r.check(
        g == ViewDataValidation::EndPointOnFinalOffsetVertex { end_point: r2(ev.pos()).into_v(), final_offset_vertex: ev },
        "end on its segment's start is reported",
        || format!("{g:?}"),
    );
    if d.end_index_offset == 0 {
        let mut x = d;
        x.updated_end_bulge += 0.01;
        let g = val(&x);
        r.check(
            g == ViewDataValidation::UpdatedBulgeDoesNotMatch { updated_bulge: x.updated_end_bulge, expected: d.updated_start.bulge },
            "bulge mismatch is reported",
            || format!("{g:?}"),
        );
    }
}

trait IntoV {
    fn into_v(self) -> cavalier_contours::core::math::Vector2<f64>;
}
impl IntoV for P {
    fn into_v(self) -> cavalier_contours::core::math::Vector2<f64> {
        v2(self)
    }
}
