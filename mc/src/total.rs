//! P24: every operation returns normally, with finite values, on every polyline however degenerate.
use crate::gen::*;
use crate::geo::*;
use crate::run::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

const EPS: f64 = 1e-5;

/// run one call; a panic is a failure of that call
fn go<T>(r: &mut Rec, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    r.call();
    match guarded(f) {
        Ok(x) => {
            r.ok();
            Some(x)
        }
        Err(m) => {
            r.fail(what, format!("{what} panicked: {m}"));
            None
        }
    }
}
fn fin(r: &mut Rec, what: &str, ok: bool, f: impl FnOnce() -> String) {
    r.check(ok, what, || format!("{what} is not finite: {}", f()));
}
fn finite(q: &Polyline<f64>) -> bool {
    q.vertex_data.iter().all(|v| v.x.is_finite() && v.y.is_finite() && v.bulge.is_finite())
}
fn fpl(r: &mut Rec, what: &str, q: Option<Option<Polyline<f64>>>) {
    if let Some(Some(q)) = q {
        fin(r, what, finite(&q), || format!("{q:?}"));
    }
}
fn fv(v: Vector2<f64>) -> bool {
    v.x.is_finite() && v.y.is_finite()
}

fn single(r: &mut Rec, q: &Polyline<f64>, scale: f64) {
    let n = q.vertex_count();
    let probes: Vec<Vector2<f64>> = [(0.0, 0.0), (1.0, 0.0), (0.5, 0.5), (0.5, 0.0), (2.0, -1.0), (1.0, 1.0)]
        .iter()
        .map(|x| Vector2::new(x.0 * scale, x.1 * scale))
        .collect();
    if let Some(x) = go(r, "extents", || q.extents()) {
        fin(r, "extents", x.map(|b| b.min_x.is_finite() && b.max_x.is_finite() && b.min_y.is_finite() && b.max_y.is_finite()).unwrap_or(true), String::new);
    }
    let len = go(r, "path_length", || q.path_length());
    if let Some(l) = len {
        fin(r, "path_length", l.is_finite() && l >= 0.0, || l.to_string());
    }
    if let Some(a) = go(r, "area", || q.area()) {
        fin(r, "area", a.is_finite(), || a.to_string());
    }
    go(r, "orientation", || q.orientation());
    go(r, "iteration", || {
        (q.iter_segments().count(), q.iter_vertexes().rev().count(), q.iter_segment_indexes().count(), q.segment_count(), q.last(), q.get(n), q.is_empty())
    });
    go(r, "comparison", || (q.fuzzy_eq(q), q.fuzzy_eq_eps(&Polyline::<f64>::new(), 1e-5)));
    for &p in &probes {
        go(r, "winding_number", || q.winding_number(p));
        if let Some(Some(c)) = go(r, "closest_point", || q.closest_point(p, EPS)) {
            fin(r, "closest_point", fv(c.seg_point) && c.distance.is_finite(), || format!("{c:?}"));
        }
    }
    let total = len.unwrap_or(1.0);
    for t in [-1.0, 0.0, total * 0.25, total * 0.5, total, total * 1.5 + 1.0] {
        match go(r, "find_point_at_path_length", || q.find_point_at_path_length(t)) {
            Some(Ok((_, p))) => fin(r, "find_point_at_path_length", fv(p), || format!("{t}: {p:?}")),
            Some(Err(l)) => fin(r, "find_point_at_path_length", l.is_finite(), || format!("{t}: {l}")),
            None => {}
        }
    }
    let x = go(r, "remove_repeat_pos", || q.remove_repeat_pos(EPS));
    fpl(r, "remove_repeat_pos", x);
    let x = go(r, "remove_redundant", || q.remove_redundant(EPS));
    fpl(r, "remove_redundant", x);
    for e in [0.5, 0.01] {
        let x = go(r, "arcs_to_approx_lines", || q.arcs_to_approx_lines(e * scale));
        fpl(r, "arcs_to_approx_lines", x);
    }
    for i in 0..n {
        let (s, e) = (q.at(i), q.at(q.next_wrapping_index(i)));
        let m = if s.pos() == e.pos() { s.pos() } else { seg_midpoint(s, e) };
        for p in [s.pos(), m] {
            let x = go(r, "rotate_start", || q.rotate_start(i, p, EPS));
            fpl(r, "rotate_start", x);
        }
    }
    go(r, "create_approx_aabb_index", || q.create_approx_aabb_index());
    go(r, "create_aabb_index", || q.create_aabb_index());
    go(r, "transforms", || {
        let mut c = q.clone();
        c.invert_direction_mut();
        c.scale_mut(2.0);
        c.translate_mut(1.0, -1.0);
        c.extend_remove_repeat(q, EPS);
        (finite(&c), Polyline::create_from_remove_repeat(q, EPS))
    });
    let c = clean(q);
    go(r, "visit_self_intersects", || {
        struct V(bool);
        impl PlineIntersectVisitor<f64, ()> for V {
            fn visit_basic_intr(&mut self, i: PlineBasicIntersect<f64>) {
                self.0 &= fv(i.point);
            }
            fn visit_overlapping_intr(&mut self, i: PlineOverlappingIntersect<f64>) {
                self.0 &= fv(i.point1) && fv(i.point2);
            }
        }
        for both in [false, true] {
            let mut v = V(true);
            let o = PlineSelfIntersectOptions { include: if both { SelfIntersectsInclude::All } else { SelfIntersectsInclude::Global }, ..Default::default() };
            c.visit_self_intersects_opt(&mut v, &o);
            assert!(v.0, "self intersect is not finite");
        }
    });
    offsets(r, &c, scale);
}

fn clean(q: &Polyline<f64>) -> Polyline<f64> {
    q.remove_repeat_pos(EPS).unwrap_or_else(|| q.clone())
}

fn offsets(r: &mut Rec, c: &Polyline<f64>, scale: f64) {
    for d in [0.1, -0.1, 0.25, -0.25, 0.5, -0.5, 1.0, -1.0, 0.37, -3.0] {
        for h in [false, true] {
            let o = PlineOffsetOptions { handle_self_intersects: h, ..Default::default() };
            if let Some(v) = go(r, "parallel_offset", || c.parallel_offset_opt(d * scale, &o)) {
                fin(r, "parallel_offset", v.iter().all(finite), || format!("{v:?}"));
            }
        }
    }
}

fn pair(r: &mut Rec, a: &Polyline<f64>, b: &Polyline<f64>) {
    if let Some(x) = go(r, "find_intersects", || a.find_intersects(b)) {
        let ok = x.basic_intersects.iter().all(|i| fv(i.point)) && x.overlapping_intersects.iter().all(|i| fv(i.point1) && fv(i.point2));
        fin(r, "find_intersects", ok, || format!("{x:?}"));
    }
    // a closed polyline that encloses nothing runs back over itself, which booleans exclude
    if [a, b].iter().any(|q| q.is_closed && q.area().abs() < 1e-9) {
        return;
    }
    for op in [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor] {
        if let Some(x) = go(r, "boolean", || a.boolean(b, op)) {
            let ok = x.pos_plines.iter().chain(&x.neg_plines).all(|p| finite(&p.pline));
            fin(r, "boolean", ok, || format!("{op:?}: {x:?}"));
        }
    }
}

fn shape(r: &mut Rec, a: &Polyline<f64>, b: &Polyline<f64>, scale: f64) {
    for d in [0.1, -0.1, 0.25, -0.25, 0.5, -0.5] {
        let x = go(r, "Shape::parallel_offset", || Shape::from_plines([a.clone(), b.clone()]).parallel_offset(d * scale, ShapeOffsetOptions::new()));
        if let Some(x) = x {
            let ok = x.ccw_plines.iter().chain(&x.cw_plines).all(|p| finite(&p.polyline));
            fin(r, "Shape::parallel_offset", ok, || format!("{d}: {:?} {:?}", x.ccw_plines, x.cw_plines));
        }
    }
}

struct Alpha {
    v: Vec<PlineVertex<f64>>,
}
impl Alpha {
    fn new(pos: &[(f64, f64)], bulges: &[f64], scale: f64) -> Alpha {
        Alpha { v: pos.iter().flat_map(|p| bulges.iter().map(move |b| PlineVertex::new(p.0 * scale, p.1 * scale, *b))).collect() }
    }
    /// number of words up to the length, closed and open
    fn count(&self, len: usize) -> usize {
        2 * (0..=len).map(|k| self.v.len().pow(k as u32)).sum::<usize>()
    }
    fn word(&self, mut i: usize, len: usize) -> Polyline<f64> {
        let mut q = Polyline::new();
        q.is_closed = i % 2 == 1;
        i /= 2;
        for k in 0..=len {
            let n = self.v.len().pow(k as u32);
            if i < n {
                for _ in 0..k {
                    q.vertex_data.push(self.v[i % self.v.len()]);
                    i /= self.v.len();
                }
                return q;
            }
            i -= n;
        }
        unreachable!()
    }
}

pub fn p24(cx: &Ctx) -> i32 {
    // the last is within the position epsilon of a neighbour
    let dots: &[(f64, f64)] = &[(0.0, 0.0), (1.0, 0.0), (0.5, 0.0), (1.0, 1.0), (1.0 + 4e-6, 0.0)];
    let bulges = [0.0, 1.0, -0.5];
    for (tag, scale) in [("unit", 1.0), ("thousand", 1000.0), ("hundredth", 0.01)] {
        let mut jobs = vec![(format!("single-{tag}"), Alpha::new(dots, &bulges, scale), 3)];
        if cx.thorough {
            jobs.push((format!("single-{tag}-4"), Alpha::new(if cx.deep { dots } else { &dots[..4] }, &bulges, scale), 4));
        }
        for (name, al, len) in jobs {
            cx.space(&name, al.count(len), |i, r| {
                let q = al.word(i, len);
                r.case(|| show(&path_of(&q)));
                single(r, &q, scale);
            });
        }
    }
    // longer words over fewer letters: folds, repeated segments, full circles traced twice
    let al = Alpha::new(&[(0.0, 0.0), (1.0, 0.0), (0.5, 0.5)], if cx.thorough { &[0.0, 1.0] } else { &[0.0] }, 1.0);
    let len = if cx.thorough { 6 } else { 7 };
    cx.space("single-long", al.count(len), |i, r| {
        let q = al.word(i, len);
        r.case(|| show(&path_of(&q)));
        single(r, &q, 1.0);
    });
    // bulges that are almost lines, and almost half circles
    let flat: &[f64] = if cx.thorough { &[1e-9, -1e-9, 1e-4, -1e-4, 1e-3, 0.999, 1.0 - 1e-9, -1.0 + 1e-12] } else { &[1e-9, 1e-4, -1e-4, 1.0 - 1e-9, -1.0 + 1e-12] };
    let len = 3;
    let al = Alpha::new(&[(0.0, 0.0), (1.0, 0.0), (0.5, 0.0), (1.0, 1.0)], flat, 1.0);
    cx.space("single-flat", al.count(len), |i, r| {
        let q = al.word(i, len);
        r.case(|| show(&path_of(&q)));
        single(r, &q, 1.0);
    });
    // all pairs of words after repeat removal
    let al = Alpha::new(&[(0.0, 0.0), (1.0, 0.0), (0.5, 0.0), (1.0, 1.0)], &[0.0, 1.0, -0.5], 1.0);
    let (la, lb) = (3, if cx.deep { 3 } else { 2 });
    let (na, nb) = (al.count(la), al.count(lb));
    cx.space("pairs", na * nb, |i, r| {
        let (a, b) = (clean(&al.word(i / nb, la)), clean(&al.word(i % nb, lb)));
        r.case(|| format!("{} {}", show(&path_of(&a)), show(&path_of(&b))));
        pair(r, &a, &b);
        if a.is_closed && b.is_closed {
            shape(r, &a, &b, 1.0);
        }
    });
    let al = Alpha::new(&[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0)], if cx.thorough { &[0.0, 1.0, -0.5] } else { &[0.0, 1.0] }, 1.0);
    let (la, lb) = if cx.thorough { (3, 3) } else { (3, 3) };
    let (na, nb) = (al.count(la), al.count(lb));
    cx.space("pairs-long", na * nb, |i, r| {
        let (a, b) = (clean(&al.word(i / nb, la)), clean(&al.word(i % nb, lb)));
        r.case(|| format!("{} {}", show(&path_of(&a)), show(&path_of(&b))));
        pair(r, &a, &b);
        if a.is_closed && b.is_closed {
            shape(r, &a, &b, 1.0);
        }
    });
    cx.finish("one state per vertex word (or pair of words) over a small alphabet with repeats, near repeats, zero length, collinear and folded runs; every public operation is executed on each and must return finite values")
}
