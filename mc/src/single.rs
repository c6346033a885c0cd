//! P30: polylines of single precision numbers.
use crate::boolean::*;
use crate::gen::*;
use crate::geo::*;
use crate::offset::{otext, results, Input};
use crate::query::families;
use crate::run::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::{Shape, ShapeOffsetOptions};

/// the path with coordinates and bulges rounded to single precision
fn round(q: &Path) -> Path {
    Path::new(q.v.iter().map(|v| vx(v.x as f32 as f64, v.y as f32 as f64, v.b as f32 as f64)).collect(), q.closed)
}
fn pl32(q: &Path) -> Polyline<f32> {
    let mut r = Polyline::new();
    r.is_closed = q.closed;
    for v in &q.v {
        r.vertex_data.push(PlineVertex::new(v.x as f32, v.y as f32, v.b as f32));
    }
    r
}
fn path32(s: &Polyline<f32>) -> Path {
    Path::new(s.vertex_data.iter().map(|w| vx(w.x as f64, w.y as f64, w.bulge as f64)).collect(), s.is_closed)
}

pub fn p30(cx: &Ctx) -> i32 {
    for sp in spaces(1 + cx.thorough as u8) {
        if !["generic", "zigzag", "rings"].contains(&sp.name) {
            continue;
        }
        let name = format!("boolean-{}", sp.name);
        cx.space(&name, sp.n(), |i, r| {
            let (a, b) = sp.get(i);
            let (a, b) = (round(&a), round(&b));
            r.case(|| text(&a, &b));
            let (sa, sb) = (a.segs(), b.segs());
            let pr = probes(&sa, &sb);
            let (pa, pb) = (pl32(&a), pl32(&b));
            for op in OPS {
                r.call();
                let res = pa.boolean(&pb, op);
                r.class(info_name(&res.result_info));
                let g = |v: &[BooleanResultPline<Polyline<f32>>]| -> Vec<Vec<Seg>> { v.iter().map(|x| path32(&x.pline).segs()).collect() };
                let f = Flat { pos: g(&res.pos_plines), neg: g(&res.neg_plines) };
                let e = region_error(&pr, op, &f);
                r.check(e.is_none(), op_name(op), || e.unwrap());
            }
        });
    }
    for sp in crate::offset::spaces(false) {
        if !["generic", "rings"].contains(&sp.name) {
            continue;
        }
        let nd = sp.d.len();
        let name = format!("offset-{}", sp.name);
        cx.space(&name, sp.paths.len() * nd, |i, r| {
            let (a, d) = (round(&sp.paths[i / nd]), sp.d[i % nd] as f32 as f64);
            r.case(|| otext(&a, d));
            r.call();
            let inp = Input::new(&a);
            // intersects of nearly tangent offset segments are off by more than the absolute epsilon of the
            // debug-only validations
            let res = std::panic::catch_unwind(|| pl32(&a).parallel_offset(d as f32));
            let res: Vec<Path> = match res {
                Ok(x) => x.iter().map(path32).collect(),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|m| m.to_string())).unwrap_or_default();
                    if m.contains("point does not lie on the line") || m.contains("NotOnSegment") {
                        r.class("debug-only validation below single precision, not judged");
                    } else {
                        r.fail("panic", m);
                    }
                    return;
                }
            };
            let mut e = inp.sound(d, &res).or_else(|| inp.complete(d, &inp.edges(d), &res));
            if e.is_some() && inp.tolerance_limited(d) {
                r.class("tolerance_limited");
                e = None;
            }
            r.check(e.is_none(), "offset", || format!("{}; double precision {}", e.unwrap(), crate::offset::show_all(&results(&pl(&a), d))));
        });
    }
    // every pair of polygons with many crossings: same intersects in both precisions
    let (la, lb) = (lattice(3, 3, 1.0, 0.1, 11), lattice(3, 3, 1.07, 0.14, 12));
    let mut za = closed_simple(&la, 3, &[0.0, 0.35, -0.45], 0.02);
    za.extend(closed_simple(&la, 6, &[0.0], 0.02));
    let mut zb = closed_simple(&lb, 3, &[0.0, 0.4], 0.02);
    zb.extend(closed_simple(&lb, 5, &[0.0], 0.02));
    let nb = zb.len();
    cx.space("intersects", za.len() * nb, |i, r| {
        let (a, b) = (round(&za[i / nb]), round(&zb[i % nb]));
        r.case(|| text(&a, &b));
        r.call();
        let x = pl32(&a).find_intersects(&pl32(&b));
        let y = pl(&a).find_intersects(&pl(&b));
        let mut u: Vec<_> = x.basic_intersects.iter().map(|e| (e.start_index1, e.start_index2, e.point.x as f64, e.point.y as f64)).collect();
        let mut w: Vec<_> = y.basic_intersects.iter().map(|e| (e.start_index1, e.start_index2, e.point.x, e.point.y)).collect();
        let key = |e: &(usize, usize, f64, f64)| (e.0, e.1, (e.2 * 1e3).round() as i64, (e.3 * 1e3).round() as i64);
        u.sort_by_key(key);
        w.sort_by_key(key);
        r.class(if w.is_empty() { "none" } else { "some" });
        // a crossing so shallow that single precision decides whether it is there, or how far it slides
        let (sa, sb) = (a.segs(), b.segs());
        let shallow = y.basic_intersects.iter().any(|e| {
            let q = crate::geo::p(e.point.x, e.point.y);
            let (s, t) = (&sa[e.start_index1], &sb[e.start_index2]);
            s.tan(s.closest(q).0).cross(t.tan(t.closest(q).0)).abs() < 0.03
        }) || sa.iter().any(|s| sb.iter().any(|t| meet_points(s, t, 1e-4).len() != meet_points(s, t, 1e-8).len()));
        let same = u.len() == w.len() && u.iter().zip(&w).all(|(e, f)| e.0 == f.0 && e.1 == f.1 && (e.2 - f.2).abs() < 1e-4 && (e.3 - f.3).abs() < 1e-4);
        if !same && shallow {
            r.class("shallow crossing, not judged");
            return;
        }
        r.check(same, "intersects", || format!("single {u:?} double {w:?}"));
    });
    // an outline with a hole: the same region in both precisions
    let g = lattice(3, 3, 1.0, 0.17, 5);
    let mut holes = closed_simple(&g, 2, &[0.0, 0.35, 1.0], 0.02);
    holes.extend(closed_simple(&g, 3, &[0.0, 0.35, -0.45], 0.02));
    holes.extend(closed_simple(&g, 4, &[0.0, 0.4], 0.02));
    holes.retain(|h| h.area() < 0.0);
    let outer = Path::new(vec![vx(-1.13, -1.21, 0.0), vx(3.17, -1.09, 0.2), vx(3.21, 3.13, 0.0), vx(-1.03, 3.29, -0.1)], true);
    let d = [0.11f32, 0.37, -0.23, -0.61, 0.83];
    cx.space("shape", holes.len() * d.len(), |i, r| {
        let (h, d) = (round(&holes[i / d.len()]), d[i % d.len()]);
        let o = round(&outer);
        r.case(|| format!("{} {} offset={d}", show(&o), show(&h)));
        r.call();
        let x = std::panic::catch_unwind(|| Shape::from_plines([pl32(&o), pl32(&h)]).parallel_offset(d, ShapeOffsetOptions::default()));
        let Ok(x) = x else {
            r.class("debug-only validation below single precision, not judged");
            return;
        };
        let y = Shape::from_plines([pl(&o), pl(&h)]).parallel_offset(d as f64, ShapeOffsetOptions::default());
        let ax: f64 = x.ccw_plines.iter().chain(&x.cw_plines).map(|q| path32(&q.polyline).area()).sum();
        let ay: f64 = y.ccw_plines.iter().chain(&y.cw_plines).map(|q| path_of(&q.polyline).area()).sum();
        r.check((ax - ay).abs() < 1e-3, "shape offset", || format!("area {ax} in single and {ay} in double precision"));
    });
    cx.space("constants", 1, |_, r| {
        use cavalier_contours::core::traits::Real;
        r.case(|| "constants".into());
        for (a, b) in [
            (<f32 as Real>::pi(), <f64 as Real>::pi()),
            (<f32 as Real>::tau(), <f64 as Real>::tau()),
            (<f32 as Real>::two(), 2.0),
            (<f32 as Real>::four(), 4.0),
            (<f32 as Real>::min_value(), f32::MIN as f64),
            (<f32 as Real>::max_value(), f32::MAX as f64),
        ] {
            r.call();
            r.check(a == b as f32, "constant", || format!("{a} expected {b}"));
        }
    });
    for (name, paths) in families(cx, true) {
        let name = format!("query-{name}");
        cx.space(&name, paths.len(), |i, r| {
            let a = round(&paths[i]);
            r.case(|| show(&a));
            let p = pl32(&a);
            let segs = a.segs();
            let near = |x: f64, y: f64, tol: f64| (x - y).abs() <= tol * (1.0 + y.abs());
            r.call();
            let l = p.path_length() as f64;
            r.check(near(l, a.len(), 1e-5), "path_length", || format!("{l} expected {}", a.len()));
            if a.closed {
                r.call();
                let x = p.area() as f64;
                r.check(near(x, a.area(), 1e-5), "area", || format!("{x} expected {}", a.area()));
            }
            // edits that keep the path
            r.call();
            let mut inv = p.clone();
            inv.invert_direction_mut();
            let m = path32(&inv).len();
            r.check(near(m, a.len(), 1e-5), "invert_direction_mut", || format!("length {m} expected {}", a.len()));
            if let Some(q) = p.remove_repeat_pos(1e-5) {
                let m = path32(&q).len();
                r.check(near(m, a.len(), 1e-4), "remove_repeat_pos", || format!("length {m} expected {}", a.len()));
            }
            if let Some(b) = p.extents() {
                let e = segs.iter().map(|s| s.bounds()).fold((f64::MAX, f64::MAX, f64::MIN, f64::MIN), |u, w| (u.0.min(w.0), u.1.min(w.1), u.2.max(w.2), u.3.max(w.3)));
                let g = (b.min_x as f64, b.min_y as f64, b.max_x as f64, b.max_y as f64);
                let ok = near(g.0, e.0, 1e-5) && near(g.1, e.1, 1e-5) && near(g.2, e.2, 1e-5) && near(g.3, e.3, 1e-5);
                r.check(ok, "extents", || format!("{g:?} expected {e:?}"));
            }
            if let Some(q) = p.arcs_to_approx_lines(0.01) {
                let q = path32(&q).segs();
                let far = segs.iter().flat_map(|s| [0.1, 0.3, 0.5, 0.7, 0.9].map(|t| dist_segs(&q, s.at(t)))).fold(0.0, f64::max);
                r.check(q.is_empty() || far < 0.0101, "arcs_to_approx_lines", || format!("{far} away"));
            }
            for k in 0..25 {
                let q = crate::geo::p(-0.45 + 0.73 * (k % 5) as f64, -0.37 + 0.69 * (k / 5) as f64);
                let q = crate::geo::p(q.x as f32 as f64, q.y as f32 as f64);
                let d = dist_segs(&segs, q);
                let v = Vector2::new(q.x as f32, q.y as f32);
                if a.closed && d > 1e-4 {
                    r.call();
                    let w = p.winding_number(v);
                    r.check(w == winding(&segs, q), "winding_number", || format!("{w} at ({},{})", q.x, q.y));
                }
                if let Some(c) = p.closest_point(v, 1e-5) {
                    r.call();
                    r.check(near(c.distance as f64, d, 2e-5), "closest_point", || format!("{} at ({},{}), expected {d}", c.distance, q.x, q.y));
                }
            }
        });
    }
    cx.finish("one state per pair of closed polylines, per polyline and offset, or per polyline, all with coordinates of single precision; results are judged by the double precision references with the tolerances widened to single precision")
}
