//! P25: histories of booleans, offsets and transforms, explored as a state graph. A state is the
//! polyline reached together with the set of faces (of the arrangement of all base shapes) its
//! history denotes; every transition runs the library on the actual polyline of the state.
use crate::boolean::{flat, op_fn, op_name, show_res, OPS};
use crate::gen::*;
use crate::geo::*;
use crate::offset::{show_all, Input, Q8, TOL};
use crate::run::*;
use cavalier_contours::polyline::*;
use std::collections::HashSet;

const DELTA: f64 = 2e-3;

/// two probes per edge of the arrangement of all base shapes
fn probes(bases: &[Vec<Seg>]) -> Vec<P> {
    let all: Vec<Seg> = bases.iter().flatten().cloned().collect();
    let mut pts: Vec<P> = vec![];
    sub_edges(&all, &all, 6.0 * DELTA, |_, s, t0, t1| {
        let tm = (t0 + t1) / 2.0;
        let (m, n) = (s.at(tm), s.tan(tm).left());
        for sg in [1.0, -1.0] {
            let q = m + n * (DELTA * sg);
            if dist_segs(&all, q) > DELTA * 0.6 && !pts.iter().any(|o| o.dist(q) < 1e-6) {
                pts.push(q);
            }
        }
    });
    pts
}

struct State {
    pl: Polyline<f64>,
    path: Path,
    inside: Vec<bool>,
    how: String,
    depth: u8,
}

/// vertex cycle up to rotation, on a grid coarser than the library's rounding
fn key(q: &Path) -> Vec<(i64, i64, i64)> {
    let r = |x: f64| (x * 2e4).round() as i64;
    let v: Vec<_> = q.v.iter().map(|u| (r(u.x), r(u.y), r(u.b))).collect();
    let n = v.len();
    (0..n).map(|s| (0..n).map(|i| v[(s + i) % n]).collect::<Vec<_>>()).min().unwrap_or_default()
}

/// usable as the input of a further operation: simple with clearance, no slivers
fn plain(q: &Path) -> bool {
    is_simple(q, 5e-3) && q.segs().iter().all(|s| s.len() > 5e-3) && q.v.iter().all(|v| v.b.abs() <= 1.0)
}

struct Opts {
    depth: u8,
    offsets: Vec<f64>,
    max_states: usize,
}

fn explore(bases: &[Path], o: &Opts, r: &mut Rec) {
    let segs: Vec<Vec<Seg>> = bases.iter().map(|b| b.segs()).collect();
    let all: Vec<Seg> = segs.iter().flatten().cloned().collect();
    let pts = probes(&segs);
    let vec_of = |s: &[Seg]| -> Vec<bool> { pts.iter().map(|q| winding(s, *q) != 0).collect() };
    let bvec: Vec<Vec<bool>> = segs.iter().map(|s| vec_of(s)).collect();
    let bpl: Vec<Polyline<f64>> = bases.iter().map(pl).collect();
    let mut seen: HashSet<Vec<(i64, i64, i64)>> = HashSet::new();
    let mut queue: Vec<State> = vec![];
    seen.insert(key(&bases[0]));
    queue.push(State { pl: bpl[0].clone(), path: bases[0].clone(), inside: bvec[0].clone(), how: "B0".into(), depth: 0 });
    let mut at = 0;
    while at < queue.len() {
        r.states += (at > 0) as u64;
        let (x, inside, how, depth) = {
            let s = &queue[at];
            (s.pl.clone(), s.inside.clone(), s.how.clone(), s.depth)
        };
        let path = queue[at].path.clone();
        at += 1;
        // offsets of the state
        if depth > 0 && !o.offsets.is_empty() {
            let inp = Input::new(&path);
            for d in &o.offsets {
                r.call();
                let res: Vec<Path> = x.parallel_offset(*d).iter().map(|q| path_of(q)).collect();
                let mut e = inp.sound(*d, &res).or_else(|| inp.complete(*d, &inp.edges(*d), &res));
                if e.is_some() && inp.tolerance_limited(*d) {
                    r.class("tolerance_limited");
                    e = None;
                }
                if !r.check(e.is_none(), "offset", || {
                    format!("{how} = {}, offset by {d}: {}; result {}", show(&path), e.unwrap(), show_all(&res))
                }) {
                    return;
                }
            }
        }
        if depth >= o.depth {
            continue;
        }
        let mut next: Vec<(Polyline<f64>, Vec<bool>, String)> = vec![];
        // transforms that keep the region
        let mut y = x.clone();
        y.invert_direction_mut();
        next.push((y, inside.clone(), format!("inv({how})")));
        let mut y = x.clone();
        y.translate_mut(3.7, -2.3);
        y.scale_mut(3.0);
        y.scale_mut(1.0 / 3.0);
        y.translate_mut(-3.7, 2.3);
        if let Some(z) = y.remove_redundant(1e-5) {
            y = z;
        }
        let area = (y.area() - x.area()).abs();
        if !r.check(area < 1e-4, "transform", || format!("moving and cleaning {how} changed the area by {area}")) {
            return;
        }
        next.push((y, inside.clone(), format!("clean({how})")));
        for (j, b) in bpl.iter().enumerate() {
            for op in OPS {
                for swap in [false, true] {
                    r.call();
                    let res = if swap { b.boolean(&x, op) } else { x.boolean(b, op) };
                    let f = flat(&res);
                    let mut err = None;
                    for (k, q) in pts.iter().enumerate() {
                        let (u, v) = (inside[k], bvec[j][k]);
                        let want = (if swap { op_fn(op, v, u) } else { op_fn(op, u, v) }) as i32;
                        let got = f.cover(*q);
                        if got != want {
                            err = Some(format!("point ({:.6},{:.6}) covered {got} times, expected {want}", q.x, q.y));
                            break;
                        }
                    }
                    let name = || {
                        if swap {
                            format!("(B{j} {} {how})", op_name(op))
                        } else {
                            format!("({how} {} B{j})", op_name(op))
                        }
                    };
                    if !r.check(err.is_none(), "boolean", || {
                        format!("{} with {how} = {}: {}; result {}", name(), show(&path), err.unwrap(), show_res(&res))
                    }) {
                        return;
                    }
                    for p in res.pos_plines.iter().chain(res.neg_plines.iter()) {
                        let q = path_of(&p.pline);
                        let off = q.segs().iter().map(|s| dist_segs(&all, s.at(0.5)).max(dist_segs(&all, s.a))).fold(0.0, f64::max);
                        if !r.check(off < 1e-4, "boundary", || {
                            format!("{} leaves the base boundaries by {off:.2e}: {}", name(), show(&q))
                        }) {
                            return;
                        }
                        next.push((p.pline.clone(), vec![], name()));
                    }
                }
            }
        }
        for (y, v, how) in next {
            let q = path_of(&y);
            if !seen.insert(key(&q)) {
                continue;
            }
            if !plain(&q) {
                r.class("not_simple");
                continue;
            }
            if queue.len() >= o.max_states {
                r.class("state_bound");
                continue;
            }
            let v = if v.is_empty() { vec_of(&q.segs()) } else { v };
            queue.push(State { pl: y, path: q, inside: v, how, depth: depth + 1 });
        }
    }
    r.class(match queue.len() {
        0..=20 => "states<=20",
        21..=100 => "states<=100",
        101..=500 => "states<=500",
        _ => "states>500",
    });
}

fn text(b: &[Path]) -> String {
    b.iter().enumerate().map(|(i, q)| format!("B{i}={}", show(q))).collect::<Vec<_>>().join(" ")
}

/// convex: every turn to the same side and every bulge to the outside
fn convex(q: &Path) -> bool {
    let s = q.segs();
    let sg = q.area().signum();
    q.v.iter().all(|v| v.b * sg >= 0.0)
        && (0..s.len()).all(|i| s[i].tan(1.0).cross(s[(i + 1) % s.len()].tan(0.0)) * sg > -1e-9)
}

pub fn p25(cx: &Ctx) -> i32 {
    let t = cx.thorough;
    // ---- three base shapes in generic position
    let g = lattice(2, 2, 1.6, 0.12, 1);
    let h = lattice(2, 2, 1.5, 0.12, 2);
    let e = lattice(2, 2, 1.4, 0.12, 4);
    let mut a = closed_simple(&g, 2, &[1.0, 0.6], 0.02);
    a.extend(closed_simple(&g, 3, &[0.0, 0.5], 0.02));
    a.extend(closed_simple(&g, 4, &[0.0, -0.3], 0.02));
    let mut b = closed_simple(&h, 2, &[1.0], 0.02);
    b.extend(closed_simple(&h, 4, &[0.0, 0.4], 0.02));
    let mut c = closed_simple(&e, 2, &[-1.0, -0.7], 0.02);
    c.extend(closed_simple(&e, 3, &[0.0, 0.5], 0.02));
    let pick = |v: Vec<Path>, k: usize| -> Vec<Path> {
        // every k-th of the canonical list, deterministic
        v.into_iter().step_by(k).collect()
    };
    let (a, b, c) = if t { (pick(a, 2), pick(b, 2), pick(c, 3)) } else { (pick(a, 5), pick(b, 4), pick(c, 9)) };
    let (nb, nc) = (b.len(), c.len());
    let sh = [p(0.52, 0.27), p(0.83, -0.4)];
    let o = Opts { depth: if t { 3 } else { 2 }, offsets: vec![0.11, -0.13], max_states: 400 };
    cx.space("boolean-histories", a.len() * nb * nc, |i, r| {
        let bases = [
            a[i / (nb * nc)].clone(),
            b[i / nc % nb].translate(sh[i % 2]),
            c[i % nc].translate(p(0.21, 0.63)),
        ];
        r.case(|| text(&bases));
        explore(&bases, &o, r);
    });
    // ---- rings of side profiles, many vertices
    let (a, b, c) = if t {
        (rings(4, "TSUW", 1.9), rings(3, "ATUW", 1.7), rings(3, "FNS", 1.8))
    } else {
        (rings(4, "SW", 1.9), rings(3, "TU", 1.7), rings(3, "FN", 1.8))
    };
    let (nb, nc) = (b.len(), c.len());
    cx.space("ring-histories", a.len() * nb * nc, |i, r| {
        let bases = [
            a[i / (nb * nc)].clone(),
            b[i / nc % nb].translate(p(0.97, 0.43)),
            c[i % nc].translate(p(0.21, 1.63)),
        ];
        r.case(|| text(&bases));
        explore(&bases, &o, r);
    });
    // ---- shared vertices, edges and arcs
    let l = lattice(3, 2, 1.0, 0.0, 0);
    let mut a = closed_simple(&l, 3, &[0.0, Q8], 0.02);
    a.extend(closed_simple(&l, 4, &[0.0], 0.02));
    a.extend(closed_simple(&l, 2, &[1.0], 0.02));
    let all = a.clone();
    let a = modulo_symmetry(all.clone());
    let (a, b, c) = if t { (a, pick(all.clone(), 3), pick(all, 7)) } else { (pick(a, 2), pick(all.clone(), 23), pick(all, 41)) };
    let (nb, nc) = (b.len(), c.len());
    let o2 = Opts { depth: if t { 3 } else { 2 }, offsets: vec![0.125, -0.125], max_states: 400 };
    cx.space("shared-histories", a.len() * nb * nc, |i, r| {
        let bases = [a[i / (nb * nc)].clone(), b[i / nc % nb].clone(), c[i % nc].translate(p(0.0, 0.5))];
        r.case(|| text(&bases));
        explore(&bases, &o2, r);
    });
    // ---- offsets as operands of booleans
    let g = lattice(3, 2, 1.2, 0.13, 6);
    let mut a = closed_simple(&g, 2, &[1.0, 0.5, -0.4], 0.02);
    a.extend(closed_simple(&g, 3, &[0.0, 0.5], 0.02));
    a.extend(closed_simple(&g, 4, &[0.0, -0.3], 0.02));
    a.extend(closed_simple(&g, 5, &[0.0], 0.02));
    a.extend(closed_simple(&g, 6, &[0.0], 0.02));
    let a = pick(a, if t { 3 } else { 12 });
    let ds = [0.08, -0.08, 0.3, -0.3];
    let cut = [
        Path::new(vec![vx(0.55, -1.0, 0.0), vx(1.35, -1.0, 0.0), vx(1.45, 3.0, 0.0), vx(0.65, 3.0, 0.0)], true),
        Path::new(vec![vx(0.2, 0.6, 1.0), vx(1.9, 0.75, 1.0)], true),
    ];
    let o3 = Opts { depth: if t { 3 } else { 2 }, offsets: vec![0.05], max_states: 400 };
    cx.space("offset-then-boolean", a.len() * ds.len() * cut.len(), |i, r| {
        let (q, d, k) = (&a[i / 8], ds[i / 2 % 4], &cut[i % 2]);
        r.case(|| format!("A={} offset {d}, cut {}", show(q), show(k)));
        r.call();
        for y in pl(q).parallel_offset(d) {
            let y = path_of(&y);
            if !plain(&y) {
                r.class("not_simple");
                continue;
            }
            explore(&[y, q.clone(), k.clone()], &o3, r);
            if r.failed() {
                return;
            }
        }
    });
    // ---- offsets of offsets
    let g = lattice(3, 3, 1.0, 0.17, 5);
    let mut a = closed_simple(&g, 2, &[0.35, -0.5, 0.8, 1.0], 0.02);
    a.extend(closed_simple(&g, 3, &[0.0, 0.35, -0.45], 0.02));
    a.extend(closed_simple(&g, 4, if t { &[0.0, 0.35, -0.45] } else { &[0.0, -0.4] }, 0.02));
    a.extend(closed_simple(&g, 5, if t { &[0.0, -0.45] } else { &[0.0] }, 0.02));
    a.extend(closed_simple(&g, 6, &[0.0], 0.02));
    if t {
        a.extend(closed_simple(&g, 7, &[0.0], 0.02));
        a.extend(closed_simple(&g, 8, &[0.0], 0.02));
    }
    let mut a = pick(a, if t { 1 } else { 3 });
    a.extend(rings(3, if t { "FADTNISUCW" } else { "ATNSUW" }, 1.6));
    a.extend(rings(4, if t { "TNSUW" } else { "TUW" }, 1.9));
    let steps: &[f64] = &[0.07, -0.07, 0.16, -0.16];
    let words: Vec<Vec<f64>> = {
        let mut w: Vec<Vec<f64>> = vec![];
        for x in steps {
            for y in steps {
                w.push(vec![*x, *y]);
                if t {
                    for z in steps {
                        w.push(vec![*x, *y, *z]);
                    }
                }
            }
        }
        w
    };
    let nw = words.len();
    cx.space("offset-histories", a.len() * nw, |i, r| {
        let (q, w) = (&a[i / nw], &words[i % nw]);
        r.case(|| format!("{} offsets {w:?}", show(q)));
        let first = Input::new(q);
        let mut cur = vec![q.clone()];
        let mut total = 0.0;
        let mut limited = false;
        for d in w {
            let mut next = vec![];
            for y in &cur {
                if !plain(y) {
                    r.class("not_simple");
                    return;
                }
                r.call();
                r.states += 1;
                let inp = Input::new(y);
                let res: Vec<Path> = pl(y).parallel_offset(*d).iter().map(|q| path_of(q)).collect();
                let e = inp.sound(*d, &res).or_else(|| inp.complete(*d, &inp.edges(*d), &res));
                if e.is_some() && inp.tolerance_limited(*d) {
                    r.class("tolerance_limited");
                    limited = true;
                } else if !r.check(e.is_none(), "step", || {
                    format!("offset of {} by {d}: {}; result {}", show(y), e.unwrap(), show_all(&res))
                }) {
                    return;
                }
                next.extend(res);
            }
            total += d;
            cur = next;
            let same = w.iter().all(|x| (*x > 0.0) == (w[0] > 0.0));
            if limited {
                return;
            }
            if same {
                // offsetting twice on the same side adds the distances
                let mut e = first.sound(total, &cur).or_else(|| first.complete(total, &first.edges(total), &cur));
                if e.is_some() && first.tolerance_limited(total) {
                    r.class("tolerance_limited");
                    e = None;
                }
                r.check(e.is_none(), "sum", || format!("total {total}: {}; result {}", e.unwrap(), show_all(&cur)));
            }
        }
        if w.len() == 2 && w[0] == -w[1] && !first.inward(w[0]) && convex(q) {
            r.class("convex_restored");
            let rs: Vec<Seg> = cur.iter().flat_map(|y| y.segs()).collect();
            let off = rs.iter().flat_map(|s| [0.0, 0.5].map(|u| dist_segs(&first.segs, s.at(u)))).fold(0.0, f64::max);
            let miss = first.segs.iter().flat_map(|s| [0.0, 0.25, 0.5, 0.75].map(|u| dist_segs(&rs, s.at(u)))).fold(0.0, f64::max);
            r.check(cur.len() == 1 && off < 2.0 * TOL && miss < 2.0 * TOL, "restore", || {
                format!("outward and back by {}: {} (off by {off:.2e}, missing {miss:.2e})", w[0], show_all(&cur))
            });
        }
    });
    cx.finish("one state per polyline reached by a history of booleans with the base shapes, clean-ups, inversions and offsets (breadth first, deduplicated); the region a history denotes is the set operation applied to the faces of the arrangement of the base shapes and is compared by two probes per arrangement edge; offsets of reached states are compared with the exact offset curve, repeated offsets with the single offset by the sum")
}
