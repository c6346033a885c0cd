//! P01, P02, P03: boolean operations against the planar arrangement of the inputs.
use crate::gen::*;
use crate::geo::*;
use crate::run::*;
use cavalier_contours::polyline::*;

pub const OPS: [BooleanOp; 4] = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor];
pub fn op_name(o: BooleanOp) -> &'static str {
    match o {
        BooleanOp::Or => "or",
        BooleanOp::And => "and",
        BooleanOp::Not => "not",
        BooleanOp::Xor => "xor",
    }
}
pub fn op_fn(o: BooleanOp, a: bool, b: bool) -> bool {
    match o {
        BooleanOp::Or => a || b,
        BooleanOp::And => a && b,
        BooleanOp::Not => a && !b,
        BooleanOp::Xor => a != b,
    }
}

/// distance of the probes from the arrangement edge they belong to
pub const DELTA: f64 = 2e-3;

pub struct Probes {
    pub pts: Vec<(P, bool, bool)>,
}

/// Two probes (left, right) for every edge of the arrangement of A and B.
pub fn probes(a: &[Seg], b: &[Seg]) -> Probes {
    let mut all: Vec<Seg> = a.to_vec();
    all.extend_from_slice(b);
    let mut pts = vec![];
    sub_edges(&all, &all, 4.0 * DELTA, |_, s, t0, t1| {
        let tm = (t0 + t1) / 2.0;
        let m = s.at(tm);
        let n = s.tan(tm).left();
        for sg in [1.0, -1.0] {
            let q = m + n * (DELTA * sg);
            if dist_segs(&all, q) < DELTA * 0.6 {
                continue; // another boundary passes too close to decide
            }
            pts.push((q, winding(a, q) != 0, winding(b, q) != 0));
        }
    });
    Probes { pts }
}

pub struct Flat {
    pub pos: Vec<Vec<Seg>>,
    pub neg: Vec<Vec<Seg>>,
}
pub fn flat(r: &BooleanResult<Polyline<f64>>) -> Flat {
    Flat {
        pos: r.pos_plines.iter().map(|x| path_of(&x.pline).segs()).collect(),
        neg: r.neg_plines.iter().map(|x| path_of(&x.pline).segs()).collect(),
    }
}
impl Flat {
    pub fn cover(&self, q: P) -> i32 {
        self.pos.iter().map(|s| winding(s, q).abs()).sum::<i32>()
            - self.neg.iter().map(|s| winding(s, q).abs()).sum::<i32>()
    }
    pub fn area(&self) -> f64 {
        let f = |v: &Vec<Vec<Seg>>| v.iter().map(|s| s.iter().map(|e| e.area()).sum::<f64>().abs()).sum::<f64>();
        f(&self.pos) - f(&self.neg)
    }
}

pub fn region_error(pr: &Probes, op: BooleanOp, f: &Flat) -> Option<String> {
    for (q, ia, ib) in &pr.pts {
        let want = op_fn(op, *ia, *ib) as i32;
        let got = f.cover(*q);
        if got != want {
            return Some(format!(
                "point ({:.6},{:.6}) inA={ia} inB={ib}: covered {got} times, expected {want}",
                q.x, q.y
            ));
        }
    }
    None
}

pub fn show_res(r: &BooleanResult<Polyline<f64>>) -> String {
    let mut s = format!("{:?}", r.result_info);
    for x in &r.pos_plines {
        s.push_str(&format!(" +{}", show(&path_of(&x.pline))));
    }
    for x in &r.neg_plines {
        s.push_str(&format!(" -{}", show(&path_of(&x.pline))));
    }
    s
}

/// structural checks of one result (P02)
pub fn wellformed_error(
    a: &Polyline<f64>,
    b: &Polyline<f64>,
    sa: &[Seg],
    sb: &[Seg],
    r: &BooleanResult<Polyline<f64>>,
) -> Option<String> {
    let tol = 2e-5;
    for (x, kind) in r.pos_plines.iter().map(|x| (x, '+')).chain(r.neg_plines.iter().map(|x| (x, '-'))) {
        let q = path_of(&x.pline);
        if !q.closed {
            return Some(format!("{kind}{} is not closed", show(&q)));
        }
        if q.v.len() < 2 {
            return Some(format!("{kind}{} has fewer than 2 vertices", show(&q)));
        }
        let segs = q.segs();
        for s in &segs {
            if s.a.dist(s.b) < 9e-6 {
                return Some(format!("{kind}{} has adjacent repeat positions", show(&q)));
            }
            if !(s.a.x.is_finite() && s.a.y.is_finite() && s.bulge.is_finite()) {
                return Some(format!("{kind}{} is not finite", show(&q)));
            }
            for t in [0.0, 0.25, 0.5, 0.75] {
                let m = s.at(t);
                let d = dist_segs(sa, m).min(dist_segs(sb, m));
                if d > tol {
                    return Some(format!(
                        "{kind}{} leaves the input boundaries by {d:.2e} at ({:.6},{:.6})",
                        show(&q), m.x, m.y
                    ));
                }
            }
        }
        // subslices retrace the polyline
        if !x.subslices.is_empty() {
            let mut trace: Vec<Path> = vec![];
            for s in &x.subslices {
                let src = if s.source_is_pline1 { a } else { b };
                let view = s.view_data.view(src);
                trace.push(path_of(&view));
            }
            let total: f64 = trace.iter().map(|t| t.len()).sum();
            if (total - q.len()).abs() > 1e-4 {
                return Some(format!(
                    "{kind}{} has length {} but its subslices have length {total}",
                    show(&q), q.len()
                ));
            }
            for (i, t) in trace.iter().enumerate() {
                let nx = &trace[(i + 1) % trace.len()];
                let e = t.v.last().unwrap().p();
                let st = nx.v[0].p();
                if e.dist(st) > 1e-4 {
                    return Some(format!(
                        "{kind}{} subslice {i} ends at ({},{}) but the next begins at ({},{})",
                        show(&q), e.x, e.y, st.x, st.y
                    ));
                }
                for s in t.segs() {
                    for u in [0.0, 0.5] {
                        let m = s.at(u);
                        if dist_segs(&segs, m) > 1e-4 {
                            return Some(format!(
                                "{kind}{} subslice {i} passes ({},{}) off the polyline",
                                show(&q), m.x, m.y
                            ));
                        }
                    }
                }
            }
        }
    }
    let f = flat(r);
    for (i, n) in f.neg.iter().enumerate() {
        if n.iter().map(|e| e.area()).sum::<f64>().abs() < 1e-3 {
            continue;
        }
        // a point of the hole boundary moved into the hole must be inside a positive polyline
        let s = &n[0];
        let m = s.at(0.5);
        let nr = s.tan(0.5).left();
        let mut ok = false;
        for sg in [1.0, -1.0] {
            let q = m + nr * (1e-4 * sg);
            if winding(n, q) != 0 && f.pos.iter().any(|x| winding(x, q) != 0) {
                ok = true;
            }
        }
        if !ok {
            return Some(format!("negative polyline {i} is not inside a positive one"));
        }
    }
    None
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rel {
    AinB,
    BinA,
    Disjoint,
    Same,
    Meet,
}
/// relation of the two boundaries by reference geometry
pub fn relation(sa: &[Seg], sb: &[Seg]) -> Rel {
    let mut meet = false;
    for s in sa {
        for t in sb {
            if !meet_points(s, t, 1e-7).is_empty() {
                meet = true;
            }
        }
    }
    if !meet {
        if winding(sb, sa[0].a) != 0 {
            return Rel::AinB;
        }
        if winding(sa, sb[0].a) != 0 {
            return Rel::BinA;
        }
        return Rel::Disjoint;
    }
    let covered = |x: &[Seg], y: &[Seg]| {
        x.iter().all(|s| (0..8).all(|i| dist_segs(y, s.at(i as f64 / 8.0)) < 1e-7))
    };
    if covered(sa, sb) && covered(sb, sa) {
        Rel::Same
    } else {
        Rel::Meet
    }
}
/// smallest distance between the boundaries is clearly zero or clearly positive
pub fn clear_relation(sa: &[Seg], sb: &[Seg]) -> bool {
    for s in sa {
        for t in sb {
            let d = seg_seg_dist(s, t);
            if d > 1e-9 && d < 1e-3 {
                return false;
            }
        }
    }
    true
}

pub fn info_name(i: &BooleanResultInfo) -> &'static str {
    match i {
        BooleanResultInfo::InvalidInput => "invalid_input",
        BooleanResultInfo::Pline1InsidePline2 => "pline1_inside_pline2",
        BooleanResultInfo::Pline2InsidePline1 => "pline2_inside_pline1",
        BooleanResultInfo::Disjoint => "disjoint",
        BooleanResultInfo::Overlapping => "overlapping",
        BooleanResultInfo::Intersected => "intersected",
    }
}
pub fn info_matches(i: &BooleanResultInfo, r: Rel) -> bool {
    matches!(
        (i, r),
        (BooleanResultInfo::Pline1InsidePline2, Rel::AinB)
            | (BooleanResultInfo::Pline2InsidePline1, Rel::BinA)
            | (BooleanResultInfo::Disjoint, Rel::Disjoint)
            | (BooleanResultInfo::Overlapping, Rel::Same)
            | (BooleanResultInfo::Intersected, Rel::Meet)
    )
}

// ------------------------------------------------------------------------------- input spaces

pub struct Pairs {
    pub name: &'static str,
    pub a: Vec<Path>,
    pub b: Vec<Path>,
    pub shift: Vec<P>,
}
impl Pairs {
    pub fn n(&self) -> usize {
        self.a.len() * self.b.len() * self.shift.len()
    }
    pub fn get(&self, i: usize) -> (Path, Path) {
        let s = i % self.shift.len();
        let r = i / self.shift.len();
        let b = &self.b[r % self.b.len()];
        let a = &self.a[r / self.b.len()];
        (a.clone(), b.translate(self.shift[s]))
    }
}

pub const Q8: f64 = 0.414213562373095; // tan(pi/8): quarter circle
pub fn text(a: &Path, b: &Path) -> String {
    format!("A={} B={}", show(a), show(b))
}

/// Complete spaces of pairs; level 0 (smallest) to 2 (largest).
pub fn spaces(level: u8) -> Vec<Pairs> {
    let mut v = vec![];
    // generic position: jittered lattices, every shape pair, several displacements
    let g3 = lattice(2, 2, 1.6, 0.12, 1);
    let h3 = lattice(2, 2, 1.5, 0.12, 2);
    let mk = |l: &[P], b2: &[f64], b3: &[f64], b4: &[f64]| {
        let mut g = closed_simple(l, 2, b2, 0.02);
        g.extend(closed_simple(l, 3, b3, 0.02));
        g.extend(closed_simple(l, 4, b4, 0.02));
        g
    };
    let (ga, gb) = if level == 0 {
        (mk(&g3, &[0.0, 0.45, -1.0], &[0.0, 0.5], &[0.0, 0.4]), mk(&h3, &[0.0, 0.4, 1.0], &[0.0, -0.4], &[0.0, -0.4]))
    } else {
        (
            mk(&g3, &[0.0, 0.45, -0.45, 1.0, -1.0], &[0.0, 0.5, -0.6, 1.0], &[0.0, 0.4, -0.5]),
            mk(&h3, &[0.0, 0.4, -0.5, 1.0, -1.0], &[0.0, -0.4, 0.6, -1.0], &[0.0, -0.4, 0.5]),
        )
    };
    let shift = match level {
        0 => vec![p(-0.11, -0.25), p(0.52, 0.27), p(0.83, -0.4)],
        1 => vec![p(-0.11, -0.25), p(0.52, 0.27), p(0.83, -0.4), p(-0.6, 0.44)],
        _ => lattice(5, 5, 0.47, 0.05, 3).iter().map(|q| *q - p(0.9, 0.9)).collect(),
    };
    v.push(Pairs { name: "generic", a: ga, b: gb, shift });
    // special position: exact lattice, shared vertices, edges, arcs, tangencies
    let e = lattice(3, 3, 1.0, 0.0, 0);
    let sq = lattice(2, 2, 1.0, 0.0, 0);
    let (b2, b3, b4): (&[f64], &[f64], &[f64]) = match level {
        0 => (&[0.0, 1.0], &[0.0, Q8], &[0.0, Q8]),
        1 => (&[0.0, 1.0, Q8, -Q8, -1.0], &[0.0, Q8, 1.0], &[0.0, Q8, -Q8, 1.0]),
        _ => (&[0.0, 1.0, Q8, -Q8, -1.0], &[0.0, Q8, -Q8, 1.0], &[0.0, Q8, -Q8, 1.0]),
    };
    let mut eb = closed_simple(&e, 2, b2, 0.01);
    eb.extend(closed_simple(&e, 3, b3, 0.01));
    eb.extend(closed_simple(&sq, 4, b4, 0.01));
    let mut ea = modulo_symmetry(eb.clone());
    if level == 0 {
        // either direction of B is covered by the representation checks
        eb.retain(|x| x.area() > 0.0);
        ea.retain(|x| x.area() > 0.0);
    }
    for k in 0..2 {
        let mut b = eb.clone();
        if level < 2 {
            b.retain(|x| x.v.len() < 4);
        }
        let mut a = ea.clone();
        if level == 0 {
            a.retain(|x| x.v.len() < 4);
        }
        v.push(Pairs { name: ["turned-1", "turned-2"][k], a: turned(a, k), b: turned(b, k), shift: vec![p(0.0, 0.0)] });
    }
    if level > 0 {
        // almost special: off by less than the position epsilon, or by a little more
        let mut shift = vec![p(1.5e-4, 1.1e-4), p(1e-7, -4e-8)];
        if level == 2 {
            shift.extend([p(-3e-10, 1e-9), p(-2.1e-4, 1.3e-4), p(-6e-7, -3e-8), p(2e-11, 5e-11)]);
        }
        v.push(Pairs { name: "nudged", a: ea.clone(), b: eb.clone(), shift });
    }
    v.push(Pairs { name: "special", a: ea, b: eb, shift: vec![p(0.0, 0.0)] });
    // non convex polygons with many crossings: several loops and holes in one result
    let (la, lb) = (lattice(3, 3, 1.0, 0.1, 11), lattice(3, 3, 1.07, 0.14, 12));
    let mut za = closed_simple(&la, 6, &[0.0], 0.02);
    let mut zb = closed_simple(&lb, 6, &[0.0], 0.02);
    za.extend(closed_simple(&la, if level == 0 { 8 } else { 7 }, &[0.0], 0.02));
    zb.extend(closed_simple(&lb, if level == 0 { 9 } else { 8 }, &[0.0], 0.02));
    if level == 2 {
        za.extend(closed_simple(&la, 5, &[0.0, 0.3], 0.02));
        zb.extend(closed_simple(&lb, 9, &[0.0], 0.02));
    }
    if level == 0 {
        za.retain(|x| x.v.len() == 8 && x.area() > 0.0);
        zb.retain(|x| x.v.len() == 9 && x.area() > 0.0);
    }
    if level == 1 {
        za.retain(|x| x.area() > 0.0);
        zb.retain(|x| x.v.len() == 8);
    }
    v.push(Pairs { name: "zigzag", a: za, b: zb, shift: vec![p(-0.09, 0.13)] });
    // many vertices and crossings: rings of side profiles
    let (ra, rb) = match level {
        0 => (rings(4, "TUW", 1.9), rings(3, "ASTW", 1.7)),
        1 => (rings(4, "ATSUW", 1.9), rings(3, "FADTYSUBCW", 1.7)),
        _ => (rings(4, "FADTNSUBCW", 1.9), rings(3, "FADTNIYSUBCW", 1.7)),
    };
    v.push(Pairs { name: "rings", a: ra, b: rb, shift: vec![p(0.07, -0.19), p(0.97, 0.43)] });
    // rings around the same corners: whole sides coincide, the others part and meet again
    let mut ra = match level {
        0 => rings(3, "FADTSUW", 1.6),
        1 => rings(4, "FATSUW", 1.9),
        _ => rings(4, "FADTNSUBCW", 1.9),
    };
    let mut rb = match level {
        0 => rings(3, "FADNSCW", 1.6),
        1 => rings(4, "FADUW", 1.9),
        _ => rings(4, "FADTNSUBCW", 1.9),
    };
    ra.retain(|q| q.v.len() > 4);
    rb.retain(|q| q.v.len() > 4);
    rb = rb.iter().flat_map(|q| [q.clone(), q.rev()]).collect();
    v.push(Pairs { name: "same-corners", a: ra, b: rb, shift: vec![p(0.0, 0.0)] });
    if std::env::var("MC_TIMES").is_ok() {
        for s in &v {
            eprintln!("space {}: {} x {} x {}", s.name, s.a.len(), s.b.len(), s.shift.len());
        }
    }
    v
}

/// Inputs a boolean must refuse: open or fewer than 2 vertices, on either side.
pub fn invalid(cx: &Ctx) {
    let ok = Path::new(vec![vx(0.0, 0.0, 1.0), vx(2.0, 0.0, 1.0)], true);
    let mut bad: Vec<Path> = vec![];
    for closed in [false, true] {
        bad.push(Path::new(vec![], closed));
        bad.push(Path::new(vec![vx(0.5, 0.5, 0.0)], closed));
    }
    let l = lattice(3, 3, 1.0, 0.0, 0);
    for k in 2..=3 {
        bad.extend(any_paths(&l, k, &[0.0, 1.0], false));
    }
    let n = bad.len();
    cx.space("invalid", n * 3, |i, r| {
        let q = &bad[i / 3];
        let (a, b) = match i % 3 {
            0 => (q, &ok),
            1 => (&ok, q),
            _ => (q, &bad[n - 1]),
        };
        r.case(|| text(a, b));
        for op in OPS {
            r.call();
            let res = pl(a).boolean(&pl(b), op);
            r.class(info_name(&res.result_info));
            r.check(
                matches!(res.result_info, BooleanResultInfo::InvalidInput)
                    && res.pos_plines.is_empty()
                    && res.neg_plines.is_empty(),
                "invalid input",
                || format!("{}: {}", op_name(op), show_res(&res)),
            );
        }
    });
}

/// A line or circle of one path is almost tangent to a circle of the other where both have a segment: a
/// displacement far below any epsilon then moves intersects by more than the position epsilon.
fn near_tangent(sa: &[Seg], sb: &[Seg]) -> bool {
    let one = |s: &Seg, t: &Seg| -> bool {
        let Some(k) = &t.arc else { return false };
        // gap between the supports and the point where they are closest
        let (gap, m) = match &s.arc {
            Some(h) => {
                let (d, u) = (h.c.dist(k.c), (k.c - h.c).unit());
                if d < 1e-3 {
                    return false;
                }
                let (o, i) = ((d - h.r - k.r).abs(), (d - (h.r - k.r).abs()).abs());
                if o < i { (o, h.c + u * h.r) } else if h.r > k.r { (i, h.c + u * h.r) } else { (i, h.c - u * h.r) }
            }
            None => {
                let n = (s.b - s.a).left().unit();
                let d = (k.c - s.a).dot(n);
                ((d.abs() - k.r).abs(), k.c - n * d)
            }
        };
        gap > 1e-14 && gap < 1e-5 && s.dist(m) < 1e-2 && t.dist(m) < 1e-2
    };
    sa.iter().any(|s| sb.iter().any(|t| one(s, t) || one(t, s)))
}

pub fn p01(cx: &Ctx) -> i32 {
    // tangent arcs off by less than the epsilon, where slivers longer than it are lost (a known finding)
    let c = |v: &[(f64, f64, f64)]| Path::new(v.iter().map(|x| vx(x.0, x.1, x.2)).collect(), true);
    let tangent = Pairs {
        name: "near-tangent",
        a: vec![c(&[(0.0, 0.0, 1.0), (2.0, 2.0, 0.0)])],
        b: vec![c(&[(1.0, 1.0, 0.0), (2.0, 2.0, -1.0)])],
        shift: vec![p(1e-9, 3e-10)],
    };
    for sp in spaces(1 + cx.thorough as u8).into_iter().chain([tangent]) {
        cx.space(sp.name, sp.n(), |i, r| {
            let (a, b) = sp.get(i);
            r.case(|| text(&a, &b));
            let (sa, sb) = (a.segs(), b.segs());
            if sp.name == "nudged" && near_tangent(&sa, &sb) {
                r.class("near tangent, not judged");
                return;
            }
            let pr = probes(&sa, &sb);
            let (pa, pb) = (pl(&a), pl(&b));
            for op in OPS {
                r.call();
                let res = pa.boolean(&pb, op);
                r.class(info_name(&res.result_info));
                let f = flat(&res);
                let e = region_error(&pr, op, &f);
                r.check(e.is_none(), op_name(op), || format!("{} result: {}", e.unwrap(), show_res(&res)));
            }
        });
    }
    invalid(cx);
    cx.finish("one state per pair of closed simple polylines; every pair executed with all four operations; two probes per edge of the planar arrangement of the inputs compare coverage with the reference set operation")
}

pub fn p02(cx: &Ctx) -> i32 {
    for sp in spaces(1 + cx.thorough as u8).into_iter().filter(|sp| sp.name != "nudged") {
        cx.space(sp.name, sp.n(), |i, r| {
            let (a, b) = sp.get(i);
            r.case(|| text(&a, &b));
            let (sa, sb) = (a.segs(), b.segs());
            let (pa, pb) = (pl(&a), pl(&b));
            let rel = if clear_relation(&sa, &sb) { Some(relation(&sa, &sb)) } else { None };
            for op in OPS {
                r.call();
                let res = pa.boolean(&pb, op);
                r.class(info_name(&res.result_info));
                let e = wellformed_error(&pa, &pb, &sa, &sb, &res);
                r.check(e.is_none(), op_name(op), || format!("{} result: {}", e.unwrap(), show_res(&res)));
                if let Some(rel) = rel {
                    r.check(info_matches(&res.result_info, rel), "info", || {
                        format!("{}: result_info {:?} but the inputs are {rel:?}", op_name(op), res.result_info)
                    });
                }
            }
        });
    }
    cx.finish("one state per pair of closed simple polylines, all four operations; every result polyline is checked structurally")
}

/// split segment k of a path at fraction t (adds a redundant vertex)
pub fn split_seg(q: &Path, k: usize, t: f64) -> Path {
    let segs = q.segs();
    let s = &segs[k];
    let (l, r) = (s.sub(0.0, t), s.sub(t, 1.0));
    let mut v = q.v.clone();
    v[k].b = l.bulge;
    v.insert(k + 1, vx(r.a.x, r.a.y, r.bulge));
    Path::new(v, q.closed)
}

pub fn p03(cx: &Ctx) -> i32 {
    for sp in spaces(cx.thorough as u8).into_iter().filter(|sp| sp.name != "nudged") {
        cx.space(sp.name, sp.n(), |i, r| {
            let (a, b) = sp.get(i);
            r.case(|| text(&a, &b));
            let (sa, sb) = (a.segs(), b.segs());
            let pr = probes(&sa, &sb);
            let (pa, pb) = (pl(&a), pl(&b));
            // base result: area identities
            let mut area = [0.0; 4];
            for (k, op) in OPS.iter().enumerate() {
                r.call();
                area[k] = flat(&pa.boolean(&pb, *op)).area();
            }
            let (aa, ab) = (a.area().abs(), b.area().abs());
            let tol = 1e-4;
            r.check((area[0] + area[1] - aa - ab).abs() < tol, "area or+and", || {
                format!("|or|={} |and|={} |A|={aa} |B|={ab}", area[0], area[1])
            });
            r.check((area[2] - (aa - area[1])).abs() < tol, "area not", || {
                format!("|not|={} |and|={} |A|={aa}", area[2], area[1])
            });
            r.check((area[3] - (area[0] - area[1])).abs() < tol, "area xor", || {
                format!("|xor|={} |or|={} |and|={}", area[3], area[0], area[1])
            });
            // representations of the same two regions
            let mut try_one = |label: &str, qa: &Polyline<f64>, qb: &Polyline<f64>, idx: u8, swap: bool, map: &dyn Fn(P) -> P, r: &mut Rec| {
                for op in OPS {
                    if swap && op == BooleanOp::Not {
                        continue;
                    }
                    r.call();
                    let index;
                    let mut o = PlineBooleanOptions::new();
                    if idx == 1 {
                        index = qa.create_aabb_index();
                        o.pline1_aabb_index = Some(&index);
                    } else if idx == 2 {
                        index = qa.create_approx_aabb_index();
                        o.pline1_aabb_index = Some(&index);
                    }
                    let res = if idx == 0 { qa.boolean(qb, op) } else { qa.boolean_opt(qb, op, &o) };
                    let f = flat(&res);
                    let mut bad = None;
                    for (q, ia, ib) in &pr.pts {
                        let want = op_fn(op, *ia, *ib) as i32;
                        let q = map(*q);
                        let got = f.cover(q);
                        if got != want {
                            bad = Some(format!("point ({},{}) covered {got} times, expected {want}", q.x, q.y));
                            break;
                        }
                    }
                    r.check(bad.is_none(), &format!("{label} {}", op_name(op)), || {
                        format!("{}; inputs {} {}; result {}", bad.unwrap(), show(&path_of(qa)), show(&path_of(qb)), show_res(&res))
                    });
                }
            };
            let id = |q: P| q;
            for k in 1..a.v.len() {
                try_one("start1", &pl(&a.start(k)), &pb, 0, false, &id, r);
            }
            for k in 1..b.v.len() {
                try_one("start2", &pa, &pl(&b.start(k)), 0, false, &id, r);
            }
            try_one("inverted1", &pl(&a.rev()), &pb, 0, false, &id, r);
            try_one("inverted2", &pa, &pl(&b.rev()), 0, false, &id, r);
            try_one("inverted12", &pl(&a.rev()), &pl(&b.rev()), 0, false, &id, r);
            for k in 0..a.v.len() {
                try_one("split1", &pl(&split_seg(&a, k, 0.5)), &pb, 0, false, &id, r);
            }
            for k in 0..b.v.len() {
                try_one("split2", &pa, &pl(&split_seg(&b, k, 0.5)), 0, false, &id, r);
            }
            try_one("index", &pa, &pb, 1, false, &id, r);
            try_one("approx index", &pa, &pb, 2, false, &id, r);
            try_one("swapped", &pb, &pa, 0, true, &id, r);
            for s in [1usize, 2, 4, 7] {
                let m = move |q: P| symmetry(&Path::new(vec![vx(q.x, q.y, 0.0)], true), s).v[0].p();
                try_one("symmetry", &pl(&symmetry(&a, s)), &pl(&symmetry(&b, s)), 0, false, &m, r);
            }
            let d = p(7.25, -4.5);
            try_one("translated", &pl(&a.translate(d)), &pl(&b.translate(d)), 0, false, &|q| q + d, r);
            try_one("scaled", &pl(&a.scale(64.0)), &pl(&b.scale(64.0)), 0, false, &|q| q * 64.0, r);
            try_one("shrunk", &pl(&a.scale(1.0 / 32.0)), &pl(&b.scale(1.0 / 32.0)), 0, false, &|q| q * (1.0 / 32.0), r);
        });
    }
    cx.finish("one state per pair of closed simple polylines; every start vertex, direction, split segment, index kind, swap and similarity transform is executed with all operations and compared at the arrangement probes; area identities on the base results")
}
