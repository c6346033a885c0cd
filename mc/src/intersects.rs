//! P12 intersects between polylines, P13 self intersects.
use crate::gen::*;
use crate::geo::*;
use crate::query::{families, r2, walks, Q8};
use crate::run::*;
use crate::seg::borderline;
use cavalier_contours::core::traits::ControlFlow;
use cavalier_contours::core::Control;
use cavalier_contours::polyline::*;

const TOL: f64 = 5e-5;

fn meets(s: &Seg, u: &Seg) -> Vec<P> {
    let mut o: Vec<P> = vec![];
    for q in meet_points(s, u, 1e-8) {
        if !o.iter().any(|m| m.dist(q) < TOL) {
            o.push(q);
        }
    }
    o
}
/// overlap stretches with ends ordered along u
fn laps(s: &Seg, u: &Seg) -> Vec<(P, P)> {
    overlaps(s, u, 1e-4).into_iter().map(|(a, b)| if u.closest(a).0 <= u.closest(b).0 { (a, b) } else { (b, a) }).collect()
}

/// everything the exact geometry says about two segments, or None when epsilon decides
enum Meet {
    Unsure,
    Points(Vec<P>),
    Laps(Vec<(P, P)>),
}
fn relate(s: &Seg, u: &Seg) -> Meet {
    // cheap reject
    let (a, b) = (s.bounds(), u.bounds());
    let g = 0.01;
    if a.0 > b.2 + g || b.0 > a.2 + g || a.1 > b.3 + g || b.1 > a.3 + g {
        return Meet::Points(vec![]);
    }
    if borderline(s, u) {
        return Meet::Unsure;
    }
    let l = laps(s, u);
    if !l.is_empty() {
        return Meet::Laps(l);
    }
    Meet::Points(meets(s, u))
}

type Ev = (usize, usize, P);
type Ov = (usize, usize, P, P);

fn run12(a: &Polyline<f64>, b: &Polyline<f64>) -> (Vec<Ev>, Vec<Ov>) {
    conv(a.find_intersects(b))
}
fn conv(c: PlineIntersectsCollection<f64>) -> (Vec<Ev>, Vec<Ov>) {
    (
        c.basic_intersects.iter().map(|x| (x.start_index1, x.start_index2, r2(x.point))).collect(),
        c.overlapping_intersects.iter().map(|x| (x.start_index1, x.start_index2, r2(x.point1), r2(x.point2))).collect(),
    )
}

fn pair(r: &mut Rec, pa: &Path, sa: &[Seg], pb: &Path, sb: &[Seg]) {
    let (a, b) = (pl(pa), pl(pb));
    r.call();
    let (ev, ov) = run12(&a, &b);
    let (na, nb) = (sa.len(), sb.len());
    // soundness of everything reported
    for (i, j, q) in &ev {
        let ok = *i < na && *j < nb && sa[*i].dist(*q) < 1e-4 && sb[*j].dist(*q) < 1e-4;
        if !r.check(ok, "intersect is not on the segments it names", || format!("{i} {j} {q:?}")) {
            return;
        }
    }
    for (i, j, q, w) in &ov {
        let ok = *i < na && *j < nb && [q, w].iter().all(|x| sa[*i].dist(**x) < 1e-4 && sb[*j].dist(**x) < 1e-4);
        if !r.check(ok, "overlap is not on the segments it names", || format!("{i} {j} {q:?} {w:?}")) {
            return;
        }
    }
    // exact expectation
    let mut want: Vec<Ev> = vec![];
    let mut wlap: Vec<Ov> = vec![];
    // an end of a segment belongs to the segment that starts there, if any
    let norm = |s: &[Seg], closed: bool, i: usize, q: P| {
        if s[i].b.dist(q) < TOL && (closed || i + 1 < s.len()) {
            (i + 1) % s.len()
        } else {
            i
        }
    };
    for i in 0..na {
        for j in 0..nb {
            match relate(&sa[i], &sb[j]) {
                Meet::Unsure => return r.class("not judged: epsilon decides"),
                Meet::Points(m) => {
                    for q in m {
                        let k = (norm(sa, pa.closed, i, q), norm(sb, pb.closed, j, q), q);
                        if !want.iter().any(|w| w.0 == k.0 && w.1 == k.1 && w.2.dist(q) < TOL) {
                            want.push(k);
                        }
                    }
                }
                Meet::Laps(l) => {
                    for (q, w) in l {
                        wlap.push((i, j, q, w));
                    }
                }
            }
        }
    }
    r.class(match (want.is_empty(), wlap.is_empty()) {
        (true, true) => "apart",
        (false, true) => "basic only",
        (true, false) => "overlapping only",
        _ => "basic and overlapping",
    });
    // overlaps: exactly these
    for (i, j, q, w) in &wlap {
        let n = ov.iter().filter(|o| o.0 == *i && o.1 == *j && o.2.dist(*q) < TOL && o.3.dist(*w) < TOL).count();
        if !r.check(n == 1, "overlapping stretch reported once, along the second segment", || format!("{i} {j} {q:?} {w:?}: {n} times, all {ov:?}")) {
            return;
        }
    }
    if !r.check(ov.len() == wlap.len(), "overlapping stretches", || format!("{ov:?} exact {wlap:?}")) {
        return;
    }
    // basics: at an end of an overlap none (the overlap reports the point), otherwise exactly once
    for (i, j, q) in &want {
        let at_lap = wlap.iter().any(|o| o.2.dist(*q) < TOL || o.3.dist(*q) < TOL);
        let strand = wlap.iter().any(|o| {
            [o.2, o.3].iter().any(|x| x.dist(*q) < TOL && norm(sa, pa.closed, o.0, *x) == *i && norm(sb, pb.closed, o.1, *x) == *j)
        });
        let n = ev.iter().filter(|e| e.0 == *i && e.1 == *j && e.2.dist(*q) < TOL).count();
        let ok = if strand { n == 0 } else if at_lap { n <= 1 } else { n == 1 };
        if !r.check(ok, "intersect reported once under the segments starting there", || format!("{i} {j} {q:?}: {n} times, all {ev:?} overlaps {ov:?}")) {
            return;
        }
    }
    for (i, j, q) in &ev {
        let ok = want.iter().any(|w| w.0 == *i && w.1 == *j && w.2.dist(*q) < TOL);
        if !r.check(ok, "intersect reported where there is none (or under the wrong segments)", || format!("{i} {j} {q:?} exact {want:?} {wlap:?}")) {
            return;
        }
    }
    // two intersects of one pair of segments: in the order of the second segment
    for x in 0..ev.len() {
        for y in x + 1..ev.len() {
            if ev[x].0 == ev[y].0 && ev[x].1 == ev[y].1 {
                let s = sb[ev[x].1];
                r.check(s.closest(ev[x].2).0 <= s.closest(ev[y].2).0, "two intersects ordered along the second segment", || format!("{ev:?}"));
            }
        }
    }
    // a supplied index changes nothing
    for tight in [true, false] {
        let ix = if tight { a.create_aabb_index() } else { a.create_approx_aabb_index() };
        r.call();
        let mut o = FindIntersectsOptions::new();
        o.pline1_aabb_index = Some(&ix);
        let (e2, o2) = conv(a.find_intersects_opt(&b, &o));
        let same = e2.len() == ev.len() && o2.len() == ov.len() && e2.iter().all(|x| ev.contains(x)) && o2.iter().all(|x| ov.contains(x));
        if !r.check(same, "a supplied spatial index changes the result", || format!("{ev:?} {ov:?}, with index {e2:?} {o2:?}")) {
            return;
        }
    }
    // the order of the two polylines does not matter
    r.call();
    let (e2, o2) = run12(&b, &a);
    let mut all: Vec<P> = ev.iter().map(|e| e.2).collect();
    all.extend(ov.iter().flat_map(|o| [o.2, o.3]));
    let mut back: Vec<P> = e2.iter().map(|e| e.2).collect();
    back.extend(o2.iter().flat_map(|o| [o.2, o.3]));
    let same = all.iter().all(|q| back.iter().any(|w| w.dist(*q) < TOL)) && back.iter().all(|q| all.iter().any(|w| w.dist(*q) < TOL));
    r.check(same && ov.len() == o2.len(), "swapping the polylines changes the points", || format!("{all:?} swapped {back:?}"));
}

fn with_segs(v: Vec<Path>) -> Vec<(Path, Vec<Seg>)> {
    v.into_iter().map(|q| (q.segs(), q)).map(|(s, q)| (q, s)).collect()
}

pub fn p12(cx: &Ctx) -> i32 {
    let mut pairs: Vec<(String, Vec<(Path, Vec<Seg>)>, Vec<(Path, Vec<Seg>)>)> = vec![];
    let mut add = |n: &str, x: Vec<Path>, y: Vec<Path>| pairs.push((n.to_string(), with_segs(x), with_segs(y)));
    let l33 = lattice(3, 3, 1.0, 0.0, 0);
    let l32 = lattice(3, 2, 1.0, 0.0, 0);
    let j33 = lattice(3, 3, 1.0, 0.15, 3);
    let j32 = lattice(3, 2, 1.1, 0.15, 8);
    let mixed = [0.0, 1.0, -Q8];
    let sym = modulo_symmetry;
    for (n, la, lb) in [("exact", &l33, &l33), ("jittered", &l33, &j33)] {
        let full = [0.0, 1.0, -1.0, Q8, -Q8];
        add(&format!("open2-open2-{n}"), any_paths(la, 2, &full, false), any_paths(lb, 2, &full, false));
        add(&format!("open3-open2-{n}"), sym(any_paths(la, 3, &mixed, false)), any_paths(lb, 2, &full, false));
        add(&format!("closed3-open2-{n}"), sym(any_paths(la, 3, &mixed, true)), any_paths(lb, 2, &full, false));
    }
    for (n, la, lb) in [("exact", &l32, &l32), ("jittered", &l32, &j32)] {
        let two = if n == "exact" && !cx.thorough { vec![0.0, 1.0] } else { mixed.to_vec() };
        add(&format!("closed3-closed3-{n}"), sym(any_paths(la, 3, &mixed, true)), any_paths(lb, 3, &mixed, true));
        add(&format!("closed3-open3-{n}"), sym(any_paths(la, 3, &mixed, true)), any_paths(lb, 3, &mixed, false));
        add(&format!("open3-open3-{n}"), sym(any_paths(la, 3, &mixed, false)), any_paths(lb, 3, &mixed, false));
        add(&format!("open3-closed3-{n}"), sym(any_paths(la, 3, &mixed, false)), any_paths(lb, 3, &mixed, true));
        add(&format!("closed4-open3-{n}"), sym(any_paths(la, 4, &two, true)), any_paths(lb, 3, &two, false));
    }
    add("closed2-closed2", any_paths(&l33, 2, &[1.0, Q8, -Q8, 0.0], true), any_paths(&l33, 2, &[1.0, Q8, -Q8, 0.0], true));
    add("closed4-closed4-lines", sym(closed_simple(&l33, 4, &[0.0], 0.1)), closed_simple(&l33, 4, &[0.0], 0.1));
    add("walks-open3", walks(&lattice(2, 2, 1.0, 0.0, 0), 4, &[0.0, 1.0], false, false), any_paths(&lattice(2, 2, 1.0, 0.0, 0), 3, &mixed, false));
    add("walks-closed3", walks(&lattice(2, 2, 1.0, 0.0, 0), 4, &[0.0, 1.0], true, false), any_paths(&lattice(2, 2, 1.0, 0.0, 0), 3, &mixed, true));
    for k in 0..2 {
        let t = |v: Vec<Path>| turned(v, k);
        add(&format!("open2-open2-turned-{k}"), t(any_paths(&l33, 2, &[0.0, 1.0, -1.0, Q8, -Q8], false)), t(any_paths(&l33, 2, &[0.0, 1.0, -1.0, Q8, -Q8], false)));
        add(&format!("closed3-open2-turned-{k}"), t(sym(any_paths(&l33, 3, &mixed, true))), t(any_paths(&l33, 2, &mixed, false)));
        add(&format!("closed3-closed3-turned-{k}"), t(sym(any_paths(&l32, 3, &mixed, true))), t(any_paths(&l32, 3, &[0.0, 1.0], true)));
        add(&format!("open3-open3-turned-{k}"), t(sym(any_paths(&l32, 3, &mixed, false))), t(any_paths(&l32, 3, if cx.deep { &mixed } else { &[0.0, -Q8] }, false)));
        add(&format!("walks-closed3-turned-{k}"), t(walks(&lattice(2, 2, 1.0, 0.0, 0), 4, &[0.0, 1.0], true, false)), t(any_paths(&lattice(2, 2, 1.0, 0.0, 0), 3, &mixed, true)));
    }
    // many vertices: rings and stars of side profiles, apart and around the same corners
    let moved = |v: Vec<Path>, m: P| -> Vec<Path> { v.iter().map(|q| q.translate(m)).collect() };
    let cut = |v: Vec<Path>| -> Vec<Path> { v.into_iter().map(|q| Path::new(q.v, false)).collect() };
    let l = if cx.deep { "FADTNSUBCW" } else { "FATSUW" };
    add("rings", rings(3, l, 1.6), moved(rings(4, if cx.deep { "ATNSUW" } else { "TSW" }, 1.7), p(0.31, 0.22)));
    add("rings-same-corners", rings(3, l, 1.6), rings(3, "FADTNJSUBCW", 1.6));
    add("rings-cut", cut(rings(3, l, 1.6)), rings(3, "FADTNJSUBCW", 1.6).iter().map(|q| q.rev()).collect());
    add("stars", stars(5, 2, if cx.deep { "FATSUW" } else { "FTW" }, 1.8), cut(moved(rings(3, l, 1.5), p(-0.2, 0.1))));
    if cx.thorough {
        add("closed4-closed4-mixed", sym(closed_simple(&l32, 4, &mixed, 0.05)), closed_simple(&l32, 4, &mixed, 0.05));
        add("open4-open4", sym(any_paths(&l32, 4, &[0.0, 1.0], false)), any_paths(&l32, 4, &[0.0, -Q8], false));
        add("closed5-closed4-lines", sym(closed_simple(&l33, 5, &[0.0], 0.1)), closed_simple(&l33, 4, &[0.0], 0.1));
        add("open3-open3-3x3", sym(any_paths(&l33, 3, &mixed, false)), any_paths(&l33, 3, &[0.0, Q8], false));
        add("closed3-closed3-3x3", sym(any_paths(&l33, 3, &mixed, true)), any_paths(&l33, 3, &[0.0, -1.0, Q8], true));
    }
    for (name, x, y) in &pairs {
        cx.space(name, x.len() * y.len(), |i, r| {
            let ((a, sa), (b, sb)) = (&x[i / y.len()], &y[i % y.len()]);
            r.case(|| format!("{} with {}", show(a), show(b)));
            pair(r, a, sa, b, sb);
        });
    }
    // too few vertices: nothing to report
    let tiny: Vec<Path> = [true, false].iter().flat_map(|c| [Path::new(vec![], *c), Path::new(vec![vx(0.5, 0.0, 1.0)], *c)]).collect();
    let ok = any_paths(&lattice(2, 2, 1.0, 0.0, 0), 3, &mixed, true);
    cx.space("tiny", tiny.len() * ok.len(), |i, r| {
        let (t, o) = (&tiny[i / ok.len()], &ok[i % ok.len()]);
        r.case(|| format!("{} with {}", show(t), show(o)));
        for (a, b) in [(t, o), (o, t), (t, t)] {
            r.call();
            let (e, v) = run12(&pl(a), &pl(b));
            r.check(e.is_empty() && v.is_empty(), "intersects with fewer than 2 vertices", || format!("{e:?} {v:?}"));
        }
    });
    cx.finish("all pairs of polylines of the listed families (open, closed, lines and arcs, exact and jittered lattices, self-crossing walks); the reported events compared as a multiset with the exact meeting points and overlaps of all segment pairs")
}

#[derive(Default)]
struct Rd {
    ev: Vec<Ev>,
    ov: Vec<Ov>,
    seq: Vec<(bool, usize)>,
    stop_at: usize,
    calls: usize,
}
impl Rd {
    fn next(&mut self) -> Control<usize> {
        self.calls += 1;
        if self.calls == self.stop_at {
            Control::Break(self.calls)
        } else {
            Control::Continue
        }
    }
}
impl PlineIntersectVisitor<f64, Control<usize>> for Rd {
    fn visit_basic_intr(&mut self, x: PlineBasicIntersect<f64>) -> Control<usize> {
        self.seq.push((true, self.ev.len()));
        self.ev.push((x.start_index1, x.start_index2, r2(x.point)));
        self.next()
    }
    fn visit_overlapping_intr(&mut self, x: PlineOverlappingIntersect<f64>) -> Control<usize> {
        self.seq.push((false, self.ov.len()));
        self.ov.push((x.start_index1, x.start_index2, r2(x.point1), r2(x.point2)));
        self.next()
    }
}
fn visit(a: &Polyline<f64>, inc: SelfIntersectsInclude, stop_at: usize, ix: Option<&static_aabb2d_index::StaticAABB2DIndex<f64>>) -> (Rd, Control<usize>) {
    let mut v = Rd { stop_at, ..Default::default() };
    let mut o = PlineSelfIntersectOptions::new();
    o.include = inc;
    o.aabb_index = ix;
    let c: Control<usize> = a.visit_self_intersects_opt(&mut v, &o);
    (v, c)
}
fn flat(v: &Rd) -> Vec<String> {
    v.seq.iter().map(|(b, i)| if *b { format!("{:?}", v.ev[*i]) } else { format!("{:?}", v.ov[*i]) }).collect()
}

fn own(r: &mut Rec, path: &Path) {
    let a = pl(path);
    let segs = path.segs();
    let n = segs.len();
    r.call();
    let (all, c) = visit(&a, SelfIntersectsInclude::All, usize::MAX, None);
    r.check(!c.should_break(), "break returned although the visitor never breaks", || "".into());
    // soundness
    for (i, j, q) in &all.ev {
        let ok = *i < n && *j < n && i != j && segs[*i].dist(*q) < 1e-4 && segs[*j].dist(*q) < 1e-4;
        if !r.check(ok, "self intersect is not on the segments it names", || format!("{i} {j} {q:?}")) {
            return;
        }
    }
    for (i, j, q, w) in &all.ov {
        let ok = *i < n && *j < n && i != j && [q, w].iter().all(|x| segs[*i].dist(**x) < 1e-4 && segs[*j].dist(**x) < 1e-4);
        if !r.check(ok, "self overlap is not on the segments it names", || format!("{i} {j} {q:?} {w:?}")) {
            return;
        }
    }
    let next = |i: usize| if path.closed { (i + 1) % n } else { i + 1 };
    let key = |i: usize, j: usize| (i.min(j), i.max(j));
    let mut want: Vec<(Ev, bool)> = vec![]; // (pair, required)
    let mut wlap: Vec<Ov> = vec![];
    let mut unsure = false;
    for i in 0..n {
        for j in i + 1..n {
            match relate(&segs[i], &segs[j]) {
                Meet::Unsure => unsure = true,
                Meet::Laps(l) => wlap.extend(l.into_iter().map(|(q, w)| (i, j, q, w))),
                Meet::Points(m) => {
                    for q in m {
                        let joint = (next(i) == j && segs[i].b.dist(q) < TOL) || (next(j) == i && segs[j].b.dist(q) < TOL);
                        if joint {
                            continue;
                        }
                        // where both segments end the point is visited for the segments that follow
                        let ends = segs[i].b.dist(q) < TOL && segs[j].b.dist(q) < TOL;
                        want.push(((i, j, q), !ends));
                    }
                }
            }
        }
    }
    if unsure {
        r.class("not judged: epsilon decides");
    } else {
        r.class(match (want.is_empty(), wlap.is_empty()) {
            (true, true) => "simple",
            (false, true) => "crossing or touching",
            (true, false) => "overlapping",
            _ => "crossing and overlapping",
        });
        for ((i, j, q), must) in &want {
            let k = all.ev.iter().filter(|e| key(e.0, e.1) == key(*i, *j) && e.2.dist(*q) < TOL).count();
            // somewhere the point itself is visited in any case
            let seen = k > 0 || all.ev.iter().any(|e| e.2.dist(*q) < TOL) || all.ov.iter().any(|e| segs[e.0].dist(*q) < TOL && segs[e.1].dist(*q) < TOL);
            if !r.check(k == 1 || (!must && seen && k == 0), "self intersect visited once per pair of segments", || format!("{i} {j} {q:?}: {k} times, all {:?} {:?}", all.ev, all.ov)) {
                return;
            }
        }
        for (i, j, q) in &all.ev {
            let ok = want.iter().any(|w| key(w.0 .0, w.0 .1) == key(*i, *j) && w.0 .2.dist(*q) < TOL);
            if !r.check(ok, "self intersect visited where there is none", || format!("{i} {j} {q:?} exact {want:?}")) {
                return;
            }
        }
        for (i, j, q, w) in &wlap {
            let k = all.ov.iter().filter(|e| {
                key(e.0, e.1) == key(*i, *j) && ((e.2.dist(*q) < TOL && e.3.dist(*w) < TOL) || (e.3.dist(*q) < TOL && e.2.dist(*w) < TOL))
            });
            let k = k.count();
            if !r.check(k == 1, "self overlap visited once", || format!("{i} {j} {q:?} {w:?}: {k} times, all {:?}", all.ov)) {
                return;
            }
        }
        if !r.check(all.ov.len() == wlap.len(), "self overlaps", || format!("{:?} exact {wlap:?}", all.ov)) {
            return;
        }
        // point1 of an overlap is nearer to the start of the second segment
        for (i, j, q, w) in &all.ov {
            let s = segs[*j];
            r.check(s.closest(*q).0 < s.closest(*w).0 || n == 2, "self overlap ordered along the second segment", || format!("{i} {j} {q:?} {w:?}"));
        }
    }
    // local and global partition all
    r.call();
    let (loc, _) = visit(&a, SelfIntersectsInclude::Local, usize::MAX, None);
    let (glo, _) = visit(&a, SelfIntersectsInclude::Global, usize::MAX, None);
    let (mut x, y) = (flat(&loc), flat(&glo));
    let adjacent = |i: usize, j: usize| next(i) == j || next(j) == i;
    let pure = loc.ev.iter().all(|e| adjacent(e.0, e.1)) && loc.ov.iter().all(|e| adjacent(e.0, e.1)) && !glo.ev.iter().any(|e| adjacent(e.0, e.1)) && !glo.ov.iter().any(|e| adjacent(e.0, e.1));
    r.check(pure, "local intersects are those of consecutive segments, global the others", || format!("local {x:?} global {y:?}"));
    x.extend(y);
    let mut z = flat(&all);
    let seq = z.clone();
    x.sort();
    z.sort();
    if !r.check(x == z, "local and global intersects partition all", || format!("{x:?} all {z:?}")) {
        return;
    }
    // supplied index
    for ix in [a.create_aabb_index(), a.create_approx_aabb_index()] {
        r.call();
        let (w, _) = visit(&a, SelfIntersectsInclude::All, usize::MAX, Some(&ix));
        // which segment of a pair is named first follows the order of the index
        let set = |v: &Rd| {
            let mut o: Vec<String> = v.ev.iter().map(|e| format!("{:?} {:.4} {:.4}", key(e.0, e.1), e.2.x + 0.0, e.2.y + 0.0)).collect();
            o.sort();
            o
        };
        r.check(set(&w) == set(&all) && w.ov.len() == all.ov.len(), "a supplied spatial index changes the self intersects", || format!("{:?} {:?}", set(&w), set(&all)));
    }
    // a visitor that breaks at its k-th call sees exactly the first k
    for inc in [SelfIntersectsInclude::All, SelfIntersectsInclude::Local, SelfIntersectsInclude::Global] {
        let seq = match inc {
            SelfIntersectsInclude::All => seq.clone(),
            SelfIntersectsInclude::Local => flat(&loc),
            _ => flat(&glo),
        };
        for k in 1..=seq.len() {
            r.call();
            let (w, c) = visit(&a, inc, k, None);
            let ok = w.calls == k && flat(&w) == seq[..k] && matches!(c, Control::Break(m) if m == k);
            if !r.check(ok, "a visitor that breaks is not called again", || format!("break at {k}: {} calls, {c:?}", w.calls)) {
                return;
            }
        }
    }
}

pub fn p13(cx: &Ctx) -> i32 {
    let mut fams: Vec<(String, Vec<Path>)> = families(cx, true).into_iter().filter(|f| !f.0.ends_with("repeats")).collect();
    let l = lattice(3, 3, 1.0, 0.0, 0);
    for closed in [true, false] {
        let t = if closed { "closed" } else { "open" };
        fams.push((format!("{t}5-lines-3x3"), any_paths(&l, 5, &[0.0], closed)));
        fams.push((format!("{t}6-lines-3x2"), any_paths(&lattice(3, 2, 1.0, 0.0, 0), 6, &[0.0], closed)));
        fams.push((format!("{t}5-lines-jittered"), any_paths(&lattice(3, 3, 1.0, 0.2, 31), 5, &[0.0], closed)));
        fams.push((format!("{t}6-walks-2x2"), walks(&lattice(2, 2, 1.0, 0.0, 0), 6, &[0.0], closed, false)));
        fams.push((format!("{t}5-walks-2x2"), walks(&lattice(2, 2, 1.0, 0.0, 0), 5, &[0.0, 1.0], closed, false)));
        if cx.thorough {
            fams.push((format!("{t}6-lines-3x3"), any_paths(&l, 6, &[0.0], closed)));
            fams.push((format!("{t}7-walks-2x2"), walks(&lattice(2, 2, 1.0, 0.0, 0), 7, &[0.0], closed, false)));
            fams.push((format!("{t}6-lines-jittered"), any_paths(&lattice(3, 3, 1.0, 0.2, 31), 6, &[0.0], closed)));
            fams.push((format!("{t}6-arcs-jittered"), any_paths(&lattice(3, 2, 1.0, 0.2, 9), 6, &[0.0, 1.0], closed)));
        }
    }
    for (name, paths) in fams {
        cx.space(&name, paths.len(), |i, r| {
            let path = &paths[i];
            r.case(|| show(path));
            if path.v.len() >= 2 && path.segs().iter().any(|s| s.a.dist(s.b) < 1e-9) {
                return;
            }
            if path.v.len() < 2 {
                r.call();
                let (v, c) = visit(&pl(path), SelfIntersectsInclude::All, 1, None);
                r.check(v.calls == 0 && !c.should_break(), "intersects with fewer than 2 vertices", || format!("{:?}", flat(&v)));
                return;
            }
            own(r, path);
        });
    }
    cx.finish("all polylines of the listed families (open and closed, every word with repeated positions, lines and arcs); visited events compared with the exact meeting points and overlaps of all segment pairs; every break point of every visit")
}
