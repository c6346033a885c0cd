//! P16 clean-up, P17 transforms, P18 arc approximation: complete families of vertex sequences.
use crate::gen::*;
use crate::geo::*;
use crate::query::{families, v2, walks, Q8};
use crate::run::*;
use cavalier_contours::polyline::*;

/// point of a path at travelled length s (closed: modulo the total)
pub struct Rail {
    pub segs: Vec<Seg>,
    pub cum: Vec<f64>,
    pub closed: bool,
    pub first: P,
}
impl Rail {
    pub fn new(q: &Path) -> Rail {
        let segs = q.segs();
        let mut cum = vec![0.0];
        for s in &segs {
            cum.push(cum.last().unwrap() + s.len());
        }
        Rail { segs, cum, closed: q.closed, first: q.v.first().map(|v| v.p()).unwrap_or(p(0.0, 0.0)) }
    }
    pub fn total(&self) -> f64 {
        *self.cum.last().unwrap()
    }
    pub fn at(&self, s: f64) -> P {
        let t = self.total();
        if t == 0.0 {
            return self.first;
        }
        let s = if self.closed && s > t { s - t } else { s }.clamp(0.0, t);
        let k = (0..self.segs.len()).find(|k| self.cum[k + 1] >= s && self.cum[k + 1] > self.cum[*k]).unwrap_or(self.segs.len() - 1);
        let l = self.cum[k + 1] - self.cum[k];
        self.segs[k].at(if l > 0.0 { ((s - self.cum[k]) / l).clamp(0.0, 1.0) } else { 0.0 })
    }
}

/// Do `a` from length s0 on (closed) and `b` from its start trace the same points at the same lengths?
pub fn traces(a: &Rail, s0: f64, b: &Rail, tol: f64) -> Result<(), String> {
    let l = a.total();
    if (l - b.total()).abs() > tol {
        return Err(format!("lengths {} and {}", l, b.total()));
    }
    let mut ss: Vec<f64> = (0..=16).map(|k| l * k as f64 / 16.0).collect();
    for c in &a.cum {
        let s = c - s0;
        ss.push(if s < 0.0 { s + l } else { s });
    }
    ss.extend(b.cum.iter().cloned());
    for w in b.cum.windows(2) {
        ss.push((w[0] + w[1]) / 2.0);
    }
    for s in ss {
        let (x, y) = (a.at(s0 + s), b.at(s));
        if x.dist(y) > tol {
            return Err(format!("after length {s}: {x:?} and {y:?}"));
        }
    }
    Ok(())
}

fn same_path(a: &Path, b: &Path, tol: f64) -> Result<(), String> {
    if a.closed != b.closed {
        return Err("closed flag changed".into());
    }
    if b.v.is_empty() {
        return Err("no vertex left".into());
    }
    let (ra, rb) = (Rail::new(a), Rail::new(b));
    if !a.closed {
        return traces(&ra, 0.0, &rb, tol);
    }
    let mut last = String::from("start point is not on the path");
    for k in 0..a.v.len() {
        if a.v[k].p().dist(rb.first) < tol {
            match traces(&ra, ra.cum[k], &rb, tol) {
                Ok(()) => return Ok(()),
                Err(e) => last = e,
            }
        }
    }
    Err(last)
}

fn same_vertices(a: &Path, b: &Path, tol: f64) -> bool {
    a.closed == b.closed
        && a.v.len() == b.v.len()
        && a.v.iter().zip(&b.v).all(|(x, y)| x.p().dist(y.p()) < tol && (x.b - y.b).abs() < tol)
}

fn model_repeat(a: &Path, eps: f64) -> Path {
    let mut v: Vec<Vx> = vec![];
    for w in &a.v {
        match v.last_mut() {
            Some(l) if l.p().dist(w.p()) < eps => l.b = w.b,
            _ => v.push(*w),
        }
    }
    if a.closed && v.len() > 1 && v[0].p().dist(v.last().unwrap().p()) < eps {
        v.pop();
    }
    Path::new(v, a.closed)
}

/// index of a vertex that may be dropped by widening the segment before it
fn redundant_vertex(a: &Path) -> Option<usize> {
    let n = a.v.len();
    if n < 2 {
        return None;
    }
    let segs = a.segs();
    for i in 0..n {
        if !a.closed && i == 0 {
            continue;
        }
        let prev = (i + n - 1) % n;
        if a.v[prev].p().dist(a.v[i].p()) < 1e-7 {
            return Some(i);
        }
        if (!a.closed && i == n - 1) || n < 3 {
            continue;
        }
        let (s, t) = (&segs[prev], &segs[i]);
        if t.a.dist(t.b) < 1e-7 {
            continue; // reported at the next vertex
        }
        match (s.arc, t.arc) {
            (None, None) => {
                let (d, e) = (s.tan(0.0), t.tan(0.0));
                if d.cross(e).abs() < 1e-9 && d.dot(e) > 0.0 {
                    return Some(i);
                }
            }
            (Some(k), Some(m)) => {
                let joined = k.sw.abs() + m.sw.abs();
                if k.c.dist(m.c) < 1e-7 && (k.r - m.r).abs() < 1e-7 && k.sw * m.sw > 0.0 && joined < std::f64::consts::PI + 1e-7 {
                    return Some(i);
                }
            }
            _ => {}
        }
    }
    None
}

/// All paths over points of the unit circle, with every connecting arc of at most a half turn or line
pub fn circle_words(n: usize, k: usize, closed: bool, firsts: &[usize]) -> Vec<Path> {
    let pts: Vec<P> = (0..n)
        .map(|i| {
            let g = i as f64 * std::f64::consts::TAU / n as f64;
            p(1.5 + g.cos(), 0.25 + g.sin())
        })
        .collect();
    let mut out = vec![];
    words(n, k, |ix| {
        if !firsts.contains(&ix[0]) {
            return;
        }
        let m = if closed { k } else { k - 1 };
        let mut choice: Vec<Vec<f64>> = vec![];
        for j in 0..m {
            let d = (ix[(j + 1) % k] + n - ix[j]) % n;
            let mut c = vec![0.0];
            let arc = |d: usize| ((d as f64 * std::f64::consts::TAU / n as f64) / 4.0).tan();
            if d == 0 {
                c.push(1.0);
            }
            if d > 0 && d * 2 <= n {
                c.push(arc(d).min(1.0));
            }
            if d > 0 && (n - d) * 2 <= n {
                c.push(-arc(n - d).min(1.0));
            }
            choice.push(c);
        }
        words(3, m, |w| {
            if (0..m).any(|j| w[j] >= choice[j].len()) {
                return;
            }
            out.push(Path::new(
                (0..k).map(|j| vx(pts[ix[j]].x, pts[ix[j]].y, if j < m { choice[j][w[j]] } else { 0.0 })).collect(),
                closed,
            ));
        });
    });
    out
}

/// lines only: is every vertex of `a` on the line of the kept vertexes around it?
fn kept_within(a: &Path, b: &Path, tol: f64) -> Result<(), String> {
    let (n, m) = (a.v.len(), b.v.len());
    if a.closed != b.closed || m == 0 {
        return Err("closed flag changed or no vertex left".into());
    }
    let mut ix = vec![];
    let mut k = 0;
    for w in &b.v {
        while k < n && a.v[k].p().dist(w.p()) > 0.0 {
            k += 1;
        }
        if k == n {
            // the first vertex of a closed polyline may be replaced by the last one
            k = 0;
            while k < n && a.v[k].p().dist(w.p()) > 0.0 {
                k += 1;
            }
            if k == n || !a.closed {
                return Err(format!("({},{}) is not a vertex of the input", w.x, w.y));
            }
        }
        ix.push(k);
    }
    let pairs = if a.closed { m } else { m - 1 };
    if !a.closed && (a.v[ix[0]].p().dist(a.v[0].p()) > tol || a.v[ix[m - 1]].p().dist(a.v[n - 1].p()) > tol) {
        return Err("an end moved".into());
    }
    for i in 0..pairs {
        let (s, e) = (ix[i], ix[(i + 1) % m]);
        let chord = Seg::new(a.v[s].p(), a.v[e].p(), 0.0);
        let mut k = (s + 1) % n;
        while k != e {
            let d = chord.dist(a.v[k].p());
            // a single vertex with a small cross product of its edges counts as collinear (a stable test
            // of the repository relies on it), but never where the direction visibly turns
            let edge = a.v[k].p().dist(a.v[(k + n - 1) % n].p()).min(a.v[k].p().dist(a.v[(k + 1) % n].p()));
            if d > tol.max(0.1 * edge) {
                return Err(format!("vertex {k} is {d} away from the line from vertex {s} to {e}"));
            }
            k = (k + 1) % n;
        }
    }
    Ok(())
}

/// repeat and redundant vertex removal of one polyline
fn removal(path: &Path, tol: f64, exact: bool, r: &mut Rec) {
    r.case(|| show(path));
    let a = pl(path);
    let eps = 1e-5;
    // repeat positions
    r.call();
    let want = model_repeat(path, eps);
    let got = a.remove_repeat_pos(eps);
    match &got {
        None => {
            r.check(want.v.len() == path.v.len(), "remove_repeat_pos is None with repeats", || show(&want));
        }
        Some(g) => {
            let g = path_of(g);
            if !r.check(same_vertices(&want, &g, 1e-12), "remove_repeat_pos result", || format!("{} expected {}", show(&g), show(&want))) {
                return;
            }
            r.check(want.v.len() != path.v.len(), "remove_repeat_pos returns an unchanged copy", || show(&g));
            r.call();
            r.check(pl(&g).remove_repeat_pos(eps).is_none(), "remove_repeat_pos again changes something", || show(&g));
        }
    }
    let c = path_of(&Polyline::create_from_remove_repeat(&a, eps));
    r.check(same_vertices(&want, &c, 1e-12), "create_from_remove_repeat", || format!("{} expected {}", show(&c), show(&want)));
    // redundant vertexes
    r.call();
    match a.remove_redundant(eps) {
        None if !exact => r.class("not redundant"),
        None => {
            let k = redundant_vertex(path);
            r.class("not redundant");
            r.check(k.is_none(), "remove_redundant is None with a redundant vertex", || format!("vertex {k:?}"));
        }
        Some(g) => {
            r.class("redundant");
            let g = path_of(&g);
            if !r.check(g.v.len() < path.v.len(), "remove_redundant removes nothing", || show(&g)) {
                return;
            }
            let same = if exact { same_path(path, &g, tol) } else { kept_within(path, &g, tol) };
            if !r.check(same.is_ok(), "remove_redundant changes the path", || format!("{}: {same:?}", show(&g))) {
                return;
            }
            if !exact {
                return;
            }
            let k = redundant_vertex(&g);
            if !r.check(k.is_none(), "remove_redundant leaves a redundant vertex", || format!("{}: vertex {k:?}", show(&g))) {
                return;
            }
            r.call();
            let again = pl(&g).remove_redundant(eps);
            r.check(again.is_none(), "remove_redundant again changes something", || format!("{} -> {}", show(&g), show(&path_of(again.as_ref().unwrap()))));
        }
    }
}

/// polylines of many short lines along arcs and spirals
fn dense_curves(thorough: bool) -> Vec<Path> {
    let mut out = vec![];
    for radius in [0.05, 0.3, 1.0, 7.0, 50.0] {
        for step in [3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2, 5e-2] {
            let full = std::f64::consts::TAU * radius / step;
            if full < 8.0 {
                continue;
            }
            for (closed, part) in [(true, 1.0), (false, 1.0), (false, 0.3), (false, 0.02)] {
                let n = (full * part).floor() as usize;
                if n < 4 || n > if thorough { 60000 } else { 6000 } {
                    continue;
                }
                for grow in [0.0, 0.5] {
                    if closed && grow != 0.0 {
                        continue;
                    }
                    for start in [0.0, 0.1] {
                        out.push(Path::new(
                            (0..n)
                                .map(|i| {
                                    let g = start + i as f64 * std::f64::consts::TAU / full;
                                    let q = radius * (1.0 + grow * i as f64 / n as f64);
                                    vx(0.3 + q * g.cos(), -0.2 + q * g.sin(), 0.0)
                                })
                                .collect(),
                            closed,
                        ));
                    }
                }
            }
        }
    }
    out
}

pub fn p16(cx: &Ctx) -> i32 {
    let mut fams: Vec<(String, Vec<Path>)> = vec![];
    for closed in [true, false] {
        let t = if closed { "closed" } else { "open" };
        let tiny = vec![Path::new(vec![], closed), Path::new(vec![vx(1.0, 1.0, 1.0)], closed)];
        fams.push((format!("{t}-tiny"), tiny));
        let row = lattice(4, 1, 1.0, 0.0, 0);
        let block = lattice(3, 2, 1.0, 0.0, 0);
        for k in 1..=7 {
            fams.push((format!("{t}{k}-row-lines"), all_words(&row, k, &[0.0], closed)));
        }
        for k in 2..=7 {
            fams.push((format!("{t}{k}-block-lines"), all_words(&block, k, &[0.0], closed)));
        }
        for k in 2..=5 {
            fams.push((format!("{t}{k}-block-mixed"), all_words(&block, k, &[0.0, 1.0, -Q8], closed)));
        }
        fams.push((format!("{t}3-circle8"), circle_words(8, 3, closed, &(0..8).collect::<Vec<_>>())));
        fams.push((format!("{t}4-circle8"), circle_words(8, 4, closed, &(0..8).collect::<Vec<_>>())));
        fams.push((format!("{t}4-circle6"), circle_words(6, 4, closed, &(0..6).collect::<Vec<_>>())));
        fams.push((format!("{t}5-circle6"), circle_words(6, 5, closed, &(0..6).collect::<Vec<_>>())));
        fams.push((format!("{t}5-circle8"), circle_words(8, 5, closed, &[0, 3])));
        fams.push((format!("{t}6-circle6"), circle_words(6, 6, closed, &[0, 2])));
        if cx.thorough {
            fams.push((format!("{t}8-row-lines"), all_words(&row, 8, &[0.0], closed)));
            fams.push((format!("{t}6-square-mixed"), all_words(&lattice(2, 2, 1.0, 0.0, 0), 6, &[0.0, 1.0, -Q8], closed)));
            fams.push((format!("{t}6-circle8"), circle_words(8, 6, closed, &[0])));
        }
    }
    for (name, paths) in fams {
        cx.space(&name, paths.len(), |i, r| removal(&paths[i], 1e-5, true, r));
    }
    // the same at sizes that are small, though hundreds of times the position epsilon
    for (name, f) in [("small-0.003", 3e-3), ("small-0.001", 1e-3)] {
        let mut all = vec![];
        for closed in [true, false] {
            let block = lattice(3, 2, f, 0.0, 0);
            for k in 2..=5 {
                all.extend(all_words(&block, k, &[0.0], closed));
            }
            for k in 2..=4 {
                all.extend(all_words(&block, k, &[0.0, 1.0, -Q8], closed));
            }
        }
        cx.space(name, all.len(), |i, r| removal(&all[i], 1e-5, true, r));
    }
    // everything within a few position epsilons: the calls return
    let mut all = vec![];
    for f in [3e-6, 8e-6, 1.5e-5, 4e-5] {
        for closed in [true, false] {
            for k in 2..=4 {
                all.extend(all_words(&lattice(3, 2, f, 0.0, 0), k, &[0.0, 1.0, -Q8], closed));
            }
            all.extend(all_words(&lattice(3, 2, f, 0.0, 0), 5, &[0.0], closed));
        }
    }
    cx.space("collapsed", all.len(), |i, r| {
        r.case(|| show(&all[i]));
        let a = pl(&all[i]);
        for got in [a.remove_redundant(1e-5), a.remove_repeat_pos(1e-5)].into_iter().flatten() {
            r.call();
            r.check(got.vertex_count() >= 1 && got.vertex_count() <= a.vertex_count() && got.is_closed() == a.is_closed(), "collapsed polyline", || format!("{got:?}"));
        }
    });
    // densely sampled curves: no vertex lies on the line of its neighbours, single deviations are small
    let dense = dense_curves(cx.thorough);
    cx.space("dense-curves", dense.len(), |i, r| removal(&dense[i], 4e-5, false, r));
    cx.finish("all vertex words (immediate repeats, backtracking and collinear runs included) over a row, a block and the points of a circle joined by every line or arc; repeat removal compared with a fold model, redundant removal with arc-length tracing and a local redundancy test")
}

/// all words over pts, repeats of every kind allowed
fn all_words(pts: &[P], k: usize, bulges: &[f64], closed: bool) -> Vec<Path> {
    let mut out = vec![];
    words(pts.len(), k, |ix| {
        let m = if closed { k } else { k - 1 };
        words(bulges.len(), m, |w| {
            out.push(Path::new((0..k).map(|i| vx(pts[ix[i]].x, pts[ix[i]].y, if i < m { bulges[w[i]] } else { 0.0 })).collect(), closed));
        });
    });
    out
}

pub fn p17(cx: &Ctx) -> i32 {
    let fams = families(cx, true);
    for (name, paths) in &fams {
        cx.space(name, paths.len(), |i, r| {
            let path = &paths[i];
            r.case(|| show(path));
            let a = pl(path);
            let n = path.v.len();
            // exact maps
            let mut b = a.clone();
            b.invert_direction_mut();
            r.call();
            let want = if path.closed { path.rev() } else { open_rev(path) };
            let inv = path_of(&b);
            if !r.check(inv.closed == path.closed && same_path_loose(&want, &inv), "invert_direction_mut", || format!("{} expected {}", show(&inv), show(&want))) {
                return;
            }
            b.invert_direction_mut();
            let twice = path_of(&b);
            if !r.check(same_vertices_open(path, &twice, 1e-12), "invert_direction_mut twice", || show(&twice)) {
                return;
            }
            // rotate_start
            let segs = path.segs();
            if !path.closed || n < 2 {
                r.call();
                let q = path.v.first().map(|v| v.p()).unwrap_or(p(0.0, 0.0));
                r.check(a.rotate_start(0, v2(q), 1e-5).is_none(), "rotate_start of an open or too short polyline", || "Some".into());
                return;
            }
            for k in [n, n + 1, n + 5] {
                r.call();
                r.check(a.rotate_start(k, v2(path.v[0].p()), 1e-5).is_none(), "rotate_start with index out of range", || format!("index {k}"));
            }
            let rail = Rail::new(path);
            for k in 0..n {
                if segs[k].len() < 1e-9 {
                    continue;
                }
                for t in [0.0, 1e-7, 0.2, 0.5, 0.87, 1.0 - 1e-7, 1.0] {
                    let q = segs[k].at(t);
                    r.call();
                    let Some(g) = a.rotate_start(k, v2(q), 1e-5) else {
                        r.fail("rotate_start is None", format!("segment {k} point {q:?}"));
                        return;
                    };
                    let g = path_of(&g);
                    if !r.check(g.v[0].p().dist(q) < 1e-5 && g.closed, "rotate_start does not start at the point", || format!("segment {k} point {q:?}: {}", show(&g))) {
                        return;
                    }
                    let near = t < 1e-5 || t > 1.0 - 1e-5;
                    if !r.check(g.v.len() == if near { n } else { n + 1 }, "rotate_start vertex count", || format!("segment {k} t {t}: {}", show(&g))) {
                        return;
                    }
                    let e = traces(&rail, rail.cum[k] + t * segs[k].len(), &Rail::new(&g), 1e-5);
                    if !r.check(e.is_ok(), "rotate_start changes the path", || format!("segment {k} t {t}: {} {e:?}", show(&g))) {
                        return;
                    }
                }
            }
            r.class("start rotated to every segment");
        });
    }
    // every sequence of transforms up to a depth, against the composed plain maps
    let seeds: Vec<Path> = {
        let pts = lattice(3, 2, 1.0, 0.13, 3);
        let mut v = vec![];
        for closed in [true, false] {
            v.push(Path::new(vec![], closed));
            v.push(Path::new(vec![vx(1.0, 2.0, 0.5)], closed));
            let mut f = any_paths(&pts, 2, &[0.0, 1.0, -Q8], closed);
            v.append(&mut f);
            let mut f = any_paths(&pts[..4], 3, &[0.0, 1.0, -Q8], closed);
            v.append(&mut f);
            let mut f = walks(&lattice(2, 2, 1.0, 0.0, 0), 3, &[0.0, -0.7], closed, true);
            v.append(&mut f);
        }
        v
    };
    let depth = if cx.deep { 8 } else { 6 };
    let nops = 7usize;
    let nw = nops.pow(depth as u32);
    cx.space("transform-sequences", seeds.len(), |i, r| {
        let path = &seeds[i];
        r.case(|| format!("{} then every sequence of {depth} transforms", show(path)));
        for w in 0..nw {
            let mut a = pl(path);
            let mut m = path.clone();
            let mut c = w;
            let mut done = String::new();
            for _ in 0..depth {
                let op = c % nops;
                c /= nops;
                r.call();
                match op {
                    0 => {
                        a.invert_direction_mut();
                        m = if m.closed { m.rev() } else { open_rev(&m) };
                        done += "invert ";
                    }
                    1 => {
                        a.scale_mut(2.0);
                        m = m.map(|q| q * 2.0, false);
                        done += "scale2 ";
                    }
                    2 => {
                        a.scale_mut(-0.5);
                        m = m.map(|q| q * -0.5, false);
                        done += "scale-1/2 ";
                    }
                    3 => {
                        a.translate_mut(3.0, -1.0);
                        m = m.map(|q| q + p(3.0, -1.0), false);
                        done += "translate(3,-1) ";
                    }
                    4 => {
                        a.translate_mut(0.0, 0.75);
                        m = m.map(|q| q + p(0.0, 0.75), false);
                        done += "translate(0,.75) ";
                    }
                    5 => {
                        // start at the middle of the last segment
                        let n = m.v.len();
                        let segs = m.segs();
                        let k = n.saturating_sub(1);
                        let usable = m.closed && n >= 2;
                        if usable && segs[k].len() < 1e-3 {
                            continue;
                        }
                        let q = if usable { segs[k].at(0.5) } else { p(0.0, 0.0) };
                        let g = a.rotate_start(k, v2(q), 1e-7);
                        if g.is_some() != usable {
                            r.fail("rotate_start in a sequence", format!("{done}: {}", g.is_some()));
                            return;
                        }
                        if let Some(g) = g {
                            a = g;
                            let h = segs[k].sub(0.5, 1.0);
                            let f = segs[k].sub(0.0, 0.5);
                            let mut v = vec![vx(q.x, q.y, h.bulge)];
                            v.extend_from_slice(&m.v[..k]);
                            v.push(vx(m.v[k].x, m.v[k].y, f.bulge));
                            m = Path::new(v, true);
                        }
                        done += "rotate ";
                    }
                    _ => {
                        let f = !m.closed;
                        a.set_is_closed(f);
                        m.closed = f;
                        done += "toggle-closed ";
                    }
                }
            }
            let g = path_of(&a);
            if !r.check(same_vertices_open(&m, &g, 1e-6), "sequence of transforms", || format!("{done}: {} expected {}", show(&g), show(&m))) {
                return;
            }
        }
        r.class("sequences");
    });
    cx.finish("all vertex sequences over lattices x {inversion, rotation of the start to 7 parameters of every segment}; and all transform sequences of a fixed depth over 7 operations from all seeds, compared with composed plain maps")
}

/// reversal of an open path; the unused bulge of the last vertex follows the documented shift
fn open_rev(a: &Path) -> Path {
    let n = a.v.len();
    if n < 2 {
        return a.clone();
    }
    let mut v: Vec<Vx> = a.v.iter().rev().cloned().collect();
    let first = v[0].b;
    for i in 1..n {
        v[i - 1].b = -v[i].b;
    }
    let _ = first; // the last vertex of an open polyline keeps an unused bulge
    Path::new(v, a.closed)
}
/// equal vertices, the unused last bulge of an open path aside
fn same_vertices_open(a: &Path, b: &Path, tol: f64) -> bool {
    let n = a.v.len();
    a.closed == b.closed
        && n == b.v.len()
        && (0..n).all(|i| {
            a.v[i].p().dist(b.v[i].p()) < tol
                && ((!a.closed && i + 1 == n) || n < 2 || (a.v[i].b - b.v[i].b).abs() < tol)
        })
}
fn same_path_loose(a: &Path, b: &Path) -> bool {
    if a.v.len() < 2 {
        return a.v.len() == b.v.len();
    }
    if !a.closed {
        return same_vertices_open(a, b, 1e-12);
    }
    // a closed polyline may start anywhere after inversion, the documented form is one of them
    (0..a.v.len()).any(|k| same_vertices(&a.start(k), b, 1e-12))
}

pub fn p18(cx: &Ctx) -> i32 {
    let mut fams = families(cx, true);
    fams.push(("circle8".into(), circle_words(8, 3, true, &[0, 1, 2, 3])));
    for (name, paths) in &fams {
        cx.space(name, paths.len(), |i, r| {
            let path = &paths[i];
            r.case(|| show(path));
            let a = pl(path);
            let segs = path.segs();
            let rail = Rail::new(path);
            let arcs = segs.iter().any(|s| s.is_arc());
            for e in [5.0, 0.6, 0.1, 0.013, 1e-3, -0.1, -5.0] {
                r.call();
                let err: f64 = e;
                let Some(g) = a.arcs_to_approx_lines(err) else {
                    r.fail("arcs_to_approx_lines is None", format!("error {e}"));
                    return;
                };
                let g = path_of(&g);
                if !r.check(g.closed == path.closed, "approximation closedness", || format!("error {e}")) {
                    return;
                }
                if path.v.is_empty() {
                    r.check(g.v.is_empty(), "approximation of an empty polyline", || show(&g));
                    continue;
                }
                let m = g.segs().len();
                if !r.check(g.v.iter().take(m).all(|v| v.b == 0.0), "approximation has arcs", || format!("error {e}: {}", show(&g))) {
                    return;
                }
                if !arcs && path.v.len() >= 2 {
                    let mut lines = path.clone();
                    if !lines.closed {
                        lines.v.last_mut().unwrap().b = g.v.last().map(|v| v.b).unwrap_or(0.0);
                    }
                    // zero length arcs become zero length lines
                    for k in 0..segs.len() {
                        if segs[k].a.dist(segs[k].b) < 1e-9 {
                            lines.v[k].b = 0.0;
                        }
                    }
                    r.check(same_vertices(&lines, &g, 1e-12), "approximation of lines changes them", || format!("error {e}: {}", show(&g)));
                    continue;
                }
                if path.v.len() < 2 {
                    r.check(g.v.iter().all(|v| v.p().dist(path.v[0].p()) < 1e-9), "approximation of a single vertex", || show(&g));
                    continue;
                }
                // walk both: every vertex of the result lies on the path in order, every input vertex is visited
                let mut pos = 0usize; // segment the walk is in
                let mut t = 0.0;
                let gs = g.segs();
                if !r.check(g.v[0].p().dist(path.v[0].p()) < 1e-9, "approximation start", || format!("error {e}: {}", show(&g))) {
                    return;
                }
                let mut ok = true;
                let mut why = String::new();
                for s in &gs {
                    if pos >= segs.len() {
                        ok = false;
                        why = "more segments than the path".into();
                        break;
                    }
                    // end of s: on segment pos after t, or its end
                    let k = &segs[pos];
                    let end = s.b;
                    if k.len() < 1e-9 {
                        if end.dist(k.b) > 1e-9 {
                            ok = false;
                            why = format!("zero length segment {pos} skipped");
                            break;
                        }
                        pos += 1;
                        t = 0.0;
                        continue;
                    }
                    let u = if end.dist(k.b) < 1e-9 { 1.0 } else { k.closest(end).0 };
                    if k.dist(end) > 1e-8 || u <= t {
                        ok = false;
                        why = format!("vertex {end:?} not further along segment {pos}");
                        break;
                    }
                    if let Some(arc) = k.arc {
                        let sag = arc.r * (1.0 - (arc.sw.abs() * (u - t) / 2.0).cos());
                        if sag > err.abs() * (1.0 + 1e-6) + 1e-9 {
                            ok = false;
                            why = format!("line to {end:?} is {sag} from its arc");
                            break;
                        }
                    } else if u != 1.0 {
                        ok = false;
                        why = format!("line segment {pos} was divided");
                        break;
                    }
                    t = u;
                    if u == 1.0 {
                        pos += 1;
                        t = 0.0;
                    }
                }
                if ok && pos != segs.len() {
                    ok = false;
                    why = format!("ends at segment {pos}");
                }
                if !r.check(ok, "approximation", || format!("error {e}: {} : {why}", show(&g))) {
                    return;
                }
                r.class("approximated");
            }
            let _ = &rail;
        });
    }
    cx.finish("all vertex sequences over lattices x all bulge words x error distances from above the radius to 1e-3 and negative ones; the lines are walked along the exact arcs (order, on the arc, sagitta within the error)")
}
