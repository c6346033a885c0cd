//! Independent reference geometry (no code shared with the library under test).
use std::f64::consts::PI;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub x: f64,
    pub y: f64,
}
pub fn p(x: f64, y: f64) -> P {
    P { x, y }
}
impl Add for P {
    type Output = P;
    fn add(self, o: P) -> P {
        p(self.x + o.x, self.y + o.y)
    }
}
impl Sub for P {
    type Output = P;
    fn sub(self, o: P) -> P {
        p(self.x - o.x, self.y - o.y)
    }
}
impl Mul<f64> for P {
    type Output = P;
    fn mul(self, k: f64) -> P {
        p(self.x * k, self.y * k)
    }
}
impl Neg for P {
    type Output = P;
    fn neg(self) -> P {
        p(-self.x, -self.y)
    }
}
impl P {
    pub fn dot(self, o: P) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: P) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn len(self) -> f64 {
        self.x.hypot(self.y)
    }
    pub fn dist(self, o: P) -> f64 {
        (self - o).len()
    }
    pub fn left(self) -> P {
        p(-self.y, self.x)
    }
    pub fn unit(self) -> P {
        self * (1.0 / self.len())
    }
    pub fn ang(self) -> f64 {
        self.y.atan2(self.x)
    }
}

/// Vertex of a reference path: position and bulge = tan(sweep / 4).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Vx {
    pub x: f64,
    pub y: f64,
    pub b: f64,
}
impl Vx {
    pub fn p(&self) -> P {
        p(self.x, self.y)
    }
}
pub fn vx(x: f64, y: f64, b: f64) -> Vx {
    Vx { x, y, b }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Path {
    pub v: Vec<Vx>,
    pub closed: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct ArcD {
    pub c: P,
    pub r: f64,
    pub t0: f64,
    /// signed sweep
    pub sw: f64,
}

#[derive(Clone, Copy, Debug)]
pub struct Seg {
    pub a: P,
    pub b: P,
    pub bulge: f64,
    pub arc: Option<ArcD>,
}

pub const LINE_BULGE: f64 = 1e-8;

impl Seg {
    pub fn new(a: P, b: P, bulge: f64) -> Seg {
        let arc = if bulge.abs() < LINE_BULGE || a.dist(b) < 1e-12 {
            None
        } else {
            let ch = b - a;
            let l = ch.len();
            // signed distance of the center to the left of the chord
            let h = l * (1.0 - bulge * bulge) / (4.0 * bulge);
            let m = (a + b) * 0.5;
            let c = m + ch.left() * (h / l);
            let r = l * (1.0 + bulge * bulge) / (4.0 * bulge.abs());
            Some(ArcD { c, r, t0: (a - c).ang(), sw: 4.0 * bulge.atan() })
        };
        Seg { a, b, bulge, arc }
    }
    pub fn is_arc(&self) -> bool {
        self.arc.is_some()
    }
    pub fn at(&self, t: f64) -> P {
        match self.arc {
            None => self.a + (self.b - self.a) * t,
            Some(k) => {
                if t == 0.0 {
                    return self.a;
                }
                if t == 1.0 {
                    return self.b;
                }
                let g = k.t0 + k.sw * t;
                k.c + p(g.cos(), g.sin()) * k.r
            }
        }
    }
    pub fn tan(&self, t: f64) -> P {
        match self.arc {
            None => (self.b - self.a).unit(),
            Some(k) => {
                let g = k.t0 + k.sw * t;
                p(-g.sin(), g.cos()) * k.sw.signum()
            }
        }
    }
    pub fn len(&self) -> f64 {
        match self.arc {
            None => self.a.dist(self.b),
            Some(k) => k.r * k.sw.abs(),
        }
    }
    /// parameter and distance of the nearest point
    pub fn closest(&self, q: P) -> (f64, f64) {
        match self.arc {
            None => {
                let d = self.b - self.a;
                let l2 = d.dot(d);
                let t = if l2 == 0.0 { 0.0 } else { ((q - self.a).dot(d) / l2).clamp(0.0, 1.0) };
                (t, self.at(t).dist(q))
            }
            Some(k) => {
                let w = q - k.c;
                let rel = arc_rel(&k, w.ang());
                let (da, db) = (self.a.dist(q), self.b.dist(q));
                let mut best = if da <= db { (0.0, da) } else { (1.0, db) };
                if rel <= k.sw.abs() {
                    let d = (w.len() - k.r).abs();
                    if d < best.1 {
                        best = (rel / k.sw.abs(), d);
                    }
                }
                best
            }
        }
    }
    pub fn dist(&self, q: P) -> f64 {
        self.closest(q).1
    }
    pub fn rev(&self) -> Seg {
        Seg::new(self.b, self.a, -self.bulge)
    }
    /// sub segment between parameters t0 < t1
    pub fn sub(&self, t0: f64, t1: f64) -> Seg {
        let b = if self.is_arc() { (self.bulge.atan() * (t1 - t0)).tan() } else { 0.0 };
        Seg::new(self.at(t0), self.at(t1), b)
    }
    /// tight bounds (minx, miny, maxx, maxy)
    pub fn bounds(&self) -> (f64, f64, f64, f64) {
        let mut bb = (
            self.a.x.min(self.b.x),
            self.a.y.min(self.b.y),
            self.a.x.max(self.b.x),
            self.a.y.max(self.b.y),
        );
        if let Some(k) = self.arc {
            for i in 0..4 {
                let g = i as f64 * PI / 2.0;
                let rel = arc_rel(&k, g);
                if rel <= k.sw.abs() {
                    let q = match i {
                        0 => p(k.c.x + k.r, k.c.y),
                        1 => p(k.c.x, k.c.y + k.r),
                        2 => p(k.c.x - k.r, k.c.y),
                        _ => p(k.c.x, k.c.y - k.r),
                    };
                    bb = (bb.0.min(q.x), bb.1.min(q.y), bb.2.max(q.x), bb.3.max(q.y));
                }
            }
        }
        bb
    }
    /// signed area between the segment and the origin
    pub fn area(&self) -> f64 {
        let tri = self.a.cross(self.b) / 2.0;
        match self.arc {
            None => tri,
            // signed circular segment between chord and arc
            Some(k) => tri + k.r * k.r * (k.sw - k.sw.sin()) / 2.0,
        }
    }
    /// offset curve at signed distance d to the left, None when it degenerates
    pub fn offset(&self, d: f64) -> Option<Seg> {
        if self.a.dist(self.b) < 1e-12 {
            return None;
        }
        match self.arc {
            None => {
                let n = (self.b - self.a).unit().left() * d;
                Some(Seg::new(self.a + n, self.b + n, 0.0))
            }
            Some(k) => {
                let r2 = if self.bulge > 0.0 { k.r - d } else { k.r + d };
                if r2 <= 1e-9 {
                    return None;
                }
                let f = r2 / k.r;
                Some(Seg::new(k.c + (self.a - k.c) * f, k.c + (self.b - k.c) * f, self.bulge))
            }
        }
    }
}

pub fn norm2pi(a: f64) -> f64 {
    let mut r = a % (2.0 * PI);
    if r < 0.0 {
        r += 2.0 * PI;
    }
    if r >= 2.0 * PI {
        r -= 2.0 * PI;
    }
    r
}

/// angle from the arc start to g measured in the sweep direction, in [0, 2pi)
pub fn arc_rel(k: &ArcD, g: f64) -> f64 {
    if k.sw > 0.0 {
        norm2pi(g - k.t0)
    } else {
        norm2pi(k.t0 - g)
    }
}

/// Half circles of the full circle c, r.
pub fn circle(c: P, r: f64) -> [Seg; 2] {
    let (a, b) = (c - p(r, 0.0), c + p(r, 0.0));
    [Seg::new(a, b, 1.0), Seg::new(b, a, 1.0)]
}

/// Candidate points where s1 and s2 may meet (supporting curves; unfiltered).
fn candidates(s1: &Seg, s2: &Seg, out: &mut Vec<P>) {
    match (s1.arc, s2.arc) {
        (None, None) => {
            let d1 = s1.b - s1.a;
            let d2 = s2.b - s2.a;
            let den = d1.cross(d2);
            if den.abs() > 1e-14 * d1.len() * d2.len() && den != 0.0 {
                let t = (s2.a - s1.a).cross(d2) / den;
                if t > -0.5 && t < 1.5 {
                    out.push(s1.a + d1 * t);
                }
            }
        }
        (None, Some(k)) => line_circle(s1, &k, out),
        (Some(k), None) => line_circle(s2, &k, out),
        (Some(k1), Some(k2)) => {
            let d = k2.c - k1.c;
            let l = d.len();
            if l < 1e-12 {
                return;
            }
            let a = (l * l + k1.r * k1.r - k2.r * k2.r) / (2.0 * l);
            let u = d * (1.0 / l);
            let h2 = k1.r * k1.r - a * a;
            let tol = 1e-6 * k1.r.max(k2.r).max(1.0);
            if h2 < -tol * k1.r.max(1.0) * 2.0 {
                return;
            }
            if h2 < tol * k1.r.max(1.0) {
                out.push(k1.c + u * (k1.r * a.signum()));
                out.push(k2.c - u * (k2.r * (l - a).signum()));
            }
            if h2 > 0.0 {
                let h = h2.sqrt();
                out.push(k1.c + u * a + u.left() * h);
                out.push(k1.c + u * a - u.left() * h);
            }
        }
    }
}

fn line_circle(s: &Seg, k: &ArcD, out: &mut Vec<P>) {
    let d = s.b - s.a;
    let l = d.len();
    if l < 1e-12 {
        return;
    }
    let u = d * (1.0 / l);
    let foot = s.a + u * (k.c - s.a).dot(u);
    let h = foot.dist(k.c);
    let w2 = k.r * k.r - h * h;
    if h > k.r + 1e-6 {
        return;
    }
    if (h - k.r).abs() < 1e-6 {
        out.push(foot);
    }
    if w2 > 0.0 {
        let w = w2.sqrt();
        out.push(foot + u * w);
        out.push(foot - u * w);
    }
}

/// Do the two segments have the same supporting line or circle (within tol)?
pub fn same_support(s1: &Seg, s2: &Seg, tol: f64) -> bool {
    match (s1.arc, s2.arc) {
        (None, None) => {
            let (long, short) = if s1.len() >= s2.len() { (s1, s2) } else { (s2, s1) };
            let u = long.b - long.a;
            if u.len() < 1e-12 {
                return true;
            }
            let u = u.unit();
            (short.a - long.a).cross(u).abs() < tol && (short.b - long.a).cross(u).abs() < tol
        }
        (Some(k1), Some(k2)) => k1.c.dist(k2.c) < tol && (k1.r - k2.r).abs() < tol,
        _ => false,
    }
}

/// All points of s1 where it may meet s2 (within tol of both), as points; includes overlap ends.
pub fn meet_points(s1: &Seg, s2: &Seg, tol: f64) -> Vec<P> {
    let mut c = Vec::new();
    if !same_support(s1, s2, 1e-9) {
        candidates(s1, s2, &mut c);
    }
    c.extend([s1.a, s1.b, s2.a, s2.b]);
    let mut out: Vec<P> = Vec::new();
    for q in c {
        if s1.dist(q) < tol && s2.dist(q) < tol && !out.iter().any(|o| o.dist(q) < tol * 4.0) {
            out.push(q);
        }
    }
    out
}

/// Parameters on s1 at which to cut it so that it has no interior crossing with s2.
pub fn cuts(s1: &Seg, s2: &Seg, out: &mut Vec<f64>) {
    let mut c = Vec::new();
    candidates(s1, s2, &mut c);
    c.push(s2.a);
    c.push(s2.b);
    for q in c {
        let (t, d) = s1.closest(q);
        if d < 1e-5 && s2.dist(q) < 1e-5 {
            out.push(t);
        }
    }
}

/// Overlap stretches of s1 and s2 when they have the same support: (start, end) points, len > tol
pub fn overlaps(s1: &Seg, s2: &Seg, tol: f64) -> Vec<(P, P)> {
    if !same_support(s1, s2, 1e-6) {
        return vec![];
    }
    let mut ts = vec![0.0, 1.0];
    for q in [s2.a, s2.b] {
        let (t, d) = s1.closest(q);
        if d < 1e-6 {
            ts.push(t);
        }
    }
    ts.sort_by(|a, b| a.total_cmp(b));
    let mut out = vec![];
    for w in ts.windows(2) {
        if (w[1] - w[0]) * s1.len() > tol && s2.dist(s1.at((w[0] + w[1]) / 2.0)) < 1e-6 {
            out.push((s1.at(w[0]), s1.at(w[1])));
        }
    }
    out
}

impl Path {
    pub fn new(v: Vec<Vx>, closed: bool) -> Path {
        Path { v, closed }
    }
    pub fn segs(&self) -> Vec<Seg> {
        let n = self.v.len();
        if n < 2 {
            return vec![];
        }
        let m = if self.closed { n } else { n - 1 };
        (0..m)
            .map(|i| {
                let a = self.v[i];
                let b = self.v[(i + 1) % n];
                Seg::new(a.p(), b.p(), a.b)
            })
            .collect()
    }
    pub fn rev(&self) -> Path {
        let n = self.v.len();
        if n == 0 {
            return self.clone();
        }
        let mut v: Vec<Vx> = Vec::with_capacity(n);
        for j in 0..n {
            let i = n - 1 - j;
            // bulge of the segment that ends at i in the original direction
            let b = if i == 0 { self.v[n - 1].b } else { self.v[i - 1].b };
            v.push(vx(self.v[i].x, self.v[i].y, -b));
        }
        Path::new(v, self.closed)
    }
    pub fn map(&self, f: impl Fn(P) -> P, flip: bool) -> Path {
        Path::new(
            self.v
                .iter()
                .map(|v| {
                    let q = f(v.p());
                    vx(q.x, q.y, if flip { -v.b } else { v.b })
                })
                .collect(),
            self.closed,
        )
    }
    pub fn translate(&self, d: P) -> Path {
        self.map(|q| q + d, false)
    }
    pub fn scale(&self, k: f64) -> Path {
        self.map(|q| q * k, false)
    }
    /// rotate the start vertex of a closed path
    pub fn start(&self, k: usize) -> Path {
        let mut v = self.v.clone();
        v.rotate_left(k);
        Path::new(v, self.closed)
    }
    pub fn area(&self) -> f64 {
        if !self.closed {
            return 0.0;
        }
        self.segs().iter().map(|s| s.area()).sum()
    }
    pub fn len(&self) -> f64 {
        self.segs().iter().map(|s| s.len()).sum()
    }
}

pub fn dist_segs(segs: &[Seg], q: P) -> f64 {
    let mut d = f64::INFINITY;
    for s in segs {
        let e = s.dist(q);
        if e < d {
            d = e;
        }
    }
    d
}

/// Winding number of the closed path made of segs around q (q off the path).
pub fn winding(segs: &[Seg], q: P) -> i32 {
    let mut w = 0;
    for s in segs {
        let (a, b) = (s.a, s.b);
        let cr = (b - a).cross(q - a);
        if a.y <= q.y {
            if b.y > q.y && cr > 0.0 {
                w += 1;
            }
        } else if b.y <= q.y && cr < 0.0 {
            w -= 1;
        }
        if let Some(k) = s.arc {
            // sliver between chord and arc; a point on the chord is taken where the crossing rule
            // above puts it: infinitesimally to +x (then +y)
            let left = if cr != 0.0 {
                cr > 0.0
            } else if b.y != a.y {
                b.y < a.y
            } else {
                b.x > a.x
            };
            let on_arc_side = if s.bulge > 0.0 { !left } else { left };
            if on_arc_side && q.dist(k.c) < k.r {
                w += if s.bulge > 0.0 { 1 } else { -1 };
            }
        }
    }
    w
}

/// Cut every segment of `list` at its meetings with every segment of `all`; yields (index, sub seg)
pub fn sub_edges(list: &[Seg], all: &[Seg], min_len: f64, mut f: impl FnMut(usize, &Seg, f64, f64)) {
    let mut ts: Vec<f64> = Vec::new();
    for (i, s) in list.iter().enumerate() {
        ts.clear();
        ts.push(0.0);
        ts.push(1.0);
        for o in all {
            cuts(s, o, &mut ts);
        }
        ts.sort_by(|a, b| a.total_cmp(b));
        let l = s.len();
        for w in ts.windows(2) {
            if (w[1] - w[0]) * l > min_len {
                f(i, s, w[0], w[1]);
            }
        }
    }
}

/// Is the closed path simple, with clearance `clr` between non adjacent parts and no cusps?
pub fn is_simple(path: &Path, clr: f64) -> bool {
    let segs = path.segs();
    let n = segs.len();
    if n < 2 {
        return false;
    }
    for s in &segs {
        if s.len() < 1e-9 {
            return false;
        }
    }
    for i in 0..n {
        for j in (i + 1)..n {
            let (s1, s2) = (&segs[i], &segs[j]);
            let adj12 = j == i + 1;
            let adj21 = path.closed && i == 0 && j == n - 1;
            if !adj12 && !adj21 {
                if seg_seg_dist(s1, s2) < clr {
                    return false;
                }
                continue;
            }
            // adjacent: common points only at the shared vertices
            let mut shared = vec![];
            if adj12 {
                shared.push(s1.b);
                if cusp(s1, s2) {
                    return false;
                }
            }
            if adj21 {
                shared.push(s1.a);
                if cusp(s2, s1) {
                    return false;
                }
            }
            for q in meet_points(s1, s2, 1e-6) {
                if !shared.iter().any(|v| v.dist(q) < 1e-4) {
                    return false;
                }
            }
            // the free ends must also keep clearance
            if !(adj12 && adj21) {
                let (e1, e2) = if adj12 { (s1.a, s2.b) } else { (s1.b, s2.a) };
                if s2.dist(e1) < clr || s1.dist(e2) < clr {
                    return false;
                }
            }
        }
    }
    true
}

/// outgoing direction equals the reversed incoming direction
fn cusp(s1: &Seg, s2: &Seg) -> bool {
    let a = -s1.tan(1.0);
    let b = s2.tan(0.0);
    a.dot(b) > 0.0 && a.cross(b).abs() < 0.05
}

pub fn seg_seg_dist(s1: &Seg, s2: &Seg) -> f64 {
    if !meet_points(s1, s2, 1e-7).is_empty() {
        return 0.0;
    }
    let mut d = s1.dist(s2.a).min(s1.dist(s2.b)).min(s2.dist(s1.a)).min(s2.dist(s1.b));
    // interior-interior minima: perpendicular feet between line and circle, circle and circle
    let mut cand: Vec<P> = vec![];
    for (u, w) in [(s1, s2), (s2, s1)] {
        if let Some(k) = u.arc {
            match w.arc {
                None => {
                    let dd = w.b - w.a;
                    if dd.len() > 1e-12 {
                        let n = dd.unit().left();
                        cand.push(k.c + n * k.r);
                        cand.push(k.c - n * k.r);
                    }
                }
                Some(k2) => {
                    let dd = k2.c - k.c;
                    if dd.len() > 1e-12 {
                        let n = dd.unit();
                        cand.push(k.c + n * k.r);
                        cand.push(k.c - n * k.r);
                    } else {
                        // concentric: distance is constant where the sweeps overlap
                        for i in 0..=8 {
                            cand.push(u.at(i as f64 / 8.0));
                        }
                    }
                }
            }
            for q in &cand {
                if u.dist(*q) < 1e-9 {
                    d = d.min(w.dist(*q));
                }
            }
            cand.clear();
        }
    }
    d
}
