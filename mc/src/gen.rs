//! Finite input alphabets and their complete enumeration.
use crate::geo::*;
use cavalier_contours::polyline::*;

pub fn pl(path: &Path) -> Polyline<f64> {
    let mut r = Polyline::new();
    r.is_closed = path.closed;
    for v in &path.v {
        r.vertex_data.push(PlineVertex::new(v.x, v.y, v.b));
    }
    r
}
pub fn path_of<S: PlineSource<Num = f64> + ?Sized>(s: &S) -> Path {
    let mut v = Vec::new();
    for i in 0..s.vertex_count() {
        let w = s.at(i);
        v.push(vx(w.x, w.y, w.bulge));
    }
    Path::new(v, s.is_closed())
}
pub fn show(p: &Path) -> String {
    let mut s = String::from(if p.closed { "closed[" } else { "open[" });
    for (i, v) in p.v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("({},{},{})", v.x, v.y, v.b));
    }
    s.push(']');
    s
}

/// deterministic offset of lattice point i, magnitude up to amp (removes all special position)
pub fn jitter(i: usize, salt: u64, amp: f64) -> P {
    let mut h = (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03);
    let mut nx = || {
        h ^= h >> 31;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 27;
        (h >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0
    };
    let x = nx();
    let y = nx();
    p(x * amp, y * amp)
}
pub fn lattice(w: usize, h: usize, step: f64, amp: f64, salt: u64) -> Vec<P> {
    let mut o = vec![];
    for j in 0..h {
        for i in 0..w {
            let q = p(i as f64 * step, j as f64 * step);
            o.push(if amp > 0.0 { q + jitter(j * w + i, salt, amp) } else { q });
        }
    }
    o
}

/// All sequences of `k` distinct lattice points (closed: smallest index first), calls f(indices).
pub fn tuples(n: usize, k: usize, canonical: bool, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, k: usize, canonical: bool, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == k {
            f(cur);
            return;
        }
        for i in 0..n {
            if cur.contains(&i) || (canonical && !cur.is_empty() && i < cur[0]) {
                continue;
            }
            cur.push(i);
            go(n, k, canonical, cur, f);
            cur.pop();
        }
    }
    go(n, k, canonical, &mut vec![], f)
}

/// All words of length k over 0..base
pub fn words(base: usize, k: usize, mut f: impl FnMut(&[usize])) {
    let mut w = vec![0; k];
    loop {
        f(&w);
        let mut i = 0;
        loop {
            if i == k {
                return;
            }
            w[i] += 1;
            if w[i] < base {
                break;
            }
            w[i] = 0;
            i += 1;
        }
    }
}

/// Every simple closed path with k vertices on the lattice and bulges from the alphabet.
pub fn closed_simple(pts: &[P], k: usize, bulges: &[f64], clr: f64) -> Vec<Path> {
    let mut out = vec![];
    tuples(pts.len(), k, true, &mut |ix| {
        words(bulges.len(), k, |w| {
            let v: Vec<Vx> = (0..k).map(|i| vx(pts[ix[i]].x, pts[ix[i]].y, bulges[w[i]])).collect();
            let path = Path::new(v, true);
            if is_simple(&path, clr) && path.area().abs() > 0.02 {
                out.push(path);
            }
        });
    });
    out
}

/// Every closed path with k vertices (not necessarily simple).
pub fn any_paths(pts: &[P], k: usize, bulges: &[f64], closed: bool) -> Vec<Path> {
    let mut out = vec![];
    tuples(pts.len(), k, closed, &mut |ix| {
        words(bulges.len(), if closed { k } else { k - 1 }, |w| {
            let v: Vec<Vx> = (0..k)
                .map(|i| vx(pts[ix[i]].x, pts[ix[i]].y, if i < w.len() { bulges[w[i]] } else { 0.0 }))
                .collect();
            out.push(Path::new(v, closed));
        });
    });
    out
}

/// Keep only one path of every class under the 8 symmetries of the lattice square and translation.
pub fn modulo_symmetry(paths: Vec<Path>) -> Vec<Path> {
    use std::collections::HashSet;
    let mut seen: HashSet<String> = HashSet::new();
    let mut out = vec![];
    for q in paths {
        let mut best: Option<String> = None;
        for s in 0..8 {
            let t = symmetry(&q, s);
            let (mx, my) = t.v.iter().fold((f64::MAX, f64::MAX), |m, v| (m.0.min(v.x), m.1.min(v.y)));
            // canonical start: try all starts
            for k in 0..t.v.len() {
                let u = t.start(k);
                let key: String = u
                    .v
                    .iter()
                    .map(|v| format!("{:.4},{:.4},{:.4};", v.x - mx + 0.0, v.y - my + 0.0, v.b + 0.0))
                    .collect();
                if best.as_ref().map(|b| key < *b).unwrap_or(true) {
                    best = Some(key);
                }
                if !t.closed {
                    break;
                }
            }
        }
        if seen.insert(best.unwrap()) {
            out.push(q);
        }
    }
    out
}

/// The s-th of the 8 symmetries of the square (exact in floating point).
pub fn symmetry(q: &Path, s: usize) -> Path {
    let flip = s >= 4;
    q.map(
        |v| {
            let v = if flip { p(v.y, v.x) } else { v };
            match s % 4 {
                0 => v,
                1 => p(-v.y, v.x),
                2 => p(-v.x, -v.y),
                _ => p(v.y, -v.x),
            }
        },
        flip,
    )
}

/// The paths turned about (1, 1) and moved a little: what is exact on a lattice (contact, tangency, parallel lines) is then
/// exact only up to rounding, differently for every `k`.
pub fn turned(paths: Vec<Path>, k: usize) -> Vec<Path> {
    let (sin, cos) = (0.7 + 1.1 * k as f64).sin_cos();
    paths.into_iter().map(|q| q.map(|v| p((v.x - 1.0) * cos - (v.y - 1.0) * sin + 1.03, (v.x - 1.0) * sin + (v.y - 1.0) * cos + 0.97), false)).collect()
}

/// Every vertex of the paths moved a little on its own: almost collinear, parallel or tangent segments.
pub fn nudged(paths: Vec<Path>, salt: u64, amp: f64) -> Vec<Path> {
    let one = |(i, v): (usize, &Vx)| {
        let j = jitter(i, salt + 3, amp);
        vx(v.x + j.x, v.y + j.y, v.b)
    };
    paths.iter().map(|q| Path::new(q.v.iter().enumerate().map(one).collect(), q.closed)).collect()
}

/// The paths scaled such that the offsets of three of their segments meet in one point at distance
/// `d0` (on either side), for every triple of segments where that point lies on the offset curve.
pub fn critical(paths: &[Path], d0: f64) -> Vec<Path> {
    let mut out = vec![];
    for q in paths {
        let segs = q.segs();
        let n = segs.len();
        // signed distance to the line or circle (positive on the left) and its gradient
        let sd = |s: &Seg, m: P| -> (f64, P) {
            match &s.arc {
                Some(k) => {
                    let g = (m - k.c) * (-k.sw.signum() / k.c.dist(m).max(1e-9));
                    ((k.r - k.c.dist(m)) * k.sw.signum(), g)
                }
                None => {
                    let l = (s.b - s.a).left().unit();
                    ((m - s.a).dot(l), l)
                }
            }
        };
        let mut found: Vec<f64> = vec![];
        for (i, j, k) in (0..n).flat_map(|i| (0..i).flat_map(move |j| (0..j).map(move |k| (i, j, k)))) {
            let t = [&segs[i], &segs[j], &segs[k]];
            let mid = (t[0].at(0.5) + t[1].at(0.5) + t[2].at(0.5)) * (1.0 / 3.0);
            for start in [mid, mid + p(0.31, 0.17), mid - p(0.23, 0.29)] {
                let (mut m, mut d) = (start, 0.1);
                for _ in 0..25 {
                    let f = t.map(|s| sd(s, m));
                    let (g0, g1, g2) = (f[0].1, f[1].1 - f[0].1, f[2].1 - f[0].1);
                    let (e1, e2) = (f[1].0 - f[0].0, f[2].0 - f[0].0);
                    let det = g1.cross(g2);
                    if det.abs() < 1e-9 {
                        break;
                    }
                    let step = p((-e1 * g2.y + e2 * g1.y) / det, (-e2 * g1.x + e1 * g2.x) / det);
                    m = m + step;
                    d = f[0].0 + g0.dot(step);
                }
                let ok = t.iter().all(|s| (sd(s, m).0 - d).abs() < 1e-10) && d.abs() > 0.08 && d.abs() < 1.5;
                if ok && dist_segs(&segs, m) > d.abs() - 1e-6 && !found.iter().any(|x| (x - d.abs()).abs() < 1e-9) {
                    found.push(d.abs());
                    out.push(q.scale(d0 / d.abs()));
                }
            }
        }
    }
    out
}

/// One side of a ring from `a` to `b` (the outside is to the right), as the vertices before `b`.
/// Lengths of the details are absolute, so that several fit the same offset distances.
fn side(a: P, b: P, letter: char, out: &mut Vec<Vx>) {
    let l = a.dist(b);
    let (u, n) = ((b - a) * (1.0 / l), (b - a).left() * (-1.0 / l));
    let at = |t: f64, h: f64, bulge: f64| {
        let q = a + u * (l * t) + n * h;
        vx(q.x, q.y, bulge)
    };
    // a foot of half width w around the middle, raised by h
    let spike = |w: f64, h: f64| vec![at(0.0, 0.0, 0.0), at(0.47 - w / l, 0.0, 0.0), at(0.49, h, 0.0), at(0.47 + w / l, 0.0, 0.0)];
    let block = |w: f64, h: f64, cap: f64| {
        vec![
            at(0.0, 0.0, 0.0),
            at(0.52 - w / l, 0.0, 0.0),
            at(0.52 - w / l, h, cap),
            at(0.52 + w / l, h, 0.0),
            at(0.52 + w / l, 0.0, 0.0),
        ]
    };
    out.extend(match letter {
        'F' => vec![at(0.0, 0.0, 0.0)],
        'A' => vec![at(0.0, 0.0, 0.42)],
        'D' => vec![at(0.0, 0.0, -0.31)],
        'T' => spike(0.3, 0.55),
        'N' => spike(0.31, -0.43),
        // sharp spikes: offset lines that meet far outside of their segments
        'I' => spike(0.006, 0.7),
        'Y' => spike(0.02, -0.5),
        'J' => {
            let mut v = spike(0.025, 0.7);
            let (foot, tip) = (p(v[1].x, v[1].y), p(v[2].x, v[2].y));
            let q = tip + (foot - tip).unit() * 0.01 - u * 1e-4;
            v.insert(2, vx(q.x, q.y, 0.0));
            v
        }
        // a slot and a tab, straight or rounded
        'S' => block(0.12, -0.5, 0.0),
        'U' => block(0.15, -0.38, -1.0),
        'B' => block(0.17, 0.45, 0.0),
        'C' => block(0.19, 0.33, 1.0),
        'W' => vec![at(0.0, 0.0, 0.5), at(0.3, 0.0, -0.45), at(0.68, 0.0, 0.55)],
        _ => panic!("no such side"),
    });
}

fn around(k: usize, step: usize, letters: &str, radius: f64) -> Vec<Path> {
    let letters: Vec<char> = letters.chars().collect();
    let corner = |i: usize| {
        let f = 0.13 + std::f64::consts::TAU * ((i * step) % k) as f64 / k as f64;
        p(f.cos(), f.sin()) * radius + jitter(i % k, k as u64, 0.06 * radius)
    };
    let mut out = vec![];
    words(letters.len(), k, |w| {
        if (1..k).any(|s| (0..k).map(|i| w[(i + s) % k]).lt(w.iter().cloned())) {
            return;
        }
        let mut v = vec![];
        for i in 0..k {
            side(corner(i), corner(i + 1), letters[w[i]], &mut v);
        }
        out.push(Path::new(v, true));
    });
    out
}

/// Every simple ring of `k` sides with one of the profiles `letters` each, up to rotation.
pub fn rings(k: usize, letters: &str, radius: f64) -> Vec<Path> {
    let mut out = around(k, 1, letters, radius);
    out.retain(|q| is_simple(q, 2e-3));
    out
}

/// Every star (corner i connected to corner i + step) with one of the profiles `letters` per side.
pub fn stars(k: usize, step: usize, letters: &str, radius: f64) -> Vec<Path> {
    around(k, step, letters, radius)
}
