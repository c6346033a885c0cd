//! P28: what a plot item draws, compared in pixels with the exact curve.
use crate::gen::*;
use crate::geo::*;
use crate::run::*;
use cavalier_contours::polyline::internal::pline_offset::RawPlineOffsetSeg;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::Shape as LibShape;
use cavalier_contours_ui::plotting::*;
use egui::{Color32, Rect, Shape};
use egui_plot::{PlotBounds, PlotItem, PlotTransform};

thread_local! {
    static CTX: egui::Context = {
        let c = egui::Context::default();
        c.set_fonts(egui::FontDefinitions::empty());
        c
    };
}
/// f with a real Ui of a context without a window
pub fn with_ui(mut f: impl FnMut(&egui::Ui)) {
    CTX.with(|c| {
        let _ = c.run(Default::default(), |c| {
            egui::CentralPanel::default().show(c, |ui| f(ui));
        });
    })
}

pub const STROKE: Color32 = Color32::GOLD;
pub const FILL: Color32 = Color32::LIGHT_BLUE;
pub const VERT: Color32 = Color32::LIGHT_GREEN;
pub const COLLAPSED: Color32 = Color32::LIGHT_RED;

/// A view: the part of the plane shown, and the screen rectangle it is shown in.
#[derive(Clone, Copy)]
pub struct View {
    pub lo: P,
    pub hi: P,
    pub frame: Rect,
}
impl View {
    pub fn scale(&self) -> f64 {
        self.frame.width() as f64 / (self.hi.x - self.lo.x)
    }
    pub fn px(&self, q: P) -> P {
        let k = self.scale();
        p(self.frame.min.x as f64 + (q.x - self.lo.x) * k, self.frame.max.y as f64 - (q.y - self.lo.y) * k)
    }
    pub fn path(&self, a: &Path) -> Path {
        a.map(|q| self.px(q), true)
    }
    pub fn transform(&self) -> PlotTransform {
        PlotTransform::new(self.frame, PlotBounds::from_min_max([self.lo.x, self.lo.y], [self.hi.x, self.hi.y]), false)
    }
    /// inside the frame by at least m pixels
    pub fn sees(&self, q: P, m: f64) -> bool {
        q.x > self.frame.min.x as f64 + m
            && q.x < self.frame.max.x as f64 - m
            && q.y > self.frame.min.y as f64 + m
            && q.y < self.frame.max.y as f64 - m
    }
}
/// the view of width w (plane units) centred at c
pub fn view(c: P, w: f64) -> View {
    let frame = Rect::from_min_max(egui::pos2(20.0, 10.0), egui::pos2(180.0, 130.0));
    let h = w * 0.75;
    View { lo: p(c.x - w / 2.0, c.y - h / 2.0), hi: p(c.x + w / 2.0, c.y + h / 2.0), frame }
}

pub struct Tri {
    pub v: [P; 3],
    pub color: Color32,
}
impl Tri {
    pub fn has(&self, q: P) -> bool {
        let [a, b, c] = self.v;
        let s = [(b - a).cross(q - a), (c - b).cross(q - b), (a - c).cross(q - c)];
        s.iter().all(|x| *x >= 0.0) || s.iter().all(|x| *x <= 0.0)
    }
    pub fn dist(&self, q: P) -> f64 {
        if self.has(q) {
            return 0.0;
        }
        (0..3).map(|i| Seg::new(self.v[i], self.v[(i + 1) % 3], 0.0).dist(q)).fold(f64::INFINITY, f64::min)
    }
}
#[derive(Default)]
pub struct Drawn {
    pub tris: Vec<Tri>,
    pub dots: Vec<(P, f64, Color32)>,
    pub other: usize,
}
fn pt(q: egui::Pos2) -> P {
    p(q.x as f64, q.y as f64)
}
pub fn read_shapes<'a>(list: impl Iterator<Item = &'a Shape>) -> Result<Drawn, String> {
    let mut d = Drawn::default();
    for s in list {
        match s {
            Shape::Mesh(m) => {
                for t in m.indices.chunks(3) {
                    if t.len() != 3 || t.iter().any(|i| *i as usize >= m.vertices.len()) {
                        return Err("mesh indices do not form triangles".into());
                    }
                    let v = [0, 1, 2].map(|k| &m.vertices[t[k] as usize]);
                    if v.iter().any(|x| !x.pos.x.is_finite() || !x.pos.y.is_finite()) {
                        return Err("mesh vertex is not finite".into());
                    }
                    if v[0].color != v[1].color || v[0].color != v[2].color {
                        return Err("triangle of several colors".into());
                    }
                    d.tris.push(Tri { v: v.map(|x| pt(x.pos)), color: v[0].color });
                }
            }
            Shape::Circle(c) => d.dots.push((pt(c.center), c.radius as f64, c.fill)),
            Shape::Noop => {}
            _ => d.other += 1,
        }
    }
    Ok(d)
}
pub fn draw(item: &dyn PlotItem, v: &View) -> Result<Drawn, String> {
    let mut out = Err("not drawn".to_string());
    with_ui(|ui| {
        let mut shapes = vec![];
        item.shapes(ui, &v.transform(), &mut shapes);
        out = read_shapes(shapes.iter());
    });
    out
}

/// segments beyond this distance from the frame need not be compared closely
const TOL: f64 = 0.35;

/// Items by the cell of the frame they come near.
struct Grid<'a, T> {
    cells: Vec<Vec<&'a T>>,
    frame: Rect,
    nx: usize,
}
const CELL: f64 = 12.0;
impl<'a, T> Grid<'a, T> {
    /// reach: how far from an item queries still have to find it
    fn new(frame: Rect, items: impl Iterator<Item = &'a T>, bounds: impl Fn(&T) -> (f64, f64, f64, f64), reach: f64) -> Self {
        let (nx, ny) = ((frame.width() as f64 / CELL) as usize + 1, (frame.height() as f64 / CELL) as usize + 1);
        let mut g = Grid { cells: (0..nx * ny).map(|_| vec![]).collect(), frame, nx };
        for t in items {
            let b = bounds(t);
            let cell = |x: f64, o: f32, n: usize| (((x - o as f64) / CELL).floor().max(-1.0).min(n as f64)) as isize;
            let (x0, x1) = (cell(b.0 - reach, frame.min.x, nx), cell(b.2 + reach, frame.min.x, nx));
            let (y0, y1) = (cell(b.1 - reach, frame.min.y, ny), cell(b.3 + reach, frame.min.y, ny));
            for y in y0.max(0)..=y1.min(ny as isize - 1) {
                for x in x0.max(0)..=x1.min(nx as isize - 1) {
                    g.cells[y as usize * nx + x as usize].push(t);
                }
            }
        }
        g
    }
    /// q must be inside the frame
    fn at(&self, q: P) -> &[&'a T] {
        let i = |x: f64, o: f32| ((x - o as f64) / CELL) as usize;
        &self.cells[i(q.y, self.frame.min.y) * self.nx + i(q.x, self.frame.min.x)]
    }
}

/// Every visible point of the curve is under a triangle, and no triangle is away from the curve.
pub fn stroke_matches(d: &Drawn, color: Color32, segs: &[Seg], v: &View) -> Result<usize, String> {
    let tris = Grid::new(
        v.frame,
        d.tris.iter().filter(|t| t.color == color),
        |t| {
            let m = |f: fn(&P) -> f64, s: f64| s * t.v.iter().map(|q| s * f(q)).fold(f64::NEG_INFINITY, f64::max);
            (m(|q| q.x, -1.0), m(|q| q.y, -1.0), m(|q| q.x, 1.0), m(|q| q.y, 1.0))
        },
        1.0,
    );
    let near = Grid::new(v.frame, segs.iter(), |s| s.bounds(), 5.0);
    let mut n = 0;
    for s in segs {
        let len = s.len();
        if len < 1e-3 {
            continue;
        }
        let steps = ((len / 3.0).ceil() as usize).clamp(1, 400);
        for k in 0..=steps {
            let q = s.at(k as f64 / steps as f64);
            if !v.sees(q, 1.0) {
                continue;
            }
            n += 1;
            if !tris.at(q).iter().any(|t| t.dist(q) <= TOL) {
                return Err(format!("the curve at pixel ({:.2},{:.2}) is not drawn", q.x, q.y));
            }
        }
    }
    for t in d.tris.iter().filter(|t| t.color == color) {
        let m = p((t.v[0].x + t.v[1].x + t.v[2].x) / 3.0, (t.v[0].y + t.v[1].y + t.v[2].y) / 3.0);
        // half a pixel of line width; the tip of a mitred corner is up to four pixels off
        for q in [t.v[0], t.v[1], t.v[2], m] {
            if !v.sees(q, 0.0) || near.at(q).iter().any(|s| s.dist(q) <= 0.5 + TOL) {
                continue;
            }
            if near.at(q).iter().all(|s| s.at(0.0).dist(q).min(s.at(1.0).dist(q)) > 4.3) {
                return Err(format!("a stroke at pixel ({:.2},{:.2}) is {:.2} pixels from the curve", q.x, q.y, dist_segs(segs, q)));
            }
        }
    }
    Ok(n)
}

/// Every probe is filled exactly once when it is inside, and not at all otherwise.
pub fn fill_matches(d: &Drawn, color: Color32, segs: &[Seg], v: &View) -> Result<usize, String> {
    let tris: Vec<&Tri> = d.tris.iter().filter(|t| t.color == color).collect();
    let (mut n, nx, ny) = (0, 23, 17);
    for i in 0..nx * ny {
        let q = p(
            v.frame.min.x as f64 + v.frame.width() as f64 * ((i % nx) as f64 + 0.43) / nx as f64,
            v.frame.min.y as f64 + v.frame.height() as f64 * ((i / nx) as f64 + 0.57) / ny as f64,
        );
        if dist_segs(segs, q) < 0.6 {
            continue;
        }
        let want = if winding(segs, q) != 0 { 1 } else { 0 };
        // a probe on an inner edge of the mesh belongs to both its triangles
        let got: Vec<_> = tris.iter().filter(|t| t.has(q)).collect();
        let on_edge = got.iter().any(|t| (0..3).any(|k| Seg::new(t.v[k], t.v[(k + 1) % 3], 0.0).dist(q) < 1e-3));
        n += 1;
        if got.len() != want && !(on_edge && want == 1 && !got.is_empty()) {
            return Err(format!("pixel ({:.2},{:.2}) is filled {} times instead of {want}", q.x, q.y, got.len()));
        }
    }
    Ok(n)
}

fn dots_match(d: &Drawn, color: Color32, want: &[P]) -> Result<(), String> {
    let got: Vec<P> = d.dots.iter().filter(|x| x.2 == color).map(|x| x.0).collect();
    if got.len() != want.len() {
        return Err(format!("{} vertexes are marked instead of {}", got.len(), want.len()));
    }
    let mut used = vec![false; got.len()];
    for w in want {
        match (0..got.len()).find(|i| !used[*i] && got[*i].dist(*w) < 0.01) {
            Some(i) => used[i] = true,
            None => return Err(format!("no vertex is marked at pixel ({:.2},{:.2})", w.x, w.y)),
        }
    }
    Ok(())
}
fn on_screen(v: &View, list: &[P]) -> Option<Vec<P>> {
    // a vertex exactly on the border may go either way
    let mut out = vec![];
    for q in list {
        let s = v.px(*q);
        if v.sees(s, 1e-6) {
            out.push(s);
        } else if v.sees(s, -1e-6) {
            return None;
        }
    }
    Some(out)
}

fn bounds_of(segs: &[Seg]) -> [f64; 4] {
    let mut b = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for s in segs {
        let (x0, y0, x1, y1) = s.bounds();
        b = [b[0].min(x0), b[1].min(y0), b[2].max(x1), b[3].max(y1)];
    }
    b
}
fn flat(b: &PlotBounds) -> [f64; 4] {
    let (lo, hi) = (b.min(), b.max());
    [lo[0], lo[1], hi[0], hi[1]]
}

fn views(thorough: bool) -> Vec<View> {
    // everything; parts cut by every border; single features; far inside; nothing
    let mut o = vec![
        view(p(1.0, 1.0), 4.3),
        view(p(0.55, 0.75), 1.31),
        view(p(1.62, 1.3), 1.13),
        view(p(1.1, 1.93), 0.47),
        view(p(0.07, 0.03), 0.11),
        view(p(1.013, 0.31), 0.013),
        view(p(1.0, 0.02), 40.0),
        view(p(3.9, 1.0), 2.7),
    ];
    if thorough {
        for i in 0..6 {
            for j in 0..6 {
                for w in [0.37, 0.91, 2.1] {
                    o.push(view(p(-0.21 + 0.49 * i as f64, -0.17 + 0.47 * j as f64), w));
                }
            }
        }
    }
    o
}

fn item_checks(r: &mut Rec, what: &str, v: &View, d: Result<Drawn, String>, segs: &[Seg], verts: &[P], fill: bool, stroke: bool, dots: bool) {
    let d = match d {
        Ok(d) => d,
        Err(e) => return r.fail("mesh", e),
    };
    let px: Vec<Seg> = segs.iter().map(|s| Seg::new(v.px(s.at(0.0)), v.px(s.at(1.0)), -bulge_of(s))).collect();
    let known = [(fill, FILL), (stroke, STROKE)];
    r.check(
        d.other == 0 && d.tris.iter().all(|t| known.iter().any(|k| k.0 && k.1 == t.color)),
        "colors",
        || format!("{what}: something is drawn in a color that was not asked for"),
    );
    if stroke {
        let e = stroke_matches(&d, STROKE, &px, v);
        if matches!(e, Ok(n) if n > 0) {
            r.class("curve visible");
        }
        r.check(e.is_ok(), "stroke", || format!("{what}: {}", e.unwrap_err()));
    }
    if fill {
        let e = fill_matches(&d, FILL, &px, v);
        r.check(e.is_ok(), "fill", || format!("{what}: {}", e.unwrap_err()));
    }
    if let Some(w) = on_screen(v, verts) {
        let e = dots_match(&d, VERT, if dots { &w } else { &[] });
        r.check(e.is_ok(), "vertexes", || format!("{what}: {}", e.unwrap_err()));
    }
}
fn bulge_of(s: &Seg) -> f64 {
    // from the exact sweep: half way point and chord
    let (a, b, m) = (s.at(0.0), s.at(1.0), s.at(0.5));
    if !s.is_arc() {
        return 0.0;
    }
    let c = b - a;
    let h = (m - a).cross(c) / c.len();
    // positive bulge: the arc is to the right of the chord
    h / (c.len() / 2.0)
}

pub fn p28(cx: &Ctx) -> i32 {
    let t = cx.thorough;
    let lat = lattice(3, 3, 1.0, 0.0, 0);
    let jit = lattice(3, 3, 1.0, 0.11, 5);
    let vs = views(t);
    let nv = vs.len();
    let bul = [0.0, 0.5, -1.0];
    for closed in [true, false] {
        for (name, pts) in [("special", &lat), ("generic", &jit)] {
            let mut paths = any_paths(pts, 2, &[0.0, 1.0, -0.3, 0.05, -1e-7], closed);
            paths.extend(any_paths(pts, 3, &bul, closed));
            if t {
                paths.extend(any_paths(pts, 4, &[0.0, 0.7], closed));
            }
            let full = format!("{name}-{}", if closed { "closed" } else { "open" });
            cx.space(&full, paths.len() * nv, |i, r| {
                let (a, v) = (&paths[i / nv], &vs[i % nv]);
                r.case(|| format!("{} view ({},{})..({},{})", show(a), v.lo.x, v.lo.y, v.hi.x, v.hi.y));
                let q = pl(a);
                let (segs, verts): (Vec<Seg>, Vec<P>) = (a.segs(), a.v.iter().map(|x| x.p()).collect());
                // each combination of what is drawn
                for mask in 1..8 {
                    let (fill, stroke, dots) = (mask & 1 != 0, mask & 2 != 0, mask & 4 != 0);
                    if fill && (!closed || !is_simple(a, 1e-3)) {
                        continue;
                    }
                    let mut it = PlinesPlotItem::new(PlinePlotData::new(&q));
                    if fill {
                        it = it.fill_color(FILL);
                    }
                    if stroke {
                        it = it.stroke_color(STROKE);
                    }
                    if dots {
                        it = it.vertex_color(VERT);
                    }
                    r.call();
                    let d = draw(&it, v);
                    item_checks(r, "polyline", v, d, &segs, &verts, fill, stroke, dots);
                    let (b, w) = (flat(&it.bounds()), bounds_of(&segs));
                    r.check((0..4).all(|k| (b[k] - w[k]).abs() < 1e-6), "bounds", || format!("bounds {b:?} instead of {w:?}"));
                }
            });
        }
    }
    // shapes: outlines with holes and separate islands
    let boxes = |x: f64, y: f64, s: f64, b: f64, ccw: bool| {
        let a = Path::new(vec![vx(x, y, b), vx(x + s, y, 0.0), vx(x + s, y + s, b), vx(x, y + s, 0.0)], true);
        if ccw {
            a
        } else {
            a.rev()
        }
    };
    let mut shapes: Vec<Vec<Path>> = vec![vec![]];
    let bb = [0.0, 0.4, -0.3];
    for b0 in bb {
        for b1 in bb {
            shapes.push(vec![boxes(0.0, 0.0, 2.0, b0, true), boxes(0.5, 0.6, 0.7, b1, false)]);
            shapes.push(vec![boxes(0.0, 0.0, 0.8, b0, true), boxes(1.3, 1.2, 0.7, b1, true)]);
            for b2 in bb {
                shapes.push(vec![boxes(0.0, 0.0, 2.0, b0, true), boxes(0.4, 0.4, 1.1, b1, false), boxes(0.7, 0.7, 0.4, b2, true)]);
                shapes.push(vec![boxes(0.0, 0.0, 2.0, b0, true), boxes(0.3, 0.3, 0.5, b1, false), boxes(1.2, 1.1, 0.5, b2, false)]);
                shapes.push(vec![boxes(-2.0, 0.0, 1.0, b0, true), boxes(3.2, 0.1, 0.9, b1, true), boxes(0.2, 1.1, 0.8, b2, true)]);
            }
        }
    }
    cx.space("shapes", shapes.len() * nv, |i, r| {
        let (list, v) = (&shapes[i / nv], &vs[i % nv]);
        r.case(|| format!("{:?} view ({},{})..({},{})", list.iter().map(show).collect::<Vec<_>>(), v.lo.x, v.lo.y, v.hi.x, v.hi.y));
        let sh = LibShape::from_plines(list.iter().map(pl));
        let segs: Vec<Seg> = list.iter().flat_map(|a| a.segs()).collect();
        let verts: Vec<P> = list.iter().flat_map(|a| a.v.iter().map(|x| x.p())).collect();
        for mask in 1..8 {
            let (fill, stroke, dots) = (mask & 1 != 0, mask & 2 != 0, mask & 4 != 0);
            let mut it = PlinesPlotItem::new(&sh);
            if fill {
                it = it.fill_color(FILL);
            }
            if stroke {
                it = it.stroke_color(STROKE);
            }
            if dots {
                it = it.vertex_color(VERT);
            }
            r.call();
            let d = draw(&it, v);
            item_checks(r, "shape", v, d, &segs, &verts, fill, stroke, dots);
            let (b, w) = (flat(&it.bounds()), bounds_of(&segs));
            r.check(
                (0..2).all(|k| b[k] <= w[k] + 1e-6 && b[k + 2] >= w[k + 2] - 1e-6),
                "bounds",
                || format!("bounds {b:?} do not hold {w:?}"),
            );
        }
    });
    // raw offset segments: any list of segments, some collapsed
    let mut lists: Vec<Vec<(Seg, bool)>> = vec![vec![]];
    let ends = [p(0.1, 0.2), p(1.7, 0.4), p(0.9, 1.9)];
    let mut one = vec![];
    for i in 0..3 {
        for j in 0..3 {
            for b in [0.0, 0.6, -1.0, 0.02] {
                for c in [false, true] {
                    if i != j {
                        one.push((Seg::new(ends[i], ends[j], b), c));
                    }
                }
            }
        }
    }
    for a in &one {
        lists.push(vec![*a]);
        for b in &one {
            lists.push(vec![*a, *b]);
        }
    }
    cx.space("raw-segments", lists.len() * nv, |i, r| {
        let (list, v) = (&lists[i / nv], &vs[i % nv]);
        r.case(|| format!("{:?} view ({},{})..({},{})", list.iter().map(|(s, c)| (s.at(0.0).x, s.at(0.0).y, bulge_of(s), *c)).collect::<Vec<_>>(), v.lo.x, v.lo.y, v.hi.x, v.hi.y));
        let raw: Vec<RawPlineOffsetSeg<f64>> = list
            .iter()
            .map(|(s, c)| {
                let (a, b) = (s.at(0.0), s.at(1.0));
                RawPlineOffsetSeg {
                    v1: PlineVertex::new(a.x, a.y, bulge_of(s)),
                    v2: PlineVertex::new(b.x, b.y, 0.0),
                    orig_v2_pos: cavalier_contours::core::math::Vector2::new(b.x, b.y),
                    collapsed_arc: *c,
                }
            })
            .collect();
        for mask in 0..4 {
            let mut it = RawPlineOffsetSegsPlotItem::new(&raw);
            it = it.color(if mask & 1 != 0 { STROKE } else { Color32::TRANSPARENT });
            it = it.collapsed_color(if mask & 2 != 0 { COLLAPSED } else { Color32::TRANSPARENT });
            r.call();
            let d = match draw(&it, v) {
                Ok(d) => d,
                Err(e) => return r.fail("mesh", e),
            };
            for (on, col, flag) in [(mask & 1 != 0, STROKE, false), (mask & 2 != 0, COLLAPSED, true)] {
                let px: Vec<Seg> = list
                    .iter()
                    .filter(|x| x.1 == flag && on)
                    .map(|(s, _)| Seg::new(v.px(s.at(0.0)), v.px(s.at(1.0)), -bulge_of(s)))
                    .collect();
                let e = stroke_matches(&d, col, &px, v);
                r.check(e.is_ok(), "segments", || format!("mask {mask}: {}", e.unwrap_err()));
            }
            r.check(d.tris.iter().all(|t| t.color == STROKE || t.color == COLLAPSED), "colors", || "unexpected color".into());
            if !list.is_empty() {
                let (b, w) = (flat(&it.bounds()), bounds_of(&list.iter().map(|x| x.0).collect::<Vec<_>>()));
                r.check((0..4).all(|k| (b[k] - w[k]).abs() < 1e-6), "bounds", || format!("bounds {b:?} instead of {w:?}"));
            }
        }
    });
    cx.finish("one state per (polyline, shape or segment list, view); every combination of fill, stroke and vertex marks is drawn by the real plot item and the triangles are compared in pixels with the exact curve")
}
