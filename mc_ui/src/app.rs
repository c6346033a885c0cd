//! P29: the demonstration app, driven by every sequence of user actions up to a depth.
use crate::gen::*;
use crate::geo::*;
use crate::plots::*;
use crate::run::*;
use cavalier_contours::polyline::internal::pline_offset::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::{Shape as LibShape, ShapeOffsetOptions};
use cavalier_contours_ui::MainApp;
use eframe::App;
use egui::{Color32, Event, Modifiers, PointerButton, Pos2, RawInput, Rect, Shape};

// ---------------------------------------------------------------- the app without a window
struct Sim {
    ctx: egui::Context,
    app: MainApp,
    frame: eframe::Frame,
    time: f64,
    texts: Vec<(String, Rect)>,
    drawn: Result<Drawn, String>,
    clip: Option<Rect>,
}
thread_local! {
    static FONTS: egui::Context = egui::Context::default();
}
fn flatten(s: &Shape, clip: Rect, texts: &mut Vec<(String, Rect)>, plot: &mut Vec<(Shape, Rect)>) {
    match s {
        Shape::Vec(l) => l.iter().for_each(|x| flatten(x, clip, texts, plot)),
        Shape::Text(t) => texts.push((t.galley.text().to_string(), t.galley.rect.translate(t.pos.to_vec2()))),
        Shape::Mesh(_) | Shape::Circle(_) => plot.push((s.clone(), clip)),
        _ => {}
    }
}
impl Sim {
    fn new() -> Sim {
        // the fonts are kept, everything else starts fresh
        let ctx = FONTS.with(|c| c.clone());
        ctx.memory_mut(|m| *m = Default::default());
        ctx.set_style(egui::Style::default());
        let cc = eframe::CreationContext::_new_kittest(ctx.clone());
        let app = MainApp::new(&cc);
        let mut s = Sim { ctx, app, frame: eframe::Frame::_new_kittest(), time: FONTS.with(|c| c.input(|i| i.time)) + 10.0, texts: vec![], drawn: Err("no frame".into()), clip: None };
        s.step(vec![Event::PointerGone]);
        s.settle();
        s
    }
    fn step(&mut self, events: Vec<Event>) {
        self.time += 0.3;
        let input = RawInput {
            screen_rect: Some(Rect::from_min_max(Pos2::ZERO, egui::pos2(900.0, 600.0))),
            time: Some(self.time),
            focused: true,
            events,
            ..Default::default()
        };
        let (app, frame) = (&mut self.app, &mut self.frame);
        let out = self.ctx.run(input, |ctx| app.update(ctx, frame));
        let mut plot = vec![];
        self.texts.clear();
        for s in &out.shapes {
            flatten(&s.shape, s.clip_rect, &mut self.texts, &mut plot);
        }
        // the plot items are the meshes, and the circles clipped like them
        let mesh = plot.iter().find(|x| matches!(x.0, Shape::Mesh(_)));
        self.clip = mesh.or(plot.iter().find(|x| x.1.min.x < 300.0 && x.1.max.x < 750.0)).map(|x| x.1);
        let clip = self.clip;
        if std::env::var("MC_TRACE").is_ok() {
            let t: Vec<_> = self.texts.iter().map(|t| format!("{}@{:.0},{:.0}", t.0, t.1.min.x, t.1.min.y)).collect();
            eprintln!("{:.2} clip {:?} {}", self.time, self.clip, t.join(" | "));
        }
        self.drawn = read_shapes(plot.iter().filter(|x| Some(x.1) == clip).map(|x| &x.0));
    }
    fn settle(&mut self) {
        // the side panel adapts its width over several frames
        for k in 0..30 {
            let last: Vec<(String, Rect)> = self.texts.clone();
            self.step(vec![]);
            if k >= 2 && last == self.texts {
                break;
            }
        }
    }
    fn button(&mut self, at: Pos2, pressed: bool) {
        self.step(vec![Event::PointerButton { pos: at, button: PointerButton::Primary, pressed, modifiers: Modifiers::NONE }]);
    }
    fn click_at(&mut self, at: Pos2) {
        self.step(vec![Event::PointerMoved(at)]);
        self.button(at, true);
        self.button(at, false);
        self.settle();
    }
    /// the last drawn text that reads exactly so (popups are drawn last)
    fn find(&self, s: &str) -> Option<Rect> {
        self.texts.iter().rev().find(|x| x.0 == s).map(|x| x.1)
    }
    fn click(&mut self, s: &str) -> Result<(), String> {
        let at = self.find(s).ok_or(format!("'{s}' is not on the screen"))?;
        self.click_at(at.center());
        Ok(())
    }
    /// the n-th number shown in the side panel, from the top
    fn number(&self, n: usize) -> Result<Pos2, String> {
        let x0 = self.find("Zoom to Fit").ok_or("no side panel")?.min.x - 30.0;
        let mut l: Vec<Rect> = self
            .texts
            .iter()
            .filter(|t| t.1.min.x > x0 && t.0.replace('−', "-").parse::<f64>().is_ok())
            .map(|t| t.1)
            .collect();
        l.sort_by(|a, b| a.min.y.total_cmp(&b.min.y));
        Ok(l.get(n).ok_or("number is not on the screen")?.center())
    }
    fn type_number(&mut self, n: usize, text: &str) -> Result<(), String> {
        let at = self.number(n)?;
        self.click_at(at);
        let key = |key, pressed| Event::Key { key, physical_key: None, pressed, repeat: false, modifiers: Modifiers::NONE };
        self.step(vec![Event::Key { key: egui::Key::A, physical_key: None, pressed: true, repeat: false, modifiers: Modifiers::COMMAND | Modifiers::CTRL }]);
        self.step(vec![Event::Text(text.into())]);
        self.step(vec![key(egui::Key::Enter, true)]);
        self.step(vec![key(egui::Key::Enter, false)]);
        self.settle();
        Ok(())
    }
    fn drag(&mut self, from: Pos2, to: Pos2) {
        self.step(vec![Event::PointerMoved(from)]);
        self.button(from, true);
        for k in 1..=3 {
            let t = k as f32 / 3.0;
            self.step(vec![Event::PointerMoved(from + (to - from) * t)]);
        }
        self.button(to, false);
        self.step(vec![Event::PointerGone]);
        self.settle();
    }
    fn wheel(&mut self, at: Pos2, dy: f32) {
        self.step(vec![Event::PointerMoved(at)]);
        self.step(vec![Event::MouseWheel { unit: egui::MouseWheelUnit::Point, delta: egui::vec2(0.0, dy), modifiers: Modifiers::CTRL | Modifiers::COMMAND }]);
        for _ in 0..3 {
            self.settle();
        }
    }
}

// ---------------------------------------------------------------- the model
#[derive(Clone, Copy, PartialEq, Debug)]
enum Scene {
    Offset,
    Boolean,
    Multi,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Tab(Scene),
    Mode(&'static str),
    /// which number, text typed
    Type(usize, &'static str),
    Check(&'static str),
    Fit,
    /// polyline, vertex, pixels
    Drag(usize, usize, f32, f32),
    /// drag a vertex onto the next one
    Onto(usize, usize),
    Pan(f32, f32),
    Wheel(f32),
}
#[derive(Clone, Copy)]
struct Map {
    k: f64,
    o: P,
}
impl Map {
    fn px(&self, q: P) -> P {
        p(self.o.x + q.x * self.k, self.o.y - q.y * self.k)
    }
    fn back(&self, q: P) -> P {
        p((q.x - self.o.x) / self.k, (self.o.y - q.y) / self.k)
    }
    /// least squares over (value, pixel)
    fn fit(pairs: &[(P, P)]) -> Option<Map> {
        let n = pairs.len() as f64;
        if pairs.len() < 2 {
            return None;
        }
        let (mut mv, mut mp) = (p(0.0, 0.0), p(0.0, 0.0));
        for (v, q) in pairs {
            mv = mv + *v * (1.0 / n);
            mp = mp + *q * (1.0 / n);
        }
        let (mut a, mut b) = (0.0, 0.0);
        for (v, q) in pairs {
            let (x, y) = (*v - mv, *q - mp);
            a += x.x * y.x - x.y * y.y;
            b += x.dot(x);
        }
        let k = a / b;
        Some(Map { k, o: p(mp.x - mv.x * k, mp.y + mv.y * k) })
    }
}
struct Model {
    scene: Scene,
    plines: Vec<Path>,
    mode: &'static str,
    offset: f64,
    count: usize,
    intersects: bool,
    fill: bool,
    marks: bool,
    map: Option<Map>,
    clip: Option<Rect>,
    /// the whole drawing was just fitted into the plot
    fitted: bool,
}
fn base() -> Path {
    Path::new(
        vec![
            vx(10.0, 10.0, -0.5),
            vx(8.0, 9.0, 0.374794619217547),
            vx(21.0, 0.0, 0.0),
            vx(23.0, 0.0, 1.0),
            vx(32.0, 0.0, -0.5),
            vx(28.0, 0.0, 0.5),
            vx(39.0, 21.0, 0.0),
            vx(28.0, 12.0, 0.5),
        ],
        true,
    )
}
impl Model {
    fn new(scene: Scene) -> Model {
        let mut a = base();
        let plines = match scene {
            Scene::Offset => vec![a],
            Scene::Boolean => {
                let mut b = base();
                a.v[1] = vx(0.3, 1.0, 0.374794619217547);
                b.v[6] = vx(38.0, 19.0, 0.0);
                vec![a, b.scale(0.5)]
            }
            Scene::Multi => {
                let c = |v: &[(f64, f64, f64)]| Path::new(v.iter().map(|x| vx(x.0, x.1, x.2)).collect(), true);
                vec![
                    a.scale(10.0),
                    c(&[(150.0, 50.0, 0.0), (150.0, 100.0, 0.0), (223.74732137849435, 142.16931273980475, 0.0), (199.491310072685, 52.51543504258919, 0.5)]),
                    c(&[(261.11232783167395, 35.79686193615828, -1.0), (250.0, 100.0, -1.0)]),
                    c(&[(320.5065990423979, 76.14222955572362, -1.0), (320.2986109239592, 103.52378781211337, 0.0)]),
                    c(&[(273.6131273938006, -13.968608715397636, -0.3), (256.61336060995995, -25.49387433156079, 0.0), (249.69820124026208, 27.234215862385582, 0.0)]),
                ]
            }
        };
        Model {
            scene,
            plines,
            mode: if scene == Scene::Boolean { "None" } else { "Offset" },
            offset: if scene == Scene::Multi { 2.0 } else { 1.0 },
            count: if scene == Scene::Multi { 25 } else { 10 },
            intersects: true,
            fill: true,
            marks: true,
            map: None,
            clip: None,
            fitted: true,
        }
    }
    fn mark_colors(&self) -> Vec<Color32> {
        match self.scene {
            Scene::Boolean => vec![Color32::LIGHT_BLUE.gamma_multiply(0.8), Color32::LIGHT_RED.gamma_multiply(0.8)],
            _ => vec![Color32::LIGHT_GREEN],
        }
    }
    fn verts(&self) -> Vec<P> {
        self.plines.iter().flat_map(|a| a.v.iter().map(|x| x.p())).collect()
    }
    /// (vertexes in the order drawn) with the color of their mark. Shapes draw all counter clockwise
    /// polylines first, so the order is not relied upon.
    fn marks(&self) -> Vec<(P, Color32)> {
        let c = self.mark_colors();
        self.plines.iter().enumerate().flat_map(|(i, a)| a.v.iter().map(|x| (x.p(), c[i.min(c.len() - 1)])).collect::<Vec<_>>()).collect()
    }
    /// curves expected in each color, regions expected to be filled in each color
    fn expected(&self) -> (Vec<(Color32, Vec<Path>)>, Vec<(Color32, Box<dyn Fn(P) -> bool>)>) {
        let (mut curves, mut fills): (Vec<(Color32, Vec<Path>)>, Vec<(Color32, Box<dyn Fn(P) -> bool>)>) = (vec![], vec![]);
        let mut lib: Vec<Polyline> = self.plines.iter().map(pl).collect();
        if self.scene != Scene::Boolean {
            // a vertex dragged onto the next one is the same place twice
            for a in &mut lib {
                if let Some(x) = a.remove_repeat_pos(1e-5) {
                    *a = x;
                }
            }
        }
        match self.scene {
            Scene::Offset => {
                curves.push((Color32::GOLD, self.plines.clone()));
                let a = &lib[0];
                match self.mode {
                    "Offset" => {
                        let opt = PlineOffsetOptions { handle_self_intersects: self.intersects, ..Default::default() };
                        let (mut same, mut other, mut level) = (vec![], vec![], vec![a.clone()]);
                        for _ in 0..self.count {
                            let mut next = vec![];
                            for x in &level {
                                for y in x.parallel_offset_opt(self.offset, &opt) {
                                    if y.orientation() == a.orientation() {
                                        same.push(path_of(&y));
                                        next.push(y);
                                    } else {
                                        other.push(path_of(&y));
                                    }
                                }
                            }
                            level = next;
                        }
                        curves.push((Color32::LIGHT_BLUE, same));
                        curves.push((Color32::LIGHT_RED, other));
                    }
                    "Raw Offset" => {
                        let raw: Polyline = create_raw_offset_polyline(a, self.offset, PlineOffsetOptions::<f64>::default().pos_equal_eps);
                        curves.push((Color32::LIGHT_GRAY, vec![path_of(&raw)]));
                    }
                    _ => {
                        let (mut ok, mut gone) = (vec![], vec![]);
                        for s in create_untrimmed_raw_offset_segs(a, self.offset) {
                            let x = Path::new(vec![vx(s.v1.x, s.v1.y, s.v1.bulge), vx(s.v2.x, s.v2.y, 0.0)], false);
                            if s.collapsed_arc { &mut gone } else { &mut ok }.push(x);
                        }
                        curves.push((Color32::MAGENTA, ok));
                        curves.push((Color32::LIGHT_RED, gone));
                    }
                }
            }
            Scene::Boolean => {
                let (c1, c2) = (Color32::LIGHT_BLUE, Color32::LIGHT_RED);
                let (f1, f2) = (c1.gamma_multiply(0.8), c2.gamma_multiply(0.8));
                let (sa, sb) = (self.plines[0].segs(), self.plines[1].segs());
                let op = match self.mode {
                    "Or" => BooleanOp::Or,
                    "And" => BooleanOp::And,
                    "Not" => BooleanOp::Not,
                    "Xor" => BooleanOp::Xor,
                    _ => {
                        if self.fill {
                            fills.push((f1, Box::new(move |q| winding(&sa, q) != 0)));
                            fills.push((f2, Box::new(move |q| winding(&sb, q) != 0)));
                        } else {
                            curves.push((c1, vec![self.plines[0].clone()]));
                            curves.push((c2, vec![self.plines[1].clone()]));
                        }
                        return (curves, fills);
                    }
                };
                let res = lib[0].boolean(&lib[1], op);
                let all: Vec<Path> = res.pos_plines.iter().chain(res.neg_plines.iter()).map(|x| path_of(&x.pline)).collect();
                let mode = self.mode;
                if self.fill {
                    // the exact set operation, not the library's result
                    fills.push((
                        f1,
                        Box::new(move |q| {
                            let (a, b) = (winding(&sa, q) != 0, winding(&sb, q) != 0);
                            match mode {
                                "Or" => a || b,
                                "And" => a && b,
                                "Not" => a && !b,
                                _ => a != b,
                            }
                        }),
                    ));
                }
                curves.push((c1, all));
            }
            Scene::Multi => {
                curves.push((Color32::GOLD, self.plines.clone()));
                let mut out = vec![];
                let mut s = LibShape::from_plines(lib.into_iter());
                for _ in 0..self.count {
                    s = s.parallel_offset(self.offset, ShapeOffsetOptions::default());
                    out.extend(s.ccw_plines.iter().chain(s.cw_plines.iter()).map(|x| path_of(&x.polyline)));
                }
                curves.push((Color32::LIGHT_BLUE, out));
            }
        }
        (curves, fills)
    }
}

struct World {
    sim: Sim,
    all: [Option<Model>; 3],
    cur: usize,
}
fn at(q: P) -> Pos2 {
    egui::pos2(q.x as f32, q.y as f32)
}
const SCENES: [Scene; 3] = [Scene::Offset, Scene::Boolean, Scene::Multi];
const TABS: [&str; 3] = ["Polyline Offset", "Polyline Boolean", "Multi Polyline Offset"];

impl World {
    fn new() -> World {
        let mut w = World { sim: Sim::new(), all: [Some(Model::new(Scene::Offset)), None, None], cur: 0 };
        let _ = w.refit();
        w
    }
    fn m(&mut self) -> &mut Model {
        self.all[self.cur].as_mut().unwrap()
    }
    /// where the model's vertexes are on the screen, from the marks (when every vertex is marked);
    /// nothing but zooming, panning and a change of the plot's size moves the view
    fn refit(&mut self) -> Result<(), String> {
        let Ok(d) = &self.sim.drawn else { return Ok(()) };
        let m = self.all[self.cur].as_ref().unwrap();
        let cols = m.mark_colors();
        // the extreme marks determine the map: no order is needed
        let dots: Vec<P> = d.dots.iter().filter(|x| cols.contains(&x.2)).map(|x| x.0).collect();
        let vs = m.verts();
        let clip = self.sim.clip;
        if m.fitted || m.clip != clip {
            self.m().map = None;
            self.m().clip = clip;
        }
        if dots.len() != vs.len() {
            return Ok(());
        }
        let ext = |l: &[P]| {
            let f = |g: fn(&P) -> f64, s: f64| l.iter().map(|q| s * g(q)).fold(f64::NEG_INFINITY, f64::max) * s;
            [f(|q| q.x, -1.0), f(|q| q.x, 1.0), f(|q| q.y, -1.0), f(|q| q.y, 1.0)]
        };
        let (a, b) = (ext(&vs), ext(&dots));
        let Some(map) = Map::fit(&[(p(a[0], a[2]), p(b[0], b[3])), (p(a[1], a[3]), p(b[1], b[2]))]) else { return Ok(()) };
        let moved = self.m().map.is_some_and(|o| vs.iter().any(|q| o.px(*q).dist(map.px(*q)) > 0.1));
        self.m().map = Some(map);
        if moved {
            return Err("the view moved".into());
        }
        Ok(())
    }
    fn vertex(&self, pi: usize, vi: usize) -> Option<P> {
        let m = self.all[self.cur].as_ref().unwrap();
        Some(m.map?.px(m.plines.get(pi)?.v.get(vi)?.p()))
    }
    /// a visible vertex that can be told from all others
    fn clear(&self, pi: usize, vi: usize, q: P) -> bool {
        let m = self.all[self.cur].as_ref().unwrap();
        let Some(c) = self.sim.clip else { return false };
        let inside = q.x > c.min.x as f64 + 8.0 && q.x < c.max.x as f64 - 8.0 && q.y > c.min.y as f64 + 8.0 && q.y < c.max.y as f64 - 8.0;
        inside
            && m.plines.iter().enumerate().all(|(i, a)| {
                a.v.iter().enumerate().all(|(j, v)| (i, j) == (pi, vi) || m.map.unwrap().px(v.p()).dist(q) > 30.0)
            })
    }
    /// shapes are made of loops that do not cross themselves or each other
    fn allowed(&self, pi: usize, vi: usize, to: P) -> bool {
        let m = self.all[self.cur].as_ref().unwrap();
        if m.scene != Scene::Multi {
            return true;
        }
        let mut a = m.plines[pi].clone();
        let v = m.map.unwrap().back(to);
        a.v[vi] = vx(v.x, v.y, a.v[vi].b);
        let n = a.v.len();
        if a.v[(vi + 1) % n].p().dist(v) < 1e-3 {
            a.v.remove(vi);
        }
        let l = a.segs();
        is_simple(&a, 1e-6)
            && m.plines.iter().enumerate().all(|(k, b)| k == pi || b.segs().iter().all(|x| l.iter().all(|y| seg_seg_dist(x, y) > 1e-3)))
    }
    /// Ok(false): the action is not possible here
    fn act(&mut self, a: Act) -> Result<bool, String> {
        self.m().fitted = false;
        match a {
            Act::Tab(s) => {
                let i = SCENES.iter().position(|x| *x == s).unwrap();
                self.sim.click(TABS[i])?;
                let changed = self.cur != i;
                self.cur = i;
                if self.all[i].is_none() {
                    self.all[i] = Some(Model::new(s));
                }
                self.m().fitted = changed;
            }
            Act::Mode(name) => {
                if self.cur == 2 || !modes(SCENES[self.cur]).contains(&name) {
                    return Ok(false);
                }
                let now = self.m().mode;
                self.sim.click_combo(now)?;
                self.sim.click(name)?;
                if self.cur == 0 && name == "Offset" && now != "Offset" {
                    // choosing the mode again starts from its defaults
                    self.m().intersects = true;
                    self.m().count = 10;
                }
                if self.cur == 0 && name == "Offset" && now == "Offset" {
                    // selecting what is selected: the combo box compares the whole mode
                    self.m().intersects = true;
                    self.m().count = 10;
                }
                self.m().mode = name;
            }
            Act::Type(n, t) => {
                if self.cur == 1 || (n == 1 && self.cur == 0 && self.m().mode != "Offset") {
                    return Ok(false);
                }
                self.sim.type_number(n, t)?;
                let v: f64 = t.parse().unwrap();
                if n == 0 {
                    self.m().offset = v.clamp(-100.0, 100.0);
                } else {
                    self.m().count = v.clamp(0.0, 100.0) as usize;
                }
            }
            Act::Check(s) => {
                let there = match s {
                    "Handle Self Intersects" => self.cur == 0 && self.m().mode == "Offset",
                    _ => self.cur == 1,
                };
                if !there {
                    return Ok(false);
                }
                self.sim.click(s)?;
                let m = self.m();
                match s {
                    "Handle Self Intersects" => m.intersects = !m.intersects,
                    "Fill" => m.fill = !m.fill,
                    _ => m.marks = !m.marks,
                }
            }
            Act::Fit => {
                self.sim.click("Zoom to Fit")?;
                self.m().fitted = true;
                self.m().map = None;
            }
            Act::Drag(pi, vi, dx, dy) => {
                let Some(q) = self.vertex(pi, vi) else { return Ok(false) };
                if !self.clear(pi, vi, q) {
                    return Ok(false);
                }
                let to = q + p(dx as f64, dy as f64);
                if !self.allowed(pi, vi, to) {
                    return Ok(false);
                }
                self.sim.drag(at(q), at(to));
                let m = self.m();
                let v = m.map.unwrap().back(to);
                let b = m.plines[pi].v[vi].b;
                m.plines[pi].v[vi] = vx(v.x, v.y, b);
            }
            Act::Onto(pi, vi) => {
                if self.m().scene == Scene::Multi {
                    return Ok(false);
                }
                let n = self.m().plines.get(pi).map(|a| a.v.len()).unwrap_or(0);
                let (Some(q), Some(to)) = (self.vertex(pi, vi), if n > 0 { self.vertex(pi, (vi + 1) % n) } else { None }) else {
                    return Ok(false);
                };
                if !self.clear(pi, vi, q) {
                    return Ok(false);
                }
                if !self.allowed(pi, vi, to) {
                    return Ok(false);
                }
                self.sim.drag(at(q), at(to));
                let m = self.m();
                let v = m.map.unwrap().back(to);
                let b = m.plines[pi].v[vi].b;
                m.plines[pi].v[vi] = vx(v.x, v.y, b);
            }
            Act::Pan(dx, dy) => {
                let (Some(map), Some(c)) = (self.m().map, self.sim.clip) else { return Ok(false) };
                // an empty spot
                let spot = (0..60)
                    .map(|i| p(c.min.x as f64 + 60.0 + 55.0 * (i % 9) as f64, c.min.y as f64 + 60.0 + 50.0 * (i / 9) as f64))
                    .find(|q| self.m().verts().iter().all(|v| map.px(*v).dist(*q) > 40.0));
                let Some(q) = spot else { return Ok(false) };
                self.sim.drag(at(q), at(q) + egui::vec2(dx, dy));
                self.m().map = Some(Map { k: map.k, o: map.o + p(dx as f64, dy as f64) });
            }
            Act::Wheel(dy) => {
                let Some(c) = self.sim.clip else { return Ok(false) };
                self.sim.wheel(c.center(), dy);
                self.m().map = None;
            }
        }
        Ok(true)
    }
    fn check(&mut self, r: &mut Rec) -> Result<(), String> {
        self.refit()?;
        let m = self.all[self.cur].as_ref().unwrap();
        let d = self.sim.drawn.as_ref().map_err(|e| e.clone())?;
        let Some(map) = m.map else {
            r.class("view unknown");
            return if m.marks && m.fitted { Err("not every vertex is marked after zooming to fit".into()) } else { Ok(()) };
        };
        let (curves, fills) = m.expected();
        // the marks
        let clip = self.sim.clip.ok_or("nothing is plotted")?;
        let v = View { lo: p(0.0, 0.0), hi: p(1.0, 1.0), frame: clip };
        let mut want: Vec<(P, Color32)> = vec![];
        if m.marks {
            for (q, c) in m.marks() {
                let s = map.px(q);
                if v.sees(s, 0.5) {
                    want.push((s, c));
                } else if v.sees(s, -0.5) {
                    r.class("vertex on the border");
                    return Ok(());
                }
            }
        }
        let got: Vec<_> = d.dots.iter().filter(|x| m.mark_colors().contains(&x.2)).collect();
        if got.len() != want.len() {
            return Err(format!("{} vertexes are marked instead of {}", got.len(), want.len()));
        }
        for (q, c) in &want {
            let near = got.iter().filter(|x| x.2 == *c).map(|x| x.0.dist(*q)).fold(f64::INFINITY, f64::min);
            if near > 0.1 {
                return Err(format!("the vertex at pixel ({:.2},{:.2}) is marked {near:.2} pixels off", q.x, q.y));
            }
        }
        // the curves
        let on = |a: &Path| a.map(|q| map.px(q), true).segs();
        let mut colors: Vec<Color32> = vec![];
        for (c, list) in &curves {
            let segs: Vec<Seg> = list.iter().flat_map(on).collect();
            colors.push(*c);
            stroke_matches(d, *c, &segs, &v).map_err(|e| format!("{c:?}: {e}"))?;
            if m.fitted {
                for s in &segs {
                    for k in 0..8 {
                        let q = s.at(k as f64 / 8.0);
                        if !v.sees(q, -0.5) {
                            return Err(format!("the curve at pixel ({:.2},{:.2}) is outside after zooming to fit", q.x, q.y));
                        }
                    }
                }
            }
        }
        // the filled regions
        let border: Vec<Seg> = m.plines.iter().flat_map(on).collect();
        let ok_input = m.plines.iter().all(|a| is_simple(a, 1e-6));
        for (c, inside) in &fills {
            colors.push(*c);
            if !ok_input {
                r.class("input crosses itself");
                continue;
            }
            let tris: Vec<&Tri> = d.tris.iter().filter(|t| t.color == *c).collect();
            for i in 0..41 * 31 {
                let q = p(
                    clip.min.x as f64 + clip.width() as f64 * ((i % 41) as f64 + 0.43) / 41.0,
                    clip.min.y as f64 + clip.height() as f64 * ((i / 41) as f64 + 0.57) / 31.0,
                );
                if dist_segs(&border, q) < 0.8 {
                    continue;
                }
                let (w, g) = (inside(map.back(q)), tris.iter().any(|t| t.has(q)));
                if w != g {
                    return Err(format!("pixel ({:.2},{:.2}) is {}filled in {c:?}", q.x, q.y, if g { "" } else { "not " }));
                }
            }
        }
        if let Some(t) = d.tris.iter().find(|t| !colors.contains(&t.color)) {
            return Err(format!("something is drawn in {:?} which the scene does not show", t.color));
        }
        r.class(if m.fitted { "compared, fitted" } else { "compared" });
        Ok(())
    }
}
impl Sim {
    fn click_combo(&mut self, now: &str) -> Result<(), String> {
        // the combo box is the topmost text of the side panel with that name
        let x0 = self.find("Zoom to Fit").ok_or("no side panel")?.min.x - 30.0;
        let at = self
            .texts
            .iter()
            .filter(|t| t.0 == now && t.1.min.x > x0)
            .map(|t| t.1)
            .min_by(|a, b| a.min.y.total_cmp(&b.min.y))
            .ok_or(format!("the mode '{now}' is not shown"))?;
        self.click_at(at.center());
        Ok(())
    }
}
fn modes(s: Scene) -> &'static [&'static str] {
    match s {
        Scene::Offset => &["Offset", "Raw Offset", "Raw Offset Segments"],
        Scene::Boolean => &["None", "Or", "And", "Not", "Xor"],
        Scene::Multi => &[],
    }
}

fn alphabet(s: Scene, thorough: bool) -> Vec<Act> {
    let mut o = vec![Act::Fit, Act::Pan(36.0, -27.0), Act::Wheel(-60.0)];
    match s {
        Scene::Offset => {
            o.extend([
                Act::Tab(Scene::Boolean),
                Act::Mode("Offset"),
                Act::Mode("Raw Offset"),
                Act::Mode("Raw Offset Segments"),
                Act::Type(0, "-1.5"),
                Act::Type(0, "0"),
                Act::Type(0, "4"),
                Act::Type(1, "0"),
                Act::Type(1, "1"),
                Act::Type(1, "3"),
                Act::Check("Handle Self Intersects"),
                Act::Drag(0, 6, -180.0, 40.0),
                Act::Drag(0, 2, 60.0, -110.0),
                Act::Onto(0, 6),
            ]);
            if thorough {
                o.extend([Act::Type(0, "250"), Act::Drag(0, 0, 10.0, 130.0), Act::Onto(0, 2), Act::Wheel(80.0)]);
            }
        }
        Scene::Boolean => {
            o.extend([
                Act::Tab(Scene::Multi),
                Act::Tab(Scene::Offset),
                Act::Mode("None"),
                Act::Mode("Or"),
                Act::Mode("And"),
                Act::Mode("Not"),
                Act::Mode("Xor"),
                Act::Check("Fill"),
                Act::Check("Show Vertexes"),
                Act::Drag(0, 6, -170.0, 30.0),
                Act::Drag(1, 6, 120.0, -60.0),
                Act::Drag(0, 1, 120.0, 20.0),
                Act::Onto(0, 6),
            ]);
            if thorough {
                o.extend([Act::Drag(1, 6, -150.0, 20.0), Act::Onto(1, 6), Act::Wheel(80.0)]);
            }
        }
        Scene::Multi => {
            o.extend([
                Act::Tab(Scene::Boolean),
                Act::Type(0, "-3"),
                Act::Type(0, "7.5"),
                Act::Type(0, "0"),
                Act::Type(1, "0"),
                Act::Type(1, "1"),
                Act::Type(1, "4"),
                Act::Drag(1, 2, 40.0, -60.0),
                Act::Drag(2, 1, -30.0, -40.0),
                Act::Drag(0, 6, -90.0, 20.0),
                Act::Drag(1, 0, 20.0, -25.0),
            ]);
            if thorough {
                o.extend([Act::Type(0, "-100"), Act::Drag(4, 0, 25.0, -5.0), Act::Drag(3, 1, -20.0, 5.0)]);
            }
        }
    }
    o
}

pub fn p29(cx: &Ctx) -> i32 {
    for (name, s) in [("offset-scene", Scene::Offset), ("boolean-scene", Scene::Boolean), ("multi-scene", Scene::Multi)] {
        let al = alphabet(s, cx.thorough);
        let n = al.len();
        for depth in 0..=if cx.thorough { 4 } else { 3 } {
            let total = n.pow(depth);
            cx.space(&format!("{name}-{depth}"), total, |i, r| {
                let mut acts = vec![];
                let mut k = i;
                for _ in 0..depth {
                    acts.push(al[k % n]);
                    k /= n;
                }
                r.case(|| format!("{s:?} scene, actions {acts:?}"));
                let mut w = World::new();
                if s != Scene::Offset {
                    if let Err(e) = w.act(Act::Tab(s)) {
                        return r.fail("action", e);
                    }
                    let _ = w.refit();
                }
                for (j, a) in acts.iter().enumerate() {
                    r.call();
                    match w.act(*a) {
                        Ok(true) => {}
                        Ok(false) => r.class("action not possible here"),
                        Err(e) => return r.fail("action", format!("action {}: {e}", j + 1)),
                    }
                    // prefixes are states of their own; only the view is kept up with here
                    if j + 1 < acts.len() {
                        let e = w.refit();
                        r.check(e.is_ok(), "view", || e.clone().unwrap_err());
                    }
                }
                let e = w.check(r);
                r.check(e.is_ok(), "screen", || e.clone().unwrap_err());
            });
        }
    }
    cx.finish("one state per sequence of user actions (tabs, modes, typed values, check boxes, zoom, pan, vertex drags) of each scene up to depth 3 (thorough 4), replayed on the real app without a window; the final screen is compared with a model of the scene")
}
