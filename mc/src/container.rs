//! P20 the polyline container: every operation from every model state, and every operation sequence
//! up to a depth on one living object, against a plain vector of vertices plus a closed flag.
use crate::run::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use cavalier_contours::{pline_closed, pline_open};

type V = [f64; 3];
/// second is within EPS of the first, fourth is within EPS of the third in x only
const ALPHA: [V; 4] = [[0.0, 0.0, 0.0], [3e-6, -3e-6, 0.5], [1.0, 0.0, -1.0], [1.0, 1.0, 1.0]];
const EPS: f64 = 1e-5;

#[derive(Clone, Debug, PartialEq)]
struct Model {
    v: Vec<V>,
    closed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(usize),
    AddVertex(usize),
    AddArray(usize),
    AddOrReplace(usize),
    AddOrReplaceVertex(usize),
    Insert(usize, usize),
    InsertVertex(usize, usize),
    Set(usize, usize),
    SetVertex(usize, usize),
    SetLast(usize),
    IndexMut(usize, usize),
    Remove(usize),
    RemoveLast,
    Clear,
    Closed(bool),
    Reserve(usize),
    Extend(usize),
    ExtendVertexes(usize),
    ExtendRemoveRepeat(usize),
    ExtendSelf,
    Clone,
    Recreate,
    RecreateRemoveRepeat,
    FromIter,
}

/// polylines appended by the extend operations
fn others() -> [Vec<V>; 4] {
    let a = ALPHA;
    [vec![], vec![a[1]], vec![a[0], a[1], a[2]], vec![a[3], a[2], a[2], a[0]]]
}

fn ops(max_index: usize) -> Vec<Op> {
    let mut o = vec![];
    for a in 0..ALPHA.len() {
        o.extend([Op::Add(a), Op::AddVertex(a), Op::AddArray(a), Op::AddOrReplace(a), Op::AddOrReplaceVertex(a), Op::SetLast(a)]);
        for i in 0..=max_index {
            o.extend([Op::Insert(i, a), Op::InsertVertex(i, a), Op::Set(i, a), Op::SetVertex(i, a), Op::IndexMut(i, a)]);
        }
    }
    for i in 0..=max_index {
        o.push(Op::Remove(i));
    }
    o.extend([Op::RemoveLast, Op::Clear, Op::Closed(true), Op::Closed(false), Op::Reserve(0), Op::Reserve(7)]);
    for k in 0..4 {
        o.extend([Op::Extend(k), Op::ExtendVertexes(k), Op::ExtendRemoveRepeat(k)]);
    }
    o.extend([Op::ExtendSelf, Op::Clone, Op::Recreate, Op::RecreateRemoveRepeat, Op::FromIter]);
    o
}

fn near(a: &V, b: &V) -> bool {
    (a[0] - b[0]).abs() < EPS && (a[1] - b[1]).abs() < EPS
}
fn push_or_replace(v: &mut Vec<V>, x: V) {
    match v.last_mut() {
        Some(l) if near(l, &x) => l[2] = x[2],
        _ => v.push(x),
    }
}

impl Model {
    /// None when the arguments are out of the operation's domain
    fn apply(&self, op: Op) -> Option<Model> {
        let mut m = self.clone();
        let n = m.v.len();
        match op {
            Op::Add(a) | Op::AddVertex(a) | Op::AddArray(a) => m.v.push(ALPHA[a]),
            Op::AddOrReplace(a) | Op::AddOrReplaceVertex(a) => push_or_replace(&mut m.v, ALPHA[a]),
            Op::Insert(i, a) | Op::InsertVertex(i, a) => {
                if i > n {
                    return None;
                }
                m.v.insert(i, ALPHA[a])
            }
            Op::Set(i, a) | Op::SetVertex(i, a) | Op::IndexMut(i, a) => {
                if i >= n {
                    return None;
                }
                m.v[i] = ALPHA[a]
            }
            Op::SetLast(a) => *m.v.last_mut()? = ALPHA[a],
            Op::Remove(i) => {
                if i >= n {
                    return None;
                }
                m.v.remove(i);
            }
            Op::RemoveLast => {
                m.v.pop()?;
            }
            Op::Clear => m.v.clear(),
            Op::Closed(c) => m.closed = c,
            Op::Reserve(_) | Op::Clone | Op::Recreate | Op::FromIter => {}
            Op::Extend(k) | Op::ExtendVertexes(k) => m.v.extend(others()[k].iter().cloned()),
            Op::ExtendRemoveRepeat(k) => {
                for x in &others()[k] {
                    push_or_replace(&mut m.v, *x);
                }
            }
            Op::ExtendSelf => {
                let w = m.v.clone();
                m.v.extend(w);
            }
            Op::RecreateRemoveRepeat => {
                let mut v = vec![];
                for x in &m.v {
                    push_or_replace(&mut v, *x);
                }
                if m.closed && v.len() >= 2 && near(&v[0], v.last().unwrap()) {
                    v.pop();
                }
                m.v = v;
            }
        }
        Some(m)
    }
    fn build(&self) -> Polyline<f64> {
        let mut q = Polyline::new();
        q.is_closed = self.closed;
        q.vertex_data = self.v.iter().map(|v| PlineVertex { x: v[0], y: v[1], bulge: v[2] }).collect();
        q
    }
    fn state(q: &Polyline<f64>) -> Model {
        Model { v: q.vertex_data.iter().map(|v| [v.x, v.y, v.bulge]).collect(), closed: q.is_closed }
    }
    fn show(&self) -> String {
        format!("{}{:?}", if self.closed { "closed" } else { "open" }, self.v)
    }
}

fn vert(a: usize) -> PlineVertex<f64> {
    PlineVertex::new(ALPHA[a][0], ALPHA[a][1], ALPHA[a][2])
}
fn arr(v: PlineVertex<f64>) -> V {
    [v.x, v.y, v.bulge]
}

/// executes op on the real object; returned vertex (for removals)
fn exec(q: &mut Polyline<f64>, op: Op) -> Option<V> {
    let w = |k: usize| Model { v: others()[k].clone(), closed: k % 2 == 0 }.build();
    match op {
        Op::Add(a) => q.add(ALPHA[a][0], ALPHA[a][1], ALPHA[a][2]),
        Op::AddVertex(a) => q.add_vertex(vert(a)),
        Op::AddArray(a) => q.add_from_array(ALPHA[a]),
        Op::AddOrReplace(a) => q.add_or_replace(ALPHA[a][0], ALPHA[a][1], ALPHA[a][2], EPS),
        Op::AddOrReplaceVertex(a) => q.add_or_replace_vertex(vert(a), EPS),
        Op::Insert(i, a) => q.insert(i, ALPHA[a][0], ALPHA[a][1], ALPHA[a][2]),
        Op::InsertVertex(i, a) => q.insert_vertex(i, vert(a)),
        Op::Set(i, a) => q.set(i, ALPHA[a][0], ALPHA[a][1], ALPHA[a][2]),
        Op::SetVertex(i, a) => q.set_vertex(i, vert(a)),
        Op::SetLast(a) => q.set_last(vert(a)),
        Op::IndexMut(i, a) => q[i] = vert(a),
        Op::Remove(i) => return Some(arr(q.remove(i))),
        Op::RemoveLast => return Some(arr(q.remove_last())),
        Op::Clear => q.clear(),
        Op::Closed(c) => q.set_is_closed(c),
        Op::Reserve(k) => q.reserve(k),
        Op::Extend(k) => q.extend(&w(k)),
        Op::ExtendVertexes(k) => q.extend_vertexes(w(k).iter_vertexes()),
        Op::ExtendRemoveRepeat(k) => q.extend_remove_repeat(&w(k), EPS),
        Op::ExtendSelf => {
            let c = q.clone();
            q.extend(&c)
        }
        Op::Clone => {
            let c = q.clone();
            q.clear(); // the clone owns its data
            q.add(9.0, 9.0, 9.0);
            *q = c
        }
        Op::Recreate => {
            let c = Polyline::create_from(q);
            q.clear();
            *q = c
        }
        Op::RecreateRemoveRepeat => *q = Polyline::create_from_remove_repeat(q, EPS),
        Op::FromIter => *q = Polyline::from_iter(q.clone().iter_vertexes(), q.is_closed()),
    }
    None
}

/// every read of the container against the model
fn read(r: &mut Rec, q: &Polyline<f64>, m: &Model) {
    let n = m.v.len();
    r.check(Model::state(q) == *m, "vertexes and closed flag", || format!("{:?} want {}", q, m.show()));
    r.check(q.vertex_count() == n && q.is_empty() == (n == 0) && q.is_closed() == m.closed, "count and flags", || format!("{q:?}"));
    let got: Vec<Option<V>> = (0..n + 2).map(|i| q.get(i).map(arr)).collect();
    r.check((0..n + 2).all(|i| got[i] == m.v.get(i).cloned()), "get", || format!("{got:?}"));
    r.check((0..n).all(|i| arr(q.at(i)) == m.v[i] && arr(q[i]) == m.v[i]), "at and index", || format!("{q:?}"));
    r.check(q.last().map(arr) == m.v.last().cloned(), "last", || format!("{:?}", q.last()));
    let sc = if n < 2 { 0 } else if m.closed { n } else { n - 1 };
    r.check(q.segment_count() == sc, "segment count", || format!("{} want {sc}", q.segment_count()));
    // segments, with the length reported at each step
    let mut it = q.iter_segments();
    for k in 0..sc {
        r.check(it.len() == sc - k && it.size_hint() == (sc - k, Some(sc - k)), "segments left", || format!("at {k}: {:?} of {sc}", it.size_hint()));
        let c = it.clone();
        r.check(c.count() == sc - k, "clone of a segment iterator continues there", || format!("at {k}"));
        let s = it.next();
        let w = (m.v[k], m.v[(k + 1) % n]);
        r.check(s.map(|s| (arr(s.0), arr(s.1))) == Some(w), "segment", || format!("{k}: {s:?} want {w:?}"));
    }
    r.check(it.size_hint() == (0, Some(0)) && it.next().is_none() && it.next().is_none() && it.size_hint() == (0, Some(0)), "segments end", || format!("{:?}", it.size_hint()));
    // visitors made from closures see the arguments
    let mut seen: Vec<(PlineVertex<f64>, PlineVertex<f64>)> = vec![];
    let mut corners: Vec<PlineVertex<f64>> = vec![];
    {
        let mut on_seg = |a: PlineVertex<f64>, b: PlineVertex<f64>| seen.push((a, b));
        let mut on_vertex = |a: PlineVertex<f64>| corners.push(a);
        for (a, b) in q.iter_segments() {
            PlineSegVisitor::<f64, ()>::visit_seg(&mut on_seg, a, b);
        }
        for a in q.iter_vertexes() {
            PlineVertexVisitor::<f64, ()>::visit_vertex(&mut on_vertex, a);
        }
    }
    let same = seen.len() == sc && seen.iter().enumerate().all(|(k, s)| (arr(s.0), arr(s.1)) == (m.v[k], m.v[(k + 1) % n]));
    r.check(same && corners.iter().map(|v| arr(*v)).eq(m.v.iter().cloned()), "closure visitors", || format!("{seen:?} {corners:?}"));
    let mut it = q.iter_segment_indexes();
    for k in 0..sc {
        r.check(it.size_hint() == (sc - k, Some(sc - k)), "segment indexes left", || format!("at {k}: {:?} of {sc}", it.size_hint()));
        let s = it.next();
        r.check(s == Some((k, (k + 1) % n)), "segment index", || format!("{k}: {s:?}"));
    }
    r.check(it.next().is_none() && it.next().is_none() && it.size_hint() == (0, Some(0)), "segment indexes end", || format!("{:?}", it.size_hint()));
    // vertex iterator: every interleaving of front and back reads
    let words = if n <= 4 { 1usize << (n + 1) } else { 4 };
    for w in 0..words {
        let mut it = q.iter_vertexes();
        let (mut lo, mut hi) = (0, n);
        for k in 0..=n {
            let left = hi - lo;
            if !r.check(it.len() == left && it.size_hint() == (left, Some(left)), "vertexes left", || format!("word {w:b} at {k}: {:?} want {left}", it.size_hint())) {
                return;
            }
            let front = w >> k & 1 == 0;
            let got = if front { it.next() } else { it.next_back() };
            let want = if left == 0 {
                None
            } else if front {
                lo += 1;
                Some(m.v[lo - 1])
            } else {
                hi -= 1;
                Some(m.v[hi])
            };
            r.check(got.map(arr) == want, "vertex from either end", || format!("word {w:b} at {k}: {got:?} want {want:?}"));
            let rest: Vec<V> = it.clone().map(arr).collect();
            r.check(rest == m.v[lo..hi], "clone of a vertex iterator continues there", || format!("word {w:b} at {k}: {rest:?}"));
        }
    }
    // wrapping helpers
    for i in 0..n {
        r.check(q.next_wrapping_index(i) == (i + 1) % n && q.prev_wrapping_index(i) == (i + n - 1) % n, "next and previous index", || format!("{i} of {n}"));
        for j in 0..n {
            r.check(q.fwd_wrapping_dist(i, j) == (j + n - i) % n, "forward distance", || format!("{i}->{j} of {n}"));
        }
        for k in 0..=n {
            r.check(q.fwd_wrapping_index(i, k) == (i + k) % n, "forward index", || format!("{i}+{k} of {n}"));
        }
    }
    // comparison
    let c = q.clone();
    r.check(q.fuzzy_eq(&c) && q.fuzzy_eq_eps(&c, 1e-12), "equal to its clone", || format!("{q:?}"));
    let mut d = q.clone();
    d.is_closed = !d.is_closed;
    r.check(!q.fuzzy_eq(&d), "closed flag takes part in comparison", || String::new());
    let mut d = q.clone();
    d.vertex_data.push(PlineVertex::new(0.0, 0.0, 0.0));
    r.check(!q.fuzzy_eq(&d) && !d.fuzzy_eq(q), "vertex count takes part in comparison", || String::new());
    for i in 0..n {
        for k in 0..3 {
            for (by, eq) in [(0.4, true), (-0.4, true), (2.5, false), (-2.5, false)] {
                let mut d = q.clone();
                let e = 1e-3;
                let v = &mut d.vertex_data[i];
                *[&mut v.x, &mut v.y, &mut v.bulge][k] += by * e;
                r.check(
                    q.fuzzy_eq_eps(&d, e) == eq && d.fuzzy_eq_eps(q, e) == eq && !q.fuzzy_eq(&d),
                    "comparison within epsilon",
                    || format!("component {k} of {i} moved by {by} epsilon"),
                );
                let (a, b) = (q.at(i), d.at(i));
                r.check(a.fuzzy_eq_eps(b, e) == eq && b.fuzzy_eq_eps(a, e) == eq && !a.fuzzy_eq(b), "vertex comparison within epsilon", || format!("component {k} of {i} moved by {by} epsilon"));
            }
        }
    }
}

fn step(r: &mut Rec, q: &mut Polyline<f64>, m: &Model, op: Op) -> Option<Model> {
    let next = m.apply(op)?;
    let out = exec(q, op);
    r.call();
    let want = match op {
        Op::Remove(i) => Some(m.v[i]),
        Op::RemoveLast => m.v.last().cloned(),
        _ => None,
    };
    r.check(out == want, "removed vertex", || format!("{op:?} on {}: {out:?}", m.show()));
    if matches!(op, Op::Reserve(_)) {
        if let Op::Reserve(k) = op {
            r.check(q.vertex_data.capacity() >= q.vertex_data.len() + k, "reserved capacity", || format!("{}", q.vertex_data.capacity()));
        }
    }
    Some(next)
}

pub fn p20(cx: &Ctx) -> i32 {
    // every operation from every state up to a size
    let top = if cx.deep { 7 } else { 6 };
    let mut states = vec![];
    for n in 0..=top {
        crate::gen::words(ALPHA.len(), n, |w| {
            for closed in [false, true] {
                states.push(Model { v: w.iter().map(|a| ALPHA[*a]).collect(), closed });
            }
        });
    }
    let all = ops(top + 1);
    cx.space("operations-from-every-state", states.len(), |i, r| {
        let m = &states[i];
        r.case(|| m.show());
        read(r, &m.build(), m);
        for op in &all {
            let mut q = m.build();
            let Some(next) = step(r, &mut q, m, *op) else {
                r.class("out-of-domain");
                continue;
            };
            r.case(|| format!("{} then {op:?}", m.show()));
            r.class("applied");
            if Model::state(&q) != next || matches!(op, Op::Clone | Op::Recreate | Op::FromIter) {
                read(r, &q, &next);
            } else {
                r.ok();
            }
            if r.failed() {
                return;
            }
        }
        // views and other sources as operands
        if m.v.len() >= 2 && !(m.v.len() == 2 && near(&m.v[0], &m.v[1])) {
            let src = m.build();
            let ends_apart = !near(&m.v[m.v.len() - 2], m.v.last().unwrap()) && (!m.closed || !near(&m.v[0], m.v.last().unwrap()));
            if ends_apart {
                let d = PlineViewData::from_entire_pline(&src);
                let view = d.view(&src);
                let mut want = Model { v: m.v.clone(), closed: false };
                if m.closed {
                    let f = m.v[0];
                    want.v.push(f);
                }
                let l = want.v.len() - 1;
                want.v[l][2] = 0.0;
                let c = Polyline::create_from(&view);
                r.call();
                r.check(Model::state(&c) == want, "create from a view", || format!("{c:?} want {}", want.show()));
                let mut e = m.build();
                e.extend(&view);
                let mut w2 = m.clone();
                w2.v.extend(want.v.iter().cloned());
                r.check(Model::state(&e) == w2, "extend from a view", || format!("{e:?}"));
            }
        }
    });

    // every sequence on one object
    let depth = if cx.deep { 7 } else { 6 };
    let few = [
        Op::Add(0), Op::AddVertex(2), Op::AddOrReplace(1), Op::AddOrReplaceVertex(0), Op::Insert(0, 3), Op::Insert(1, 2), Op::Set(0, 1),
        Op::SetLast(2), Op::Remove(0), Op::RemoveLast, Op::Clear, Op::Closed(true), Op::Closed(false), Op::Extend(2), Op::ExtendRemoveRepeat(3),
        Op::ExtendSelf, Op::RecreateRemoveRepeat, Op::Clone, Op::AddArray(3), Op::Reserve(7),
    ];
    let b = few.len();
    let n = b.pow(depth as u32);
    let starts: [fn() -> (Polyline<f64>, bool); 6] = [
        || (Polyline::new(), false),
        || (Polyline::new_closed(), true),
        || (Polyline::with_capacity(2, true), true),
        || (Polyline::empty(), false),
        || (Polyline::default(), false),
        || (Polyline::with_capacity(0, false), false),
    ];
    cx.space("operation-sequences", n, |ix, r| {
        let mut w = vec![];
        let mut k = ix;
        for _ in 0..depth {
            w.push(few[k % b]);
            k /= b;
        }
        // the last start kinds are covered at a lower depth by the common prefixes
        let st = starts[ix % starts.len()];
        let (mut q, closed) = st();
        let mut m = Model { v: vec![], closed };
        r.case(|| format!("start {} then {w:?}", ix % starts.len()));
        r.check(Model::state(&q) == m, "new polyline is empty", || format!("{q:?}"));
        for op in &w {
            let Some(next) = step(r, &mut q, &m, *op) else { return };
            m = next;
            if Model::state(&q) != m {
                r.fail("state after a sequence", format!("after {op:?}: {q:?} want {}", m.show()));
                return;
            }
        }
        r.class("complete");
        r.ok();
        if ix % 16 == 0 {
            read(r, &q, &m);
        }
    });

    // vertexes
    let vals: [f64; 11] = [0.0, -0.0, 1.0, -1.0, 1e-9, -1e-9, 1e-7, -1e-7, 0.5, -2.25, 1e6];
    cx.space("vertexes", vals.len() * vals.len() * vals.len(), |ix, r| {
        let n = vals.len();
        let (x, y, b) = (vals[ix % n], vals[ix / n % n], vals[ix / n / n]);
        r.case(|| format!("({x},{y},{b})"));
        let v = PlineVertex::new(x, y, b);
        let five = [x, y, b, x, y];
        r.call();
        for k in 0..=5 {
            let s = PlineVertex::from_slice(&five[..k]);
            r.check(s.is_some() == (k == 3) && s.map(|s| s == v).unwrap_or(true), "from slice", || format!("{k}: {s:?}"));
        }
        r.check(PlineVertex::from_vector2(Vector2::new(x, y), b) == v && v.pos() == Vector2::new(x, y), "position", || format!("{v:?}"));
        r.check(v.with_bulge(3.5) == PlineVertex::new(x, y, 3.5), "with bulge", || format!("{v:?}"));
        r.check(v.bulge_is_zero() == (b.abs() < 1e-8) && v.bulge_is_pos() == (b > 0.0) && v.bulge_is_neg() == (b < 0.0), "bulge predicates", || format!("{v:?}"));
        r.check(format!("{v}") == format!("[{x}, {y}, {b}]"), "display", || format!("{v}"));
        let p3 = pline_closed![(x, y, b), (y, b, x), (b, x, y)];
        let p2 = pline_open![(x, y, b), (y, b, x)];
        r.check(
            p3.is_closed && Model::state(&p3).v == [[x, y, b], [y, b, x], [b, x, y]] && !p2.is_closed && Model::state(&p2).v == [[x, y, b], [y, b, x]],
            "construction macros",
            || format!("{p3:?} {p2:?}"),
        );
    });
    cx.note("States: all vertex words up to the stated length over 4 vertexes (one pair within the epsilon) x closed flag; operations outside their documented domain (index out of range, last of an empty polyline) are not executed.");
    cx.finish("a case is (state, operation) or (operation sequence on one object); after it every read of the container is compared with the model")
}
