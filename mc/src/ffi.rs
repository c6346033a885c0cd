//! P21 the C interface as a state machine over handles; P22 its geometry against the Rust library.
use crate::gen::*;
use crate::geo::*;
use crate::query::Q8;
use crate::run::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use cavalier_contours_ffi::*;
use std::ptr::{null, null_mut};

type V = [f64; 3];

fn cv(v: &V) -> cavc_vertex {
    cavc_vertex::new(v[0], v[1], v[2])
}
fn poly(v: &[V], closed: bool) -> Polyline<f64> {
    let mut q = Polyline::new();
    q.is_closed = closed;
    for w in v {
        q.vertex_data.push(PlineVertex::new(w[0], w[1], w[2]));
    }
    q
}
fn vs(q: &Polyline<f64>) -> Vec<V> {
    q.vertex_data.iter().map(|v| [v.x, v.y, v.bulge]).collect()
}

// ---------------------------------------------------------------- P21
const DATA: [&[V]; 3] = [
    &[],
    &[[0.0, 0.0, 0.0], [2.0, 0.0, 0.5], [2.0, 1.0, -0.25]],
    &[[1.0, 1.0, 1.0], [1.0, 1.0, 0.0], [3.0, 1.0, 0.0], [4.0, 1.0, 0.0], [4.0, 3.0, 0.0]],
];
const NEWV: V = [7.0, -3.0, 0.125];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Create(usize, usize, u8),
    Free(usize),
    CloneTo(usize, usize),
    SetClosed(usize, u8),
    Reserve(usize, u32),
    SetData(usize, usize, u32),
    Clear(usize),
    Add(usize),
    Set(usize, Pos),
    Remove(usize, Pos),
    Invert(usize),
    Scale(usize),
    Translate(usize),
    RemoveRepeat(usize),
    RemoveRedundant(usize),
    ListMake(u8),
    ListFree,
    ListPop(usize),
    ListTake(usize, Pos),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pos {
    First,
    Second,
    Last,
    Len,
    Max,
}
impl Pos {
    fn of(self, n: usize) -> u32 {
        match self {
            Pos::First => 0,
            Pos::Second => 1,
            Pos::Last => n.saturating_sub(1) as u32,
            Pos::Len => n as u32,
            Pos::Max => u32::MAX,
        }
    }
}

struct World {
    h: [*const cavc_pline; 2],
    list: *const cavc_plinelist,
}
#[derive(Clone)]
struct Model {
    h: [Option<(Vec<V>, bool)>; 2],
    list: Option<Vec<(Vec<V>, bool)>>,
}

fn alphabet(wide: bool) -> Vec<Op> {
    let mut o = vec![];
    for s in 0..2 {
        o.extend([
            Op::Create(s, 0, 1),
            Op::Create(s, 1, 0),
            Op::Create(s, 2, 255),
            Op::Free(s),
            Op::CloneTo(s, 1 - s),
            Op::SetClosed(s, 1),
            Op::SetClosed(s, 0),
            Op::SetData(s, 1, 2),
            Op::Clear(s),
            Op::Add(s),
            Op::Set(s, Pos::Last),
            Op::Set(s, Pos::Len),
            Op::Remove(s, Pos::First),
            Op::Remove(s, Pos::Len),
            Op::Invert(s),
            Op::RemoveRepeat(s),
            Op::ListPop(s),
            Op::ListTake(s, Pos::First),
            Op::ListTake(s, Pos::Second),
            Op::ListTake(s, Pos::Len),
        ]);
        if wide {
            o.extend([
                Op::Reserve(s, 0),
                Op::Reserve(s, 9),
                Op::SetData(s, 2, 0),
                Op::SetData(s, 2, 5),
                Op::Set(s, Pos::First),
                Op::Set(s, Pos::Max),
                Op::Remove(s, Pos::Last),
                Op::Remove(s, Pos::Second),
                Op::Remove(s, Pos::Max),
                Op::Scale(s),
                Op::Translate(s),
                Op::RemoveRedundant(s),
                Op::SetClosed(s, 128),
                Op::ListTake(s, Pos::Max),
                Op::ListTake(s, Pos::Last),
            ]);
        }
    }
    o.extend([Op::ListMake(0), Op::ListMake(1), Op::ListMake(2), Op::ListFree]);
    o
}

fn list_source(kind: u8) -> Vec<Polyline<f64>> {
    match kind {
        0 => vec![],
        1 => vec![poly(DATA[1], true)],
        _ => vec![poly(DATA[1], true), poly(DATA[2], false), poly(DATA[0], true)],
    }
}

/// None: the operation does not apply here (would overwrite a handle or create a second list).
/// Some((status expected, next model))
fn model_step(m: &Model, op: Op) -> Option<(i32, Model)> {
    let mut n = m.clone();
    let mut code = 0;
    macro_rules! on {
        ($s:expr, |$v:ident, $c:ident| $body:expr) => {
            match &mut n.h[$s] {
                None => code = 1,
                Some(($v, $c)) => {
                    let _ = &$c;
                    $body
                }
            }
        };
    }
    fn via(v: &mut Vec<V>, c: &mut bool, f: impl FnOnce(&mut Polyline<f64>)) {
        let mut q = poly(v, *c);
        f(&mut q);
        *v = vs(&q);
        *c = q.is_closed;
    }
    match op {
        Op::Create(s, k, c) => {
            if n.h[s].is_some() {
                return None;
            }
            n.h[s] = Some((DATA[k].to_vec(), c != 0));
        }
        Op::Free(s) => n.h[s] = None,
        Op::CloneTo(s, t) => {
            if n.h[t].is_some() {
                return None;
            }
            match &n.h[s] {
                None => code = 1,
                Some(x) => n.h[t] = Some(x.clone()),
            }
        }
        Op::SetClosed(s, c) => on!(s, |_v, f| *f = c != 0),
        Op::Reserve(s, _) => on!(s, |_v, _c| {}),
        Op::SetData(s, k, cnt) => on!(s, |v, _c| *v = DATA[k][..cnt as usize].to_vec()),
        Op::Clear(s) => on!(s, |v, _c| v.clear()),
        Op::Add(s) => on!(s, |v, _c| v.push(NEWV)),
        Op::Set(s, p) => on!(s, |v, _c| {
            let k = p.of(v.len()) as usize;
            if k < v.len() {
                v[k] = NEWV
            } else {
                code = 2
            }
        }),
        Op::Remove(s, p) => on!(s, |v, _c| {
            let k = p.of(v.len()) as usize;
            if k < v.len() {
                v.remove(k);
            } else {
                code = 2
            }
        }),
        Op::Invert(s) => on!(s, |v, c| via(v, c, |q| q.invert_direction_mut())),
        Op::Scale(s) => on!(s, |v, c| via(v, c, |q| q.scale_mut(2.0))),
        Op::Translate(s) => on!(s, |v, c| via(v, c, |q| q.translate_mut(0.5, -0.25))),
        Op::RemoveRepeat(s) => on!(s, |v, c| via(v, c, |q| if let Some(x) = q.remove_repeat_pos(1e-5) {
            *q = x
        })),
        Op::RemoveRedundant(s) => on!(s, |v, c| via(v, c, |q| if let Some(x) = q.remove_redundant(1e-5) {
            *q = x
        })),
        Op::ListMake(k) => {
            if n.list.is_some() {
                return None;
            }
            n.list = Some(list_source(k).iter().map(|q| (vs(q), q.is_closed)).collect());
        }
        Op::ListFree => n.list = None,
        Op::ListPop(s) => {
            if n.h[s].is_some() {
                return None;
            }
            match &mut n.list {
                None => code = 1,
                Some(l) => match l.pop() {
                    None => code = 2,
                    Some(x) => n.h[s] = Some(x),
                },
            }
        }
        Op::ListTake(s, p) => {
            if n.h[s].is_some() {
                return None;
            }
            match &mut n.list {
                None => code = 1,
                Some(l) => {
                    let k = p.of(l.len()) as usize;
                    if k < l.len() {
                        n.h[s] = Some(l.remove(k));
                    } else {
                        code = 2
                    }
                }
            }
        }
    }
    Some((code, n))
}

/// executes op; returns the status (0 for the functions without one)
unsafe fn exec(w: &mut World, op: Op) -> i32 {
    let m = |q: *const cavc_pline| q as *mut cavc_pline;
    let len = |q: *const cavc_pline| if q.is_null() { 0 } else { (*q).0.vertex_data.len() };
    match op {
        Op::Create(s, k, c) => {
            let buf: Vec<cavc_vertex> = DATA[k].iter().map(cv).collect();
            let ptr = if buf.is_empty() { null() } else { buf.as_ptr() };
            cavc_pline_create(ptr, buf.len() as u32, c, &mut w.h[s])
        }
        Op::Free(s) => {
            cavc_pline_f(m(w.h[s]));
            w.h[s] = null();
            0
        }
        Op::CloneTo(s, t) => cavc_pline_clone(w.h[s], &mut w.h[t]),
        Op::SetClosed(s, c) => cavc_pline_set_is_closed(m(w.h[s]), c),
        Op::Reserve(s, k) => cavc_pline_reserve(m(w.h[s]), k),
        Op::SetData(s, k, cnt) => {
            let buf: Vec<cavc_vertex> = DATA[k].iter().map(cv).collect();
            cavc_pline_set_vertex_data(m(w.h[s]), buf.as_ptr(), cnt)
        }
        Op::Clear(s) => cavc_pline_clear(m(w.h[s])),
        Op::Add(s) => cavc_pline_add(m(w.h[s]), NEWV[0], NEWV[1], NEWV[2]),
        Op::Set(s, p) => cavc_pline_set_vertex(m(w.h[s]), p.of(len(w.h[s])), cv(&NEWV)),
        Op::Remove(s, p) => cavc_pline_remove(m(w.h[s]), p.of(len(w.h[s]))),
        Op::Invert(s) => cavc_pline_invert_direction(m(w.h[s])),
        Op::Scale(s) => cavc_pline_scale(m(w.h[s]), 2.0),
        Op::Translate(s) => cavc_pline_translate(m(w.h[s]), 0.5, -0.25),
        Op::RemoveRepeat(s) => cavc_pline_remove_repeat_pos(m(w.h[s]), 1e-5),
        Op::RemoveRedundant(s) => cavc_pline_remove_redundant(m(w.h[s]), 1e-5),
        Op::ListMake(k) => {
            w.list = cavc_plinelist::from_internal(list_source(k));
            0
        }
        Op::ListFree => {
            cavc_plinelist_f(w.list as *mut _);
            w.list = null();
            0
        }
        Op::ListPop(s) => cavc_plinelist_pop(w.list as *mut _, &mut w.h[s]),
        Op::ListTake(s, p) => {
            let n = if w.list.is_null() { 0 } else { (*w.list).0.len() };
            cavc_plinelist_take(w.list as *mut _, p.of(n), &mut w.h[s])
        }
    }
}

const GUARD: V = [-77.5, 88.25, 99.125];

unsafe fn same_pline(q: *const cavc_pline, want: &(Vec<V>, bool)) -> Result<(), String> {
    let (v, c) = want;
    let mut n = 4242u32;
    let mut f = 77u8;
    if cavc_pline_get_vertex_count(q, &mut n) != 0 || n as usize != v.len() {
        return Err(format!("vertex count {n} want {}", v.len()));
    }
    if cavc_pline_get_is_closed(q, &mut f) != 0 || (f != 0) != *c {
        return Err(format!("closed {f} want {c}"));
    }
    let mut buf = vec![cv(&GUARD); v.len() + 1];
    if cavc_pline_get_vertex_data(q, buf.as_mut_ptr()) != 0 {
        return Err("vertex data status".into());
    }
    let got: Vec<V> = buf.iter().map(|b| [b.x, b.y, b.bulge]).collect();
    if got[..v.len()] != v[..] || got[v.len()] != GUARD {
        return Err(format!("vertex data {got:?} want {v:?} and an untouched end"));
    }
    for k in 0..v.len() as u32 {
        let mut x = cv(&GUARD);
        if cavc_pline_get_vertex(q, k, &mut x) != 0 || [x.x, x.y, x.bulge] != v[k as usize] {
            return Err(format!("vertex {k}: {x:?}"));
        }
    }
    for k in [v.len() as u32, u32::MAX] {
        let mut x = cv(&GUARD);
        let code = cavc_pline_get_vertex(q, k, &mut x);
        if code != 2 || [x.x, x.y, x.bulge] != GUARD {
            return Err(format!("vertex {k} out of range: status {code}, {x:?}"));
        }
    }
    Ok(())
}

unsafe fn same_world(w: &World, m: &Model) -> Result<(), String> {
    for s in 0..2 {
        match &m.h[s] {
            Some(x) => {
                if w.h[s].is_null() {
                    return Err(format!("handle {s} is null"));
                }
                same_pline(w.h[s], x).map_err(|e| format!("handle {s}: {e}"))?
            }
            None => {
                if !w.h[s].is_null() {
                    return Err(format!("handle {s} was written"));
                }
            }
        }
    }
    let mut n = 4242u32;
    let code = cavc_plinelist_get_count(w.list, &mut n);
    let marker = 0x10 as *const cavc_pline;
    match &m.list {
        None => {
            let mut q = marker;
            let c2 = cavc_plinelist_get_pline(w.list, 0, &mut q);
            if code != 1 || n != 4242 || c2 != 1 || q != marker {
                return Err(format!("null list: status {code} {c2}, count {n}"));
            }
        }
        Some(l) => {
            if code != 0 || n as usize != l.len() {
                return Err(format!("list count {n} want {}", l.len()));
            }
            for (k, x) in l.iter().enumerate() {
                let mut q = null();
                if cavc_plinelist_get_pline(w.list, k as u32, &mut q) != 0 {
                    return Err(format!("list item {k}"));
                }
                same_pline(q, x).map_err(|e| format!("list item {k}: {e}"))?;
            }
            for k in [l.len() as u32, u32::MAX] {
                let mut q = marker;
                let c = cavc_plinelist_get_pline(w.list, k, &mut q);
                if c != 2 || q != marker {
                    return Err(format!("list item {k} out of range: status {c}"));
                }
            }
        }
    }
    Ok(())
}

pub fn p21(cx: &Ctx) -> i32 {
    let plans: Vec<(bool, usize)> =
        if cx.thorough { vec![(true, 1), (true, 2), (true, 3), (true, 4), (false, 5)] } else { vec![(true, 1), (true, 2), (true, 3), (true, 4)] };
    for (wide, depth) in plans {
        let ops = alphabet(wide);
        let b = ops.len();
        let name = format!("{}-sequences-{depth}", if wide { "all" } else { "core" });
        // fixed first operations are shared by one case, so that the prefix is validated once
        cx.space(&name, b.pow(depth as u32), |ix, r| {
            let mut k = ix;
            let mut w = [ops[0]; 8];
            for j in (0..depth).rev() {
                w[j] = ops[k % b];
                k /= b;
            }
            let w = &w[..depth];
            // models along the sequence; operations that do not apply end it
            let mut models = vec![Model { h: [None, None], list: None }];
            let mut codes = vec![];
            for op in w {
                let Some((c, n)) = model_step(models.last().unwrap(), *op) else { return };
                codes.push(c);
                models.push(n);
            }
            r.case(|| format!("{w:?}"));
            let mut fail: Option<(&'static str, String)> = None;
            let mut note = [0u8; 300];
            let mut used = 0;
            let mut label = "";
            let t = tracked(|| unsafe {
                let mut world = World { h: [null(), null()], list: null() };
                let mut err: Option<(&'static str, String)> = None;
                for (j, op) in w.iter().enumerate() {
                    let got = exec(&mut world, *op);
                    if got != codes[j] {
                        err = Some(("status code", format!("{op:?} returned {got}, want {}", codes[j])));
                        break;
                    }
                }
                if err.is_none() {
                    if let Err(e) = same_world(&world, &models[depth]) {
                        err = Some(("state after the sequence", e));
                    }
                }
                // the caller frees what it owns, in both orders
                if ix % 2 == 0 {
                    cavc_plinelist_f(world.list as *mut _);
                    for h in world.h {
                        cavc_pline_f(h as *mut _);
                    }
                } else {
                    for h in world.h {
                        cavc_pline_f(h as *mut _);
                    }
                    cavc_plinelist_f(world.list as *mut _);
                }
                if let Some((l, e)) = &err {
                    // the message must not own memory of the tracked region
                    label = l;
                    let e = e.as_bytes();
                    used = e.len().min(note.len());
                    note[..used].copy_from_slice(&e[..used]);
                }
                drop(err);
            });
            for _ in w {
                r.call();
            }
            if used > 0 || !label.is_empty() {
                fail = Some((label, String::from_utf8_lossy(&note[..used]).into_owned()));
            }
            if let Some((l, e)) = fail {
                r.fail(l, e);
            } else {
                r.ok();
            }
            r.class(match codes.last() {
                Some(0) => "succeeded",
                Some(1) => "null",
                Some(2) => "out-of-range",
                _ => "other",
            });
            r.check(t.live == 0, "everything the caller owned was freed but memory is left", || format!("{} blocks, {} bytes", t.live, t.bytes));
            r.check(t.bad_frees == 0, "memory freed twice", || format!("{} times", t.bad_frees));
            if t.overflow {
                r.fail("tracked region overflow", String::new());
            }
        });
    }
    // lists produced by the geometry functions, consumed in every way
    let sq = [[0.0, 0.0, 0.0], [2.0, 0.0, 0.0], [2.0, 2.0, 0.0], [0.0, 2.0, 0.0]];
    let bar = [[-1.0, 0.5, 0.0], [3.0, 0.5, 0.0], [3.0, 1.5, 0.0], [-1.0, 1.5, 0.0]];
    let inner = [[0.5, 0.5, 0.0], [1.5, 0.5, 0.0], [1.5, 1.5, 0.0], [0.5, 1.5, 0.0]];
    let hour = [[0.0, 0.0, 0.0], [4.0, 0.0, 0.0], [2.2, 1.5, 0.0], [4.0, 3.0, 0.0], [0.0, 3.0, 0.0], [1.8, 1.5, 0.0]];
    let acts = 6; // pop, take first, take last, get, keep, stop
    let depth = 4;
    cx.space("geometry-results", 4 * 5 * 6usize.pow(depth as u32), |ix, r| {
        let second: &[V] = [&bar[..], &inner[..], &sq[..], &hour[..]][ix % 4];
        let op = ix / 4 % 5;
        let mut k = ix / 20;
        let mut plan = [0usize; 4];
        for p in plan.iter_mut() {
            *p = k % acts;
            k /= acts;
        }
        r.case(|| format!("second {} operation {op} then {plan:?}", ix % 4));
        let mut bad = 0;
        let t = tracked(|| unsafe {
            let mk = |v: &[V]| {
                let buf: Vec<cavc_vertex> = v.iter().map(cv).collect();
                let mut q = null();
                let _ = cavc_pline_create(buf.as_ptr(), buf.len() as u32, 1, &mut q);
                q
            };
            let (a, b) = (mk(&sq), mk(second));
            let mut lists: [*const cavc_plinelist; 2] = [null(), null()];
            let mut index = null();
            if op < 4 {
                let mut o = cavc_pline_boolean_o::default();
                if cavc_pline_create_aabbindex(a, &mut index) != 0 {
                    bad = 1;
                }
                o.pline1_aabb_index = index;
                let (x, y) = lists.split_at_mut(1);
                if cavc_pline_boolean(a, b, op as u32, if ix % 3 == 0 { &o } else { null() }, &mut x[0], &mut y[0]) != 0 {
                    bad = 2;
                }
            } else if cavc_pline_parallel_offset(b, 0.4, null(), &mut lists[0]) != 0 {
                bad = 3;
            }
            for l in lists {
                let mut n = 0;
                if l.is_null() {
                    continue;
                }
                let _ = cavc_plinelist_get_count(l, &mut n);
                for p in plan {
                    let mut q = null();
                    let (code, want) = match p {
                        0 => (cavc_plinelist_pop(l as *mut _, &mut q), n > 0),
                        1 => (cavc_plinelist_take(l as *mut _, 0, &mut q), n > 0),
                        2 => (cavc_plinelist_take(l as *mut _, n.wrapping_sub(1), &mut q), n > 0),
                        3 => {
                            let c = cavc_plinelist_get_pline(l, 0, &mut q);
                            let mut area = f64::NAN;
                            let c2 = cavc_pline_eval_area(q, &mut area);
                            if (c == 0) != (n > 0) || (c2 == 0) != (n > 0) || (n > 0 && !area.is_finite()) {
                                bad = 4;
                            }
                            continue;
                        }
                        4 => continue,
                        _ => break,
                    };
                    if (code == 0) != want || q.is_null() == want {
                        bad = 5;
                    }
                    if code == 0 {
                        n -= 1;
                        cavc_pline_f(q as *mut _);
                    }
                }
                cavc_plinelist_f(l as *mut _);
            }
            cavc_aabbindex_f(index as *mut _);
            cavc_pline_f(b as *mut _);
            cavc_pline_f(a as *mut _);
        });
        r.call();
        r.check(bad == 0, "status of the list functions", || format!("code {bad}"));
        r.check(t.live == 0, "everything the caller owned was freed but memory is left", || format!("{} blocks, {} bytes", t.live, t.bytes));
        r.check(t.bad_frees == 0, "memory freed twice", || format!("{} times", t.bad_frees));
        r.check(!t.overflow, "tracked region overflow", || String::new());
    });
    cx.note("Handles: two polylines and one list, each null or live; positions first, second, last, one past the end and u32::MAX. Calls the documentation excludes (dangling handles, null out parameters) are not executed.");
    cx.note("Allocation is tracked per sequence: freed blocks are poisoned and kept, so a second free is recognised, and every block must be free at the end.");
    cx.finish("a case is a sequence of calls from no handles; statuses, every readable value, failed calls' out parameters and the allocation balance are compared with the model")
}

// ---------------------------------------------------------------- P22
fn bits(v: &[V]) -> Vec<[u64; 3]> {
    v.iter().map(|v| [v[0].to_bits(), v[1].to_bits(), v[2].to_bits()]).collect()
}
fn same_lists(l: *const cavc_plinelist, want: &[Polyline<f64>]) -> Result<(), String> {
    unsafe {
        let mut n = 0;
        if l.is_null() || cavc_plinelist_get_count(l, &mut n) != 0 || n as usize != want.len() {
            return Err(format!("{n} polylines, want {}", want.len()));
        }
        for (k, w) in want.iter().enumerate() {
            let mut q = null();
            if cavc_plinelist_get_pline(l, k as u32, &mut q) != 0 {
                return Err(format!("item {k}"));
            }
            if (*q).0.is_closed != w.is_closed || bits(&vs(&(*q).0)) != bits(&vs(w)) {
                return Err(format!("item {k}: {:?} want {w:?}", (*q).0));
            }
        }
    }
    Ok(())
}

struct H(*const cavc_pline);
impl H {
    fn new(q: &Polyline<f64>) -> H {
        let buf: Vec<cavc_vertex> = vs(q).iter().map(cv).collect();
        let mut h = null();
        unsafe {
            let _ = cavc_pline_create(buf.as_ptr(), buf.len() as u32, q.is_closed as u8, &mut h);
        }
        H(h)
    }
    fn get(&self) -> Polyline<f64> {
        unsafe { (*self.0).0.clone() }
    }
}
impl Drop for H {
    fn drop(&mut self) {
        unsafe { cavc_pline_f(self.0 as *mut _) }
    }
}
struct Ix(*const cavc_aabbindex);
impl Drop for Ix {
    fn drop(&mut self) {
        unsafe { cavc_aabbindex_f(self.0 as *mut _) }
    }
}

fn shapes(cx: &Ctx) -> Vec<Path> {
    let pts = lattice(3, 2, 1.0, 0.0, 0);
    let mut o = vec![
        Path::new(vec![], true),
        Path::new(vec![], false),
        Path::new(vec![vx(0.5, 0.25, 0.5)], true),
        Path::new(vec![vx(0.5, 0.25, 0.0)], false),
        // repeats, near repeats and redundant vertices, so that every epsilon matters
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(0.0, 0.0, 0.0), vx(2.0, 0.0, 0.0), vx(2.0, 0.1, 0.0), vx(2.0, 2.0, 0.0), vx(0.0, 2.0, 0.0)], true),
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(1.0, 0.0, 0.0), vx(2.0, 0.0, 0.0), vx(2.0, 1e-4, 0.0), vx(2.0, 2.0, 1.0)], false),
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(1.0, 1e-3, 0.0), vx(2.0, 0.0, 0.0), vx(2.0, 2.0, Q8), vx(0.0, 2.0, -Q8)], true),
        // bow tie and a self crossing open path
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(2.0, 2.0, 0.0), vx(2.0, 0.0, 0.0), vx(0.0, 2.0, 0.0)], true),
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(2.0, 2.0, 0.0), vx(2.0, 0.0, 1.0), vx(0.0, 2.0, 0.0)], false),
    ];
    let bl: &[f64] = if cx.thorough { &[0.0, 1.0, -1.0, -Q8, Q8, 0.1] } else { &[0.0, 1.0, -Q8, Q8] };
    for closed in [true, false] {
        o.extend(any_paths(&pts, 2, &[0.0, 1.0, -Q8], closed));
        o.extend(any_paths(&lattice(2, 2, 1.0, 0.15, 4), 3, bl, closed));
        o.extend(any_paths(&lattice(2, 2, 1.5, 0.1, 2), 4, bl, closed));
    }
    o
}

pub fn p22(cx: &Ctx) -> i32 {
    let shapes = shapes(cx);
    let def = PlineOffsetOptions::<f64>::new();
    // offsets x options
    let offs = [0.3, -0.3, 0.0, 0.05, -1.2];
    cx.space("offset", shapes.len(), |i, r| unsafe {
        let q = pl(&shapes[i]);
        let h = H::new(&q);
        let away = {
            let mut w = q.clone();
            w.translate_mut(50.0, 50.0);
            w
        };
        for off in offs {
            for variant in 0..9 {
                r.case(|| format!("{} offset {off} options {variant}", show(&shapes[i])));
                let mut o = std::mem::MaybeUninit::<cavc_pline_parallel_offset_o>::uninit();
                r.check(cavc_pline_parallel_offset_o_init(o.as_mut_ptr()) == 0, "init status", || String::new());
                let mut o = o.assume_init();
                r.check(
                    o.aabb_index.is_null()
                        && o.pos_equal_eps == def.pos_equal_eps
                        && o.slice_join_eps == def.slice_join_eps
                        && o.offset_dist_eps == def.offset_dist_eps
                        && (o.handle_self_intersects != 0) == def.handle_self_intersects,
                    "default offset options",
                    || format!("{o:?}"),
                );
                let mut w = PlineOffsetOptions::new();
                let index = match variant {
                    6 => Some((Ix(null()), q.create_aabb_index())),
                    7 => Some((Ix(null()), q.create_approx_aabb_index())),
                    8 => Some((Ix(null()), away.create_aabb_index())),
                    _ => None,
                };
                match variant {
                    1 => {}
                    2 => {
                        o.pos_equal_eps = 0.2;
                        w.pos_equal_eps = 0.2
                    }
                    3 => {
                        o.slice_join_eps = 0.25;
                        w.slice_join_eps = 0.25
                    }
                    4 => {
                        o.offset_dist_eps = 0.22;
                        w.offset_dist_eps = 0.22
                    }
                    5 => {
                        o.handle_self_intersects = if i % 2 == 0 { 1 } else { 255 };
                        w.handle_self_intersects = true
                    }
                    _ => {}
                }
                let mut keep = Ix(null());
                if let Some((_, x)) = &index {
                    let code = match variant {
                        6 => cavc_pline_create_aabbindex(h.0, &mut keep.0),
                        7 => cavc_pline_create_approx_aabbindex(h.0, &mut keep.0),
                        _ => {
                            let g = H::new(&away);
                            cavc_pline_create_aabbindex(g.0, &mut keep.0)
                        }
                    };
                    r.check(code == 0, "index status", || format!("{code}"));
                    o.aabb_index = keep.0;
                    w.aabb_index = Some(x);
                }
                let marker = 0x20 as *const cavc_plinelist;
                let mut out = marker;
                let code = cavc_pline_parallel_offset(h.0, off, if variant == 0 { null() } else { &o }, &mut out);
                r.call();
                let want = guarded(|| if variant == 0 { q.parallel_offset(off) } else { q.parallel_offset_opt(off, &w) });
                match want {
                    Ok(want) => {
                        r.class(if want.is_empty() { "empty" } else { "results" });
                        if r.check(code == 0 && out != marker, "status", || format!("{code}")) {
                            let e = same_lists(out, &want);
                            r.check(e.is_ok(), "offset equals the library's", || e.unwrap_err());
                            cavc_plinelist_f(out as *mut _);
                        }
                    }
                    Err(_) => {
                        r.class("library-panics");
                        r.check(code == -1 && out == marker, "a panic becomes status -1", || format!("{code}"));
                    }
                }
                let same = h.get();
                r.check(bits(&vs(&same)) == bits(&vs(&q)) && same.is_closed == q.is_closed, "input is unchanged", || format!("{same:?}"));
            }
        }
        let mut out = 0x20 as *const cavc_plinelist;
        let code = cavc_pline_parallel_offset(null(), 0.5, null(), &mut out);
        r.check(code == 1 && out as usize == 0x20, "null polyline", || format!("{code}"));
    });

    // booleans
    let pts = lattice(3, 3, 1.0, 0.0, 0);
    let mut firsts = closed_simple(&pts, 3, &[0.0], 0.05);
    firsts.truncate(40);
    firsts.extend(closed_simple(&lattice(2, 2, 1.5, 0.0, 0), 4, &[0.0, Q8], 0.05));
    firsts.extend([
        Path::new(vec![], true),
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(1.0, 1.0, 0.0)], false),
        Path::new(vec![vx(0.5, 0.5, 1.0), vx(1.5, 0.5, 1.0)], true),
        Path::new(vec![vx(0.0, 0.0, 0.0), vx(1.0, 0.0, 0.0), vx(1.0, 0.05, 0.0), vx(1.0, 1.0, 0.0)], true),
    ]);
    let seconds: Vec<Path> = {
        let base = [
            Path::new(vec![vx(0.0, 0.0, 0.0), vx(1.0, 0.0, 0.0), vx(1.0, 1.0, 0.0), vx(0.0, 1.0, 0.0)], true),
            Path::new(vec![vx(0.25, 0.25, 0.0), vx(2.0, 0.5, 0.0), vx(0.5, 2.0, 0.0)], true),
            Path::new(vec![vx(0.5, 0.5, 1.0), vx(1.5, 0.5, 1.0)], true),
            Path::new(vec![vx(0.5, 0.5, -1.0), vx(0.7, 0.5, -1.0)], true),
            Path::new(vec![vx(5.0, 5.0, 0.0), vx(6.0, 5.0, 0.0), vx(6.0, 6.0, 0.0)], true),
            Path::new(vec![vx(0.0, 0.0, 0.0), vx(1.0, 1.0, 0.0)], false),
            Path::new(vec![vx(0.0, 0.0, 0.0)], true),
        ];
        let mut v = base.to_vec();
        v.extend(base.iter().map(|q| q.translate(p(0.07, 0.03))));
        v
    };
    let bdef = PlineBooleanOptions::<f64>::new();
    let n2 = seconds.len();
    cx.space("boolean", firsts.len() * n2, |i, r| unsafe {
        let (pa, pb) = (&firsts[i / n2], &seconds[i % n2]);
        let (qa, qb) = (pl(pa), pl(pb));
        let (ha, hb) = (H::new(&qa), H::new(&qb));
        let away = {
            let mut w = qa.clone();
            w.translate_mut(50.0, 50.0);
            w
        };
        for code in [0u32, 1, 2, 3, 4, 255, u32::MAX] {
            for variant in 0..6 {
                r.case(|| format!("{} op {code} {} options {variant}", show(pa), show(pb)));
                let mut o = std::mem::MaybeUninit::<cavc_pline_boolean_o>::uninit();
                r.check(cavc_pline_boolean_o_init(o.as_mut_ptr()) == 0, "init status", || String::new());
                let mut o = o.assume_init();
                r.check(o.pline1_aabb_index.is_null() && o.pos_equal_eps == bdef.pos_equal_eps, "default boolean options", || format!("{o:?}"));
                let mut w = PlineBooleanOptions::new();
                let index = match variant {
                    3 => Some(qa.create_aabb_index()),
                    4 => Some(qa.create_approx_aabb_index()),
                    5 => Some(away.create_aabb_index()),
                    _ => None,
                };
                let mut keep = Ix(null());
                if variant == 2 {
                    o.pos_equal_eps = 0.1;
                    w.pos_equal_eps = 0.1;
                }
                if let Some(x) = &index {
                    let c = match variant {
                        3 => cavc_pline_create_aabbindex(ha.0, &mut keep.0),
                        4 => cavc_pline_create_approx_aabbindex(ha.0, &mut keep.0),
                        _ => {
                            let g = H::new(&away);
                            cavc_pline_create_aabbindex(g.0, &mut keep.0)
                        }
                    };
                    r.check(c == 0, "index status", || format!("{c}"));
                    o.pline1_aabb_index = keep.0;
                    w.pline1_aabb_index = Some(x);
                }
                let marker = 0x20 as *const cavc_plinelist;
                let (mut pos, mut neg) = (marker, marker);
                let got = cavc_pline_boolean(ha.0, hb.0, code, if variant == 0 { null() } else { &o }, &mut pos, &mut neg);
                r.call();
                let op = match code {
                    0 => BooleanOp::Or,
                    1 => BooleanOp::And,
                    2 => BooleanOp::Not,
                    3 => BooleanOp::Xor,
                    _ => {
                        r.class("unknown-operation");
                        r.check(got == 2 && pos == marker && neg == marker, "unknown operation", || format!("status {got}"));
                        continue;
                    }
                };
                match guarded(|| if variant == 0 { qa.boolean(&qb, op) } else { qa.boolean_opt(&qb, op, &w) }) {
                    Ok(want) => {
                        r.class("results");
                        if r.check(got == 0 && pos != marker && neg != marker, "status", || format!("{got}")) {
                            let e = same_lists(pos, &want.pos_plines.into_iter().map(|x| x.pline).collect::<Vec<_>>());
                            r.check(e.is_ok(), "positive polylines equal the library's", || e.unwrap_err());
                            let e = same_lists(neg, &want.neg_plines.into_iter().map(|x| x.pline).collect::<Vec<_>>());
                            r.check(e.is_ok(), "negative polylines equal the library's", || e.unwrap_err());
                            cavc_plinelist_f(pos as *mut _);
                            cavc_plinelist_f(neg as *mut _);
                        }
                    }
                    Err(_) => {
                        r.class("library-panics");
                        r.check(got == -1 && pos == marker && neg == marker, "a panic becomes status -1", || format!("{got}"));
                    }
                }
            }
            for (x, y) in [(null(), hb.0), (ha.0, null()), (null(), null())] {
                let marker = 0x20 as *const cavc_plinelist;
                let (mut pos, mut neg) = (marker, marker);
                let got = cavc_pline_boolean(x, y, code, null(), &mut pos, &mut neg);
                r.check(got == 1 && pos == marker && neg == marker, "null polyline", || format!("status {got}"));
            }
        }
    });

    // evaluation, clean-up, transforms, indexes
    cx.space("evaluation", shapes.len(), |i, r| unsafe {
        let path = &shapes[i];
        r.case(|| show(path));
        let q = pl(path);
        let h = H::new(&q);
        let g = -12345.5f64;
        let eq = |a: f64, b: f64| a.to_bits() == b.to_bits();
        let (mut a, mut l) = (g, g);
        r.check(cavc_pline_eval_area(h.0, &mut a) == 0 && eq(a, q.area()), "area", || format!("{a}"));
        r.check(cavc_pline_eval_path_length(h.0, &mut l) == 0 && eq(l, q.path_length()), "path length", || format!("{l}"));
        let (mut a, mut l) = (g, g);
        r.check(cavc_pline_eval_area(null(), &mut a) == 1 && a == g && cavc_pline_eval_path_length(null(), &mut l) == 1 && l == g, "null polyline", || String::new());
        for j in 0..49 {
            let z = Vector2::new(-0.5 + (j % 7) as f64 * 0.41, -0.5 + (j / 7) as f64 * 0.43);
            let mut wn = 777;
            r.check(cavc_pline_eval_wn(h.0, z.x, z.y, &mut wn) == 0 && wn == q.winding_number(z), "winding number", || format!("{z:?}: {wn}"));
            r.call();
        }
        let mut wn = 777;
        r.check(cavc_pline_eval_wn(null(), 0.0, 0.0, &mut wn) == 1 && wn == 777, "null polyline", || String::new());
        let mut b = [g; 4];
        let (b0, b1) = b.split_at_mut(2);
        let (x0, y0) = b0.split_at_mut(1);
        let (x1, y1) = b1.split_at_mut(1);
        let code = cavc_pline_eval_extents(h.0, &mut x0[0], &mut y0[0], &mut x1[0], &mut y1[0]);
        match q.extents() {
            Some(x) => {
                r.check(code == 0 && b == [x.min_x, x.min_y, x.max_x, x.max_y], "extents", || format!("{code} {b:?}"));
            }
            None => {
                r.check(code == 2 && b == [g; 4], "extents of no segment", || format!("{code} {b:?}"));
            }
        }
        let mut b = [g; 4];
        let pb = b.as_mut_ptr();
        r.check(cavc_pline_eval_extents(null(), pb, pb.add(1), pb.add(2), pb.add(3)) == 1 && b == [g; 4], "null polyline", || format!("{b:?}"));
        // transforms and clean-up in place
        type F = (&'static str, Box<dyn Fn(*mut cavc_pline) -> i32>, Box<dyn Fn(&mut Polyline<f64>)>);
        let mut fs: Vec<F> = vec![
            ("invert", Box::new(|h| cavc_pline_invert_direction(h)), Box::new(|q| q.invert_direction_mut())),
            ("scale", Box::new(|h| cavc_pline_scale(h, -1.75)), Box::new(|q| q.scale_mut(-1.75))),
            ("translate", Box::new(|h| cavc_pline_translate(h, 0.3, -7.1)), Box::new(|q| q.translate_mut(0.3, -7.1))),
        ];
        for e in [1e-5, 1e-3, 0.15, 1.2] {
            fs.push(("remove repeat", Box::new(move |h| cavc_pline_remove_repeat_pos(h, e)), Box::new(move |q| {
                if let Some(x) = q.remove_repeat_pos(e) {
                    *q = x
                }
            })));
            fs.push(("remove redundant", Box::new(move |h| cavc_pline_remove_redundant(h, e)), Box::new(move |q| {
                if let Some(x) = q.remove_redundant(e) {
                    *q = x
                }
            })));
        }
        for (nm, f, w) in &fs {
            let h = H::new(&q);
            let mut want = q.clone();
            let ok = guarded(|| w(&mut want)).is_ok();
            let code = f(h.0 as *mut _);
            r.call();
            if ok {
                let got = h.get();
                r.check(code == 0 && got.is_closed == want.is_closed && bits(&vs(&got)) == bits(&vs(&want)), "in place operation equals the library's", || format!("{nm}: {got:?} want {want:?}"));
            } else {
                r.class("library-panics");
                r.check(code == -1, "a panic becomes status -1", || format!("{nm}: {code}"));
            }
            r.check(f(null_mut()) == 1, "null polyline", || nm.to_string());
        }
        // indexes
        for exact in [true, false] {
            let marker = 0x20 as *const cavc_aabbindex;
            let mut x = marker;
            let code = if exact { cavc_pline_create_aabbindex(h.0, &mut x) } else { cavc_pline_create_approx_aabbindex(h.0, &mut x) };
            r.call();
            let want = guarded(|| if exact { q.create_aabb_index() } else { q.create_approx_aabb_index() });
            match want {
                Ok(want) => {
                    if r.check(code == 0 && x != marker, "index status", || format!("{code}")) {
                        let mut b = [g; 4];
                        let pb = b.as_mut_ptr();
                        let c = cavc_aabbindex_get_extents(x, pb, pb.add(1), pb.add(2), pb.add(3));
                        let ok = match want.bounds() {
                            Some(w) => b == [w.min_x, w.min_y, w.max_x, w.max_y],
                            None => b.iter().all(|v| v.is_nan()),
                        };
                        r.check(c == 0 && ok, "index extents", || format!("{c} {b:?} want {:?}", want.bounds()));
                        r.check((*x).0.all_boxes() == want.all_boxes(), "index boxes", || String::new());
                        cavc_aabbindex_f(x as *mut _);
                    }
                }
                Err(_) => {
                    r.class("library-panics");
                    r.check(code == -1 && x == marker, "a panic becomes status -1", || format!("{code}"));
                }
            }
            let mut x = marker;
            let code = if exact { cavc_pline_create_aabbindex(null(), &mut x) } else { cavc_pline_create_approx_aabbindex(null(), &mut x) };
            r.check(code == 1 && x == marker, "null polyline", || format!("{code}"));
        }
        let mut b = [g; 4];
        let pb = b.as_mut_ptr();
        r.check(cavc_aabbindex_get_extents(null(), pb, pb.add(1), pb.add(2), pb.add(3)) == 1 && b == [g; 4], "null index", || format!("{b:?}"));
        cavc_aabbindex_f(null_mut());
        cavc_plinelist_f(null_mut());
        cavc_pline_f(null_mut());
        r.check(cavc_pline_parallel_offset_o_init(null_mut()) == 1 && cavc_pline_boolean_o_init(null_mut()) == 1, "null options to initialise", || String::new());
    });
    cx.note("The Rust library is the reference here (its own correctness is decided by the other properties); results are compared bit for bit. Option values are chosen large enough to change results, and an index of a far away polyline shows that the supplied index is the one used.");
    cx.finish("a case is (polyline or pair, offset or operation code, options variant) through the C interface and the Rust library")
}
