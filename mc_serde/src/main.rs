//! P27 serialization: every value of complete finite families through self-describing and binary
//! formats and back.
#[allow(dead_code)]
#[path = "../../mc/src/run.rs"]
mod run;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use run::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

#[global_allocator]
static ALLOC: run::Counting = run::Counting;

/// through every format; the results, or what went wrong
fn trips<T: Serialize + DeserializeOwned>(x: &T) -> Vec<(&'static str, Result<T, String>)> {
    fn e<E: std::fmt::Display>(e: E) -> String {
        e.to_string()
    }
    let cbor = |x: &T| -> Result<T, String> {
        let mut buf = vec![];
        ciborium::into_writer(x, &mut buf).map_err(e)?;
        let mut rest = &buf[..];
        let y = ciborium::from_reader(&mut rest).map_err(e)?;
        if !rest.is_empty() {
            return Err(format!("{} bytes left", rest.len()));
        }
        Ok(y)
    };
    let cbor_value = |x: &T| -> Result<T, String> { ciborium::Value::serialized(x).map_err(e)?.deserialized().map_err(e) };
    // what another program sees: the bytes alone must form exactly one item
    let cbor_untyped = |x: &T| -> Result<T, String> {
        let mut buf = vec![];
        ciborium::into_writer(x, &mut buf).map_err(e)?;
        let mut rest = &buf[..];
        let v: ciborium::Value = ciborium::from_reader(&mut rest).map_err(e)?;
        if !rest.is_empty() {
            return Err(format!("{} bytes left", rest.len()));
        }
        v.deserialized().map_err(e)
    };
    vec![
        ("json text", serde_json::to_string(x).map_err(e).and_then(|s| serde_json::from_str(&s).map_err(e))),
        ("json indented bytes", serde_json::to_vec_pretty(x).map_err(e).and_then(|s| serde_json::from_slice(&s).map_err(e))),
        ("json reader", serde_json::to_vec(x).map_err(e).and_then(|s| serde_json::from_reader(&s[..]).map_err(e))),
        ("json value", serde_json::to_value(x).map_err(e).and_then(|s| serde_json::from_value(s).map_err(e))),
        ("cbor", cbor(x)),
        ("cbor value", cbor_value(x)),
        ("cbor read back without knowing the type", cbor_untyped(x)),
        ("binary", bincode::serialize(x).map_err(e).and_then(|s| {
            let mut rest = &s[..];
            let y = bincode::deserialize_from(&mut rest).map_err(e)?;
            if rest.is_empty() { Ok(y) } else { Err(format!("{} bytes left", rest.len())) }
        })),
    ]
}

fn nums(v: &Value) -> Option<Vec<f64>> {
    v.as_array()?.iter().map(|x| x.as_f64()).collect()
}
fn keys(v: &Value) -> Vec<String> {
    let mut k: Vec<String> = v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    k.sort();
    k
}
fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn vd(v: &PlineVertex<f64>) -> Vec<f64> {
    vec![v.x, v.y, v.bulge]
}
fn all(q: &Polyline<f64>) -> Vec<f64> {
    q.vertex_data.iter().flat_map(|v| vd(v)).collect()
}
fn view_nums(d: &PlineViewData<f64>) -> Vec<f64> {
    let mut o = vd(&d.updated_start);
    o.extend([d.updated_end_bulge, d.end_point.x, d.end_point.y]);
    o
}
fn same_view(a: &PlineViewData<f64>, b: &PlineViewData<f64>) -> bool {
    a.start_index == b.start_index
        && a.end_index_offset == b.end_index_offset
        && a.inverted_direction == b.inverted_direction
        && same(&view_nums(a), &view_nums(b))
}
fn same_slice(a: &BooleanPlineSlice<f64>, b: &BooleanPlineSlice<f64>) -> bool {
    same_view(&a.view_data, &b.view_data) && a.source_is_pline1 == b.source_is_pline1 && a.overlapping == b.overlapping
}

fn trip<T: Serialize + DeserializeOwned + std::fmt::Debug>(r: &mut Rec, what: &str, x: &T, eq: impl Fn(&T, &T) -> bool) {
    for (f, y) in trips(x) {
        r.call();
        match y {
            Ok(y) => {
                r.check(eq(x, &y), "round trip", || format!("{what} through {f}: {x:?} became {y:?}"));
            }
            Err(e) => r.fail("round trip", format!("{what} through {f}: {x:?}: {e}")),
        }
    }
}

fn check_polyline(r: &mut Rec, q: &Polyline<f64>) {
    trip(r, "polyline", q, |a, b| a.is_closed == b.is_closed && same(&all(a), &all(b)));
    let v = serde_json::to_value(q).unwrap();
    let shape = keys(&v) == ["isClosed", "vertexes"]
        && v["isClosed"].as_bool() == Some(q.is_closed)
        && v["vertexes"].as_array().map(|l| {
            l.len() == q.vertex_data.len() && l.iter().zip(&q.vertex_data).all(|(x, w)| nums(x).map(|n| same(&n, &vd(w))).unwrap_or(false))
        }) == Some(true);
    r.check(shape, "shape of a polyline", || v.to_string());
}

fn check_slice(r: &mut Rec, s: &BooleanPlineSlice<f64>) {
    trip(r, "slice", s, same_slice);
    let d = &s.view_data;
    trip(r, "view data", d, same_view);
    let v = serde_json::to_value(s).unwrap();
    let w = &v["viewData"];
    let shape = keys(&v) == ["overlapping", "sourceIsPline1", "viewData"]
        && v["overlapping"].as_bool() == Some(s.overlapping)
        && v["sourceIsPline1"].as_bool() == Some(s.source_is_pline1)
        && keys(w) == ["endIndexOffset", "endPoint", "invertedDirection", "startIndex", "updatedEndBulge", "updatedStart"]
        && w["startIndex"].as_u64() == Some(d.start_index as u64)
        && w["endIndexOffset"].as_u64() == Some(d.end_index_offset as u64)
        && w["invertedDirection"].as_bool() == Some(d.inverted_direction)
        && nums(&w["updatedStart"]).map(|n| same(&n, &vd(&d.updated_start))) == Some(true)
        && nums(&w["endPoint"]).map(|n| same(&n, &[d.end_point.x, d.end_point.y])) == Some(true)
        && w["updatedEndBulge"].as_f64().map(|b| b.to_bits()) == Some(d.updated_end_bulge.to_bits());
    r.check(shape, "shape of a slice", || v.to_string());
}

fn p27(cx: &Ctx) -> i32 {
    let vals = [
        0.0, -0.0, 1.0, -1.0, 0.1, -2.5, 1.0 / 3.0, 1e-9, -1e-300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON,
        9007199254740993.0, 1e16, 123456789.12345679, std::f64::consts::PI, 1e21, -4.35e-7,
    ];
    let n = vals.len();
    cx.space("vertexes", n * n * n, |i, r| {
        let v = PlineVertex::new(vals[i % n], vals[i / n % n], vals[i / n / n]);
        r.case(|| format!("{v:?}"));
        trip(r, "vertex", &v, |a, b| same(&vd(a), &vd(b)));
        let j = serde_json::to_value(v).unwrap();
        r.check(nums(&j).map(|x| same(&x, &vd(&v))) == Some(true), "shape of a vertex", || j.to_string());
    });
    cx.space("vectors", n * n, |i, r| {
        let v = Vector2::new(vals[i % n], vals[i / n]);
        r.case(|| format!("{v:?}"));
        trip(r, "vector", &v, |a, b| same(&[a.x, a.y], &[b.x, b.y]));
        let j = serde_json::to_value(v).unwrap();
        r.check(nums(&j).map(|x| same(&x, &[v.x, v.y])) == Some(true), "shape of a vector", || j.to_string());
        let f = Vector2::new(v.x as f32, v.y as f32);
        if f.x.is_finite() && f.y.is_finite() {
            trip(r, "single precision vector", &f, |a, b| a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits());
        }
    });
    let k = if cx.thorough { 6 } else { 5 };
    let few: Vec<[f64; 3]> = (0..k).map(|i| [vals[(7 * i + 3) % n], vals[(5 * i + 1) % n], vals[(3 * i + 6) % n]]).collect();
    let top = if cx.thorough { 5 } else { 4 };
    for len in 0..=top {
        cx.space(&format!("polylines-{len}"), 2 * few.len().pow(len as u32), |i, r| {
            let mut q = Polyline::new();
            q.is_closed = i % 2 == 1;
            let mut c = i / 2;
            for _ in 0..len {
                let w = few[c % few.len()];
                c /= few.len();
                q.add(w[0], w[1], w[2]);
            }
            r.case(|| format!("{q:?}"));
            check_polyline(r, &q);
            let mut s: Polyline<f32> = Polyline::new();
            s.is_closed = q.is_closed;
            for v in &q.vertex_data {
                s.add(v.x as f32, v.y as f32, v.bulge as f32);
            }
            if s.vertex_data.iter().all(|v| v.x.is_finite() && v.y.is_finite() && v.bulge.is_finite()) {
                trip(r, "single precision polyline", &s, |a, b| {
                    a.is_closed == b.is_closed && a.vertex_data.len() == b.vertex_data.len() && a.vertex_data.iter().zip(&b.vertex_data).all(|(x, y)| x == y)
                });
            }
        });
    }
    // results of boolean operations and views
    let mut shapes: Vec<Polyline<f64>> = vec![];
    for dx in 0..4 {
        for dy in 0..3 {
            for b in [0.0, 0.4, -0.3] {
                let (x, y) = (dx as f64 * 0.5, dy as f64 * 0.25);
                let mut q = Polyline::new_closed();
                for (u, v) in [(0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (0.0, 1.0)] {
                    q.add(x + u, y + v, b);
                }
                shapes.push(q);
            }
        }
    }
    let m = shapes.len();
    cx.space("boolean-results", m * m * 4, |i, r| {
        let (a, b) = (&shapes[i % m], &shapes[i / m % m]);
        let op = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor][i / m / m];
        r.case(|| format!("{a:?} {op:?} {b:?}"));
        let res = a.boolean(b, op);
        for p in res.pos_plines.iter().chain(&res.neg_plines) {
            check_polyline(r, &p.pline);
            for s in &p.subslices {
                check_slice(r, s);
                // a view built from the restored data shows the same vertexes
                let d: PlineViewData<f64> = serde_json::from_str(&serde_json::to_string(&s.view_data).unwrap()).unwrap();
                let src = if s.source_is_pline1 { a } else { b };
                let (x, y) = (Polyline::create_from(&d.view(src)), Polyline::create_from(&s.view(src)));
                r.check(same(&all(&x), &all(&y)), "view from restored data", || format!("{x:?} {y:?}"));
            }
            trip(r, "boolean result polyline", p, |a, b| {
                a.pline.is_closed == b.pline.is_closed
                    && same(&all(&a.pline), &all(&b.pline))
                    && a.subslices.len() == b.subslices.len()
                    && a.subslices.iter().zip(&b.subslices).all(|(x, y)| same_slice(x, y))
            });
            let v = serde_json::to_value(p).unwrap();
            r.check(keys(&v) == ["pline", "subslices"], "shape of a boolean result polyline", || v.to_string());
            r.class("result");
        }
    });
    cx.note("Formats: JSON (text, indented bytes, reader, value tree; float_roundtrip parsing), CBOR (stream and value tree) and bincode, from the offline cargo cache. Values are finite; NaN and infinities have no JSON form.");
    cx.finish("a case is one value; it goes through every format and must come back bit for bit, and its JSON tree must have the documented shape")
}

fn main() {
    run::silence_panics();
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let only = if a.get(3).map(|s| s == "--only").unwrap_or(false) { Some((a[4].clone(), a[5].parse().unwrap())) } else { None };
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let cx = run::Ctx::new("P27", thorough, &root, only);
    std::process::exit(p27(&cx));
}
