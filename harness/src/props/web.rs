//! P28: the reader for browsers, built here with stand-ins for the JavaScript side (only in `fcbmc-web`).

use super::btree::OPS;
use super::remote::{judge, same, Outcome};
use super::Prop;
use crate::core::{guarded, Ctx, Tier};
use crate::data::*;
use crate::shapes::*;
use crate::webmock::{block_on, Fault};
use chrono::{DateTime, Utc};
use fcb_core::attribute::AttributeSchema;
use fcb_core::header_generated::ColumnType as C;
use fcb_core::packed_rtree::Query;
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::{FcbReader, FixedStringKey, Float, KeyType, Operator};
use fcb_web::{AsyncFeatureIter, HttpFcbReader, WasmAttrQuery, WasmSpatialQuery};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use wasm_bindgen::JsValue;

// ---------------------------------------------------------------- the server and the reading

struct Host {
    data: Arc<Vec<u8>>,
    fault: Fault,
    pends: usize,
    ranges: Mutex<Vec<(usize, usize)>>,
    k: AtomicUsize,
}

impl gloo_net::Server for Host {
    fn answer(&self, range: Option<&str>) -> Result<(u16, Vec<u8>), String> {
        let k = self.k.fetch_add(1, Ordering::Relaxed);
        let Some((a, b)) = range.and_then(|r| r.strip_prefix("bytes=")).and_then(|r| r.split_once('-')) else {
            return Ok((200, self.data.to_vec()));
        };
        let (a, b): (usize, usize) = (a.parse().expect("range start"), b.parse().expect("range end"));
        self.ranges.lock().unwrap().push((a, b));
        let hit = |m: u64| k < 64 && m >> k & 1 == 1;
        match self.fault {
            Fault::Status(n, s) if n == k => return Ok((s, vec![])),
            Fault::StatusFrom(n, s) if k >= n => return Ok((s, vec![])),
            Fault::Transport(n) if n == k => return Err("connection reset".into()),
            Fault::Mask(m, 0) if hit(m) => return Ok((503, vec![])),
            Fault::Mask(m, 1) if hit(m) => return Err("connection reset".into()),
            _ => {}
        }
        if a >= self.data.len() || b < a {
            return Ok((416, vec![]));
        }
        let mut out = &self.data[a..(b + 1).min(self.data.len())];
        match self.fault {
            Fault::Cut(n, l) if n == k => out = &out[..l.min(out.len())],
            Fault::CutAll(l) => out = &out[..l.min(out.len())],
            Fault::Mask(m, l) if hit(m) => out = &out[..(l - 2).min(out.len())],
            _ => {}
        }
        Ok((206, out.to_vec()))
    }
    fn pending(&self) -> usize {
        self.pends
    }
}

/// A served file: closed when dropped.
struct Served {
    url: String,
    host: Arc<Host>,
}
impl Served {
    fn new(data: &Arc<Vec<u8>>, fault: Fault, pends: usize) -> Served {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let url = format!("http://web/{}", NEXT.fetch_add(1, Ordering::Relaxed));
        let host = Arc::new(Host { data: data.clone(), fault, pends, ranges: Mutex::default(), k: AtomicUsize::new(0) });
        gloo_net::serve(&url, host.clone());
        Served { url, host }
    }
}
impl Drop for Served {
    fn drop(&mut self) {
        gloo_net::close(&self.url);
    }
}

fn text_of(e: JsValue) -> String {
    e.as_string().unwrap_or_else(|| format!("{e:?}"))
}

fn js(v: Value) -> JsValue {
    match v {
        Value::Null => JsValue::Null,
        Value::Bool(b) => JsValue::Bool(b),
        Value::Number(n) => JsValue::Num(n.as_f64().unwrap()),
        Value::String(s) => JsValue::Str(s),
        Value::Array(a) => array(a.into_iter().map(js).collect()),
        Value::Object(o) => JsValue::Object(Arc::new(Mutex::new(o.into_iter().map(|(k, v)| (k, js(v))).collect()))),
    }
}
fn array(v: Vec<JsValue>) -> JsValue {
    JsValue::Array(Arc::new(Mutex::new(v)))
}

fn spatial_js(q: &Query) -> JsValue {
    let num = |n: f64| JsValue::Num(n);
    let s = |s: &str| JsValue::Str(s.to_string());
    let fields: Vec<(&str, JsValue)> = match q {
        Query::BBox(a, b, c, d) => {
            vec![("type", s("bbox")), ("minX", num(*a)), ("minY", num(*b)), ("maxX", num(*c)), ("maxY", num(*d))]
        }
        Query::PointIntersects(x, y) => vec![("type", s("pointIntersects")), ("x", num(*x)), ("y", num(*y))],
        Query::PointNearest(x, y) => vec![("type", s("pointNearest")), ("x", num(*x)), ("y", num(*y))],
    };
    JsValue::Object(Arc::new(Mutex::new(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())))
}
fn op_name(o: Operator) -> &'static str {
    match o {
        Operator::Eq => "Eq",
        Operator::Ne => "Ne",
        Operator::Gt => "Gt",
        Operator::Lt => "Lt",
        Operator::Ge => "Ge",
        Operator::Le => "Le",
    }
}
fn attr_js(q: &AttrQ) -> JsValue {
    array(
        q.iter()
            .map(|(name, op, key)| {
                let v = match key {
                    KeyType::Float64(x) => JsValue::Num(x.into_inner()),
                    KeyType::Bool(b) => JsValue::Bool(*b),
                    KeyType::StringKey50(s) => JsValue::Str(s.to_string_lossy()),
                    KeyType::DateTime(d) => JsValue::Date(d.timestamp_millis() as f64),
                    k => panic!("JavaScript has no {k:?}"),
                };
                array(vec![JsValue::Str(name.clone()), JsValue::Str(op_name(*op).into()), v])
            })
            .collect(),
    )
}

async fn start(url: &str, sel: &Sel) -> Result<AsyncFeatureIter, String> {
    let rd = HttpFcbReader::new(url.to_string()).await.map_err(|e| format!("open: {}", text_of(e)))?;
    match sel {
        Sel::All => rd.select_all().await,
        Sel::Spatial(q) => {
            let q = WasmSpatialQuery::new(&spatial_js(q)).map_err(|e| format!("query: {}", text_of(e)))?;
            rd.select_spatial(&q).await
        }
        Sel::Attr(q) => {
            let q = WasmAttrQuery::new(&attr_js(q)).map_err(|e| format!("query: {}", text_of(e)))?;
            rd.select_attr_query(&q).await
        }
    }
    .map_err(|e| format!("select: {}", text_of(e)))
}

fn drain(mut it: AsyncFeatureIter) -> Result<Got, String> {
    let count = it.features_count();
    let mut feats = Vec::new();
    while let Some(f) = block_on(it.next()).map_err(|e| format!("next: {}", text_of(e)))? {
        let f = f.json();
        let again = it.cur_cj_feature().map_err(|e| format!("current: {}", text_of(e)))?.json();
        if again != f {
            return Err(format!("the current feature is not the one delivered: {}", short(&again)));
        }
        feats.push(f);
        if feats.len() > 100_000 {
            return Err("endless iteration".into());
        }
    }
    Ok(Got { feats, count })
}

fn read_web(data: &Arc<Vec<u8>>, sel: &Sel, fault: Fault, pends: usize) -> (Result<Got, String>, Vec<(usize, usize)>) {
    let s = Served::new(data, fault, pends);
    let r = block_on(start(&s.url, sel)).and_then(drain);
    let ranges = s.host.ranges.lock().unwrap().clone();
    (r, ranges)
}

/// Reads, repeating a failed step up to `retries` times in all.
fn read_retry(data: &Arc<Vec<u8>>, sel: &Sel, fault: Fault, pends: usize, retries: usize) -> Result<(Outcome, usize), String> {
    let s = Served::new(data, fault, pends);
    let mut out = Outcome { feats: vec![], errors: 0, early: false, ended: false };
    let made = |s: &Served| s.host.ranges.lock().unwrap().len();
    let Ok(mut it) = block_on(start(&s.url, sel)) else {
        out.early = true;
        return Ok((out, made(&s)));
    };
    loop {
        match block_on(it.next()) {
            Ok(Some(f)) => {
                out.feats.push(f.json());
                if out.feats.len() > 10_000 {
                    return Err("endless iteration".into());
                }
            }
            Ok(None) => {
                out.ended = true;
                break;
            }
            Err(_) => {
                out.errors += 1;
                if out.errors > retries {
                    break;
                }
            }
        }
    }
    if out.ended && !matches!(block_on(it.next()), Ok(None)) {
        return Err("something after the end".into());
    }
    Ok((out, made(&s)))
}

// ---------------------------------------------------------------- files

const WHEN: [&str; 5] =
    ["1899-12-31T23:59:59.500Z", "1969-12-31T23:59:59.999Z", "1970-01-01T00:00:00Z", "2024-02-29T12:00:00.25Z", "1969-12-31T23:59:58Z"];

fn columns() -> Vec<(&'static str, C)> {
    vec![
        ("m", C::Double),
        ("n", C::Double),
        ("s", C::String),
        ("b", C::Bool),
        ("t", C::DateTime),
        ("l", C::Long),
        ("i", C::Int),
        ("u", C::ULong),
        ("f", C::Float),
        ("pad", C::String),
    ]
}

fn web_feature(k: usize, size: usize) -> Value {
    let x = 10 * k as i64;
    let h = if k % 2 == 0 { 5 } else { 1 };
    let id = format!("f{k}");
    let mut f = box_feature(&id, [x - 1, -h, x + 1, h]);
    f["CityObjects"][&id]["attributes"] = json!({
        "m": (k % 2 == 0) as u8 as f64, "n": k as f64 - 1.5, "s": (["", "a", "b\u{e9}", "x"][k % 4]).repeat(1 + 59 * (k % 4 / 3)),
        "b": k % 3 == 0, "t": WHEN[k % 5], "l": k as i64 - 2, "i": k as i64 - 2, "u": k as u64, "f": k as f64 / 2.0,
        "pad": "p".repeat(size),
    });
    if k % 3 == 1 {
        // a second object, which the same condition may select as well
        let id2 = format!("f{k}b");
        f["CityObjects"][&id2] = json!({"type": "BuildingPart", "parents": [id], "attributes": {
            "m": 1.0, "n": -1.5, "s": "a", "b": true, "t": WHEN[2], "l": -2, "i": -2, "u": 0, "f": 0.0}});
        f["CityObjects"][&id]["children"] = json!([id2]);
    }
    f
}

fn web_features(kind: usize, n: usize) -> Vec<Value> {
    // 0 small, 1 all beyond the first request, 2 mixed, 3 large
    let size = |k: usize| match kind {
        0 => 10,
        1 => 14_000,
        2 => [10, 20_000, 300_000, 10, 14_000, 400_000][k % 6],
        _ => [1_200_000, 10, 600_000][k % 3],
    };
    (0..n).map(|k| web_feature(k, size(k))).collect()
}

fn web_file(kind: usize, n: usize, secs: usize) -> Result<Arc<Vec<u8>>, String> {
    let sch: AttributeSchema = columns().iter().enumerate().map(|(i, (n, t))| (n.to_string(), (i as u16, *t))).collect();
    let mut o = Opts { schema: Some(sch), ..Opts::plain(secs & 1 == 1) };
    for a in [&[][..], &["m"], &["t", "m", "n", "l", "s", "b", "i", "u", "f"]][secs >> 1] {
        o = o.attr(a, Some(4));
    }
    Ok(Arc::new(write_fcb(&base_meta(), &web_features(kind, n), &o)?))
}

fn date(s: &str) -> DateTime<Utc> {
    s.parse().unwrap()
}

fn selections(n: usize, secs: usize) -> Vec<Sel> {
    let mut out = vec![Sel::All];
    if secs & 1 == 1 && n > 0 {
        out.push(Sel::Spatial(Query::BBox(-1e9, 4.0, 1e9, 4.5)));
        out.push(Sel::Spatial(Query::BBox(-1e9, -1e9, 1e9, 1e9)));
        out.push(Sel::Spatial(Query::PointNearest(0.0, 0.0)));
        out.push(Sel::Spatial(Query::PointIntersects(0.0, 0.0)));
        out.push(Sel::Spatial(Query::BBox(1e6, 1e6, 1e7, 1e7)));
    }
    let num = |x: f64| KeyType::Float64(Float(x));
    if secs >> 1 >= 1 && n > 0 {
        out.push(Sel::Attr(vec![("m".into(), Operator::Eq, num(1.0))]));
        out.push(Sel::Attr(vec![("m".into(), Operator::Ge, num(0.0))]));
    }
    if secs >> 1 >= 2 && n > 0 {
        out.push(Sel::Attr(vec![("n".into(), Operator::Gt, num(0.0)), ("m".into(), Operator::Ne, num(0.0))]));
        out.push(Sel::Attr(vec![("s".into(), Operator::Eq, KeyType::StringKey50(FixedStringKey::from_str("a")))]));
        out.push(Sel::Attr(vec![("t".into(), Operator::Lt, KeyType::DateTime(date(WHEN[2])))]));
        out.push(Sel::Attr(vec![("b".into(), Operator::Eq, KeyType::Bool(true)), ("n".into(), Operator::Lt, num(3.0))]));
    }
    out
}

// ---------------------------------------------------------------- queries in JavaScript

/// A value as JavaScript gives it, and the keys it could stand for.
fn values() -> Vec<(JsValue, &'static str)> {
    let mut out: Vec<(JsValue, &'static str)> = Vec::new();
    for n in [-1.5, -0.5, 0.0, 0.5, 1.0, 2.0, -2.0, 9007199254740992.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        out.push((JsValue::Num(n), "number"));
    }
    for s in ["", "a", "b\u{e9}", &"x".repeat(49), &"x".repeat(50), &"x".repeat(51), &"x".repeat(60), &"\u{e9}".repeat(26), &"y".repeat(120)] {
        out.push((JsValue::Str(s.to_string()), "string"));
    }
    out.push((JsValue::Bool(true), "bool"));
    out.push((JsValue::Bool(false), "bool"));
    for w in WHEN {
        for d in [-1i64, 0, 1] {
            out.push((JsValue::Date((date(w).timestamp_millis() + d) as f64), "date"));
        }
    }
    for t in [8.64e15, -8.64e15, f64::NAN] {
        out.push((JsValue::Date(t), "date"));
    }
    for v in [JsValue::Undefined, JsValue::Null, array(vec![]), js(json!({"a": 1}))] {
        out.push((v, "other"));
    }
    out
}

/// What the library is asked instead, if the column can be compared with the value.
fn key_for(t: C, v: &JsValue) -> Option<KeyType> {
    let int = |lo: f64, hi: f64, n: f64| n.fract() == 0.0 && n >= lo && n <= hi;
    Some(match (t, v) {
        (C::Double, JsValue::Num(n)) => KeyType::Float64(Float(*n)),
        (C::Float, JsValue::Num(n)) if f64::from(*n as f32) == *n => KeyType::Float32(Float(*n as f32)),
        (C::Int, JsValue::Num(n)) if int(-2147483648.0, 2147483647.0, *n) => KeyType::Int32(*n as i32),
        (C::Long, JsValue::Num(n)) if int(-9e15, 9e15, *n) => KeyType::Int64(*n as i64),
        (C::ULong, JsValue::Num(n)) if int(0.0, 9e15, *n) => KeyType::UInt64(*n as u64),
        (C::String, JsValue::Str(s)) => KeyType::StringKey50(FixedStringKey::from_str(s)),
        (C::Bool, JsValue::Bool(b)) => KeyType::Bool(*b),
        (C::DateTime, JsValue::Date(d)) => KeyType::DateTime(DateTime::from_timestamp_millis(d.is_finite().then_some(*d as i64)?)?),
        _ => return None,
    })
}

/// Whether the reader for browsers has to be able to ask for it: the others it may refuse.
fn must(t: C, v: &JsValue) -> bool {
    match (t, v) {
        (C::Double, JsValue::Num(_)) | (C::Bool, JsValue::Bool(_)) => true,
        (C::String, JsValue::Str(s)) => s.len() <= 50,
        (C::DateTime, JsValue::Date(_)) => key_for(t, v).is_some(),
        _ => false,
    }
}

fn ask_js(data: &Arc<Vec<u8>>, q: &JsValue) -> Result<Got, String> {
    let s = Served::new(data, Fault::None, 0);
    let q = WasmAttrQuery::new(q).map_err(|e| format!("query: {}", text_of(e)))?;
    block_on(async {
        let rd = HttpFcbReader::new(s.url.clone()).await.map_err(|e| format!("open: {}", text_of(e)))?;
        rd.select_attr_query(&q).await.map_err(|e| format!("select: {}", text_of(e)))
    })
    .and_then(drain)
}

fn compare(
    ctx: &mut Ctx,
    data: &Arc<Vec<u8>>,
    cs: &[(&'static str, C, Operator, &JsValue)],
) -> Result<(), String> {
    let q = array(
        cs.iter()
            .map(|c| array(vec![JsValue::Str(c.0.into()), JsValue::Str(op_name(c.2).into()), c.3.clone()]))
            .collect(),
    );
    let keys: Option<AttrQ> = cs.iter().map(|c| Some((c.0.to_string(), c.2, key_for(c.1, c.3)?))).collect();
    let needed = cs.iter().all(|c| must(c.1, c.3));
    ctx.trans(1);
    match (ask_js(data, &q), keys) {
        (Ok(got), Some(k)) => {
            ctx.outcome("asked");
            let want = read_mode(data, Mode::Seek, &Sel::Attr(k)).map_err(|e| format!("{:?}: local: {e}", q.json()))?;
            same(&want, &got).map_err(|e| format!("{}: {e}", q.json()))
        }
        (Ok(got), None) => Err(format!("{}: answered {:?}", q.json(), got.ids())),
        (Err(e), Some(_)) if needed => Err(format!("{}: {e}", q.json())),
        (Err(_), _) => {
            ctx.outcome("query refused");
            Ok(())
        }
    }
}

fn run_queries(ctx: &mut Ctx) {
    let vals = values();
    let cols = columns();
    for (ci, (name, t)) in cols.iter().enumerate().filter(|c| c.1 .0 != "pad") {
        for op in OPS {
            ctx.case(|| format!("ask:{ci}:{op:?}"), |ctx| {
                let data = web_file(0, 9, 4 | ci % 2)?;
                ctx.trace();
                for (vi, (v, _)) in vals.iter().enumerate() {
                    ctx.state(&(ci, op_name(op), vi));
                    compare(ctx, &data, &[(name, *t, op, v)])?;
                }
                Ok(())
            });
        }
    }
    // pairs of conditions
    let pick: Vec<(&'static str, C, Operator, &JsValue)> = cols
        .iter()
        .filter(|c| ["n", "s", "b", "t", "l"].contains(&c.0))
        .flat_map(|c| {
            let vals = &vals;
            [Operator::Eq, Operator::Ge, Operator::Ne].into_iter().flat_map(move |op| {
                vals.iter()
                    .filter(|v| must(c.1, &v.0))
                    .enumerate()
                    .filter(|(i, _)| i % 4 == 0)
                    .map(move |(_, v)| (c.0, c.1, op, &v.0))
            })
        })
        .collect();
    for i in 0..pick.len() {
        ctx.case(|| format!("pairs:{i}"), |ctx| {
            let data = web_file(0, 9, 5)?;
            ctx.trace();
            for j in 0..pick.len() {
                ctx.state(&("pair", i, j));
                compare(ctx, &data, &[pick[i], pick[j]])?;
            }
            Ok(())
        });
    }
    // what is not a query is refused, in one step or the other
    let name = || JsValue::Str("m".into());
    let eq = || JsValue::Str("Eq".into());
    let one = || JsValue::Num(1.0);
    let mut bad: Vec<JsValue> = vec![
        array(vec![]),
        JsValue::Undefined,
        JsValue::Num(3.0),
        JsValue::Str("m".into()),
        array(vec![array(vec![])]),
        array(vec![array(vec![name(), eq()])]),
        array(vec![name(), eq(), one()]),
        array(vec![array(vec![one(), eq(), one()])]),
        array(vec![array(vec![JsValue::Undefined, eq(), one()])]),
        array(vec![array(vec![name(), one(), one()])]),
        array(vec![array(vec![JsValue::Str("nothing".into()), eq(), one()])]),
        array(vec![array(vec![JsValue::Str("pad".into()), eq(), JsValue::Str("p".into())])]),
        array(vec![array(vec![name(), eq(), one()]), array(vec![name()])]),
        array(vec![array(vec![name(), eq(), one()]), array(vec![name(), eq(), JsValue::Undefined])]),
    ];
    for op in ["", "eq", "EQ", "=", "==", "Equal", "Neq", "GT", "Eq "] {
        bad.push(array(vec![array(vec![name(), JsValue::Str(op.into()), one()])]));
    }
    for (k, b) in bad.iter().enumerate() {
        ctx.case(|| format!("bad:{k}"), |ctx| {
            ctx.trans(1);
            ctx.state(&("bad", k));
            match ask_js(&web_file(0, 5, 5)?, b) {
                Err(_) => {
                    ctx.outcome("query refused");
                    Ok(())
                }
                Ok(g) => Err(format!("{}: answered {:?}", b.json(), g.ids())),
            }
        });
    }
    // a query tells what it was made of
    for (k, (v, kind)) in vals.iter().enumerate() {
        ctx.case(|| format!("told:{k}"), |ctx| {
            ctx.trans(OPS.len() as u64);
            for op in OPS {
                let tuple = array(vec![JsValue::Str("m".into()), JsValue::Str(op_name(op).into()), v.clone()]);
                let Ok(q) = WasmAttrQuery::new(&array(vec![tuple])) else {
                    if *kind == "other" || key_for(C::DateTime, v).is_none() && *kind == "date" {
                        ctx.outcome("query refused");
                        continue;
                    }
                    return Err(format!("{v:?} is refused"));
                };
                let told = q.inner().json();
                let (name, o, got) = (&told[0][0], &told[0][1], &told[0][2]);
                let right = match v {
                    JsValue::Date(d) => got.as_str().is_some_and(|s| {
                        DateTime::parse_from_rfc3339(s).is_ok_and(|t| t.timestamp_millis() as f64 == *d)
                            || !(-62135596800000.0..253402300799999.0).contains(d)
                    }),
                    JsValue::Str(s) if s.len() > 100 => got.as_str().is_some_and(|g| s.starts_with(g)),
                    _ => *got == v.json(),
                };
                if name != "m" || o != op_name(op) || !right {
                    return Err(format!("made of {v:?} with {}: tells {told}", op_name(op)));
                }
            }
            ctx.state(&("told", k));
            Ok(())
        });
    }
    // spatial queries: every field missing or of another kind
    let whole = [
        Query::BBox(-1.0, 2.0, 3.5, 4.25),
        Query::BBox(f64::NEG_INFINITY, -0.0, 1e300, f64::INFINITY),
        Query::PointIntersects(1.0, -2.0),
        Query::PointNearest(-3.0, 0.25),
    ];
    for (k, q) in whole.iter().enumerate() {
        ctx.case(|| format!("spatial:{k}"), |ctx| {
            ctx.state(&("spatial", k));
            let given = spatial_js(q);
            let made = WasmSpatialQuery::new(&given).map_err(|e| format!("{given:?}: {}", text_of(e)))?;
            if made.to_js().json() != given.json() {
                return Err(format!("{} tells {}", given.json(), made.to_js().json()));
            }
            let told = (made.query_type(), made.min_x(), made.min_y(), made.max_x(), made.max_y(), made.x(), made.y());
            let want = match q {
                Query::BBox(a, b, c, d) => ("bbox".to_string(), Some(*a), Some(*b), Some(*c), Some(*d), None, None),
                Query::PointIntersects(x, y) => ("pointIntersects".to_string(), None, None, None, None, Some(*x), Some(*y)),
                Query::PointNearest(x, y) => ("pointNearest".to_string(), None, None, None, None, Some(*x), Some(*y)),
            };
            if told != want {
                return Err(format!("{} tells {told:?}", given.json()));
            }
            ctx.outcome("asked");
            let JsValue::Object(o) = &given else { unreachable!() };
            let fields: Vec<String> = o.lock().unwrap().keys().cloned().collect();
            for f in &fields {
                for v in [None, Some(JsValue::Undefined), Some(JsValue::Null), Some(JsValue::Str("1".into())), Some(JsValue::Bool(true)), Some(js(json!([1])))] {
                    let mut m = o.lock().unwrap().clone();
                    match &v {
                        None => {
                            m.remove(f);
                        }
                        Some(v) => {
                            m.insert(f.clone(), v.clone());
                        }
                    }
                    ctx.trans(1);
                    let bad = JsValue::Object(Arc::new(Mutex::new(m)));
                    if WasmSpatialQuery::new(&bad).is_ok() {
                        return Err(format!("{} is taken for a query", bad.json()));
                    }
                    ctx.outcome("query refused");
                }
            }
            for bad in [JsValue::Undefined, JsValue::Num(1.0), js(json!({})), js(json!([])), js(json!({"type": "BBOX"}))] {
                if WasmSpatialQuery::new(&bad).is_ok() {
                    return Err(format!("{bad:?} is taken for a query"));
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- reading

fn run_reading(ctx: &mut Ctx) {
    let ns = ctx.t(vec![0usize, 1, 2, 3, 6, 17], vec![0, 1, 2, 3, 4, 5, 6, 9, 16, 17, 18, 40]);
    for kind in 0..4 {
        for n in ns.iter().copied().chain(if kind == 0 { vec![256, 257, 300] } else { vec![] }) {
            for secs in 0..6usize {
                for s in 0..selections(n, secs).len() {
                    ctx.case(|| format!("same:{kind}:{n}:{secs}:{s}"), |ctx| {
                        let data = web_file(kind, n, secs)?;
                        let sel = selections(n, secs).swap_remove(s);
                        let want = read_mode(&data, Mode::Seek, &sel).map_err(|e| format!("{sel:?}: local: {e}"))?;
                        for p in 0..2 {
                            let (got, reqs) = read_web(&data, &sel, Fault::None, p);
                            let got = got.map_err(|e| format!("{sel:?}: {e}"))?;
                            ctx.trans(got.feats.len() as u64 + 1);
                            same(&want, &got).map_err(|e| format!("{sel:?}: {e}"))?;
                            ctx.state(&(kind, n, secs, s, reqs));
                        }
                        ctx.outcome("same");
                        ctx.trace();
                        Ok(())
                    });
                }
                // metadata and the summary of the columns
                ctx.case(|| format!("header:{kind}:{n}:{secs}"), |ctx| {
                    let data = web_file(kind, n, secs)?;
                    let s = Served::new(&data, Fault::None, 0);
                    let rd = block_on(HttpFcbReader::new(s.url.clone())).map_err(text_of)?;
                    let cj = rd.cityjson().map_err(text_of)?.json();
                    let meta = rd.meta().map_err(text_of)?.json();
                    let it = block_on(rd.select_all()).map_err(text_of)?;
                    let local = FcbReader::open(data.as_slice()).and_then(|r| to_cj_metadata(&r.header())).map_err(|e| e.to_string())?;
                    let want = serde_json::to_value(local).unwrap();
                    if let Some(d) = diff(&want, &cj).or_else(|| diff(&want, &it.header().unwrap_or(JsValue::Null).json())) {
                        return Err(format!("metadata: {d}"));
                    }
                    let listed: Vec<Value> = columns()
                        .iter()
                        .enumerate()
                        .map(|(i, (name, t))| {
                            let on = match secs >> 1 {
                                _ if n == 0 => false,
                                0 => false,
                                1 => *name == "m",
                                _ => *name != "pad",
                            };
                            json!([i, name, format!("{t:?}"), on])
                        })
                        .collect();
                    let told: Vec<Value> = meta["columns"]
                        .as_array()
                        .ok_or("no columns")?
                        .iter()
                        .map(|c| json!([c["index"], c["name"], c["type"], c["attrIndex"]]))
                        .collect();
                    if told != listed || meta["featureCount"] != n {
                        return Err(format!("summary: {told:?}"));
                    }
                    ctx.outcome("same");
                    ctx.trans(2);
                    Ok(())
                });
            }
        }
    }
}

fn run_failing(ctx: &mut Ctx) {
    let ns = ctx.t(vec![0usize, 1, 2, 5], vec![0, 1, 2, 3, 5, 9, 17]);
    let bits = ctx.t(6usize, 9);
    for kind in 0..4 {
        for n in ns.iter().copied().chain(if kind == 0 { vec![300] } else { vec![] }) {
            for secs in [0usize, 1, 5] {
                for s in 0..selections(n, secs).len() {
                    let what = format!("{kind}:{n}:{secs}:{s}");
                    ctx.case(|| format!("single:{what}"), |ctx| {
                        let data = web_file(kind, n, secs)?;
                        let sel = selections(n, secs).swap_remove(s);
                        let want = read_mode(&data, Mode::Seek, &sel)?;
                        let (_, reqs) = read_web(&data, &sel, Fault::None, 0);
                        ctx.state(&(kind, n, secs, s, "single"));
                        ctx.trace();
                        for k in 0..reqs.len() {
                            let len = (reqs[k].1 + 1).min(data.len()) - reqs[k].0;
                            for f in [Fault::Status(k, 404), Fault::Status(k, 416), Fault::Status(k, 500), Fault::Status(k, 302), Fault::Transport(k)] {
                                let (o, _) = read_retry(&data, &sel, f, k % 2, 3)?;
                                judge(ctx, &want, &o, 1, true, &format!("{sel:?} {f:?}"))?;
                                if !o.early && !o.ended {
                                    return Err(format!("{sel:?} {f:?}: one failure is not survived by a retry"));
                                }
                            }
                            let (o, _) = read_retry(&data, &sel, Fault::StatusFrom(k, 503), 0, 3)?;
                            if o.ended || !(o.early || o.errors == 4) {
                                return Err(format!("{sel:?}: server down from request {k}: {} errors, ended {}", o.errors, o.ended));
                            }
                            let mut cuts = vec![0, 1, 3, 4, 5, 7, 8, 11, 12, 40, len / 2, len.saturating_sub(5), len.saturating_sub(4), len - 1];
                            cuts.sort();
                            cuts.dedup();
                            for c in cuts.into_iter().filter(|c| *c < len) {
                                let f = Fault::Cut(k, c);
                                let (o, _) = read_retry(&data, &sel, f, 0, 3)?;
                                judge(ctx, &want, &o, 1, false, &format!("{sel:?} {f:?}"))?;
                                if !o.early && !o.ended {
                                    return Err(format!("{sel:?} {f:?}: one short answer is not survived by a retry"));
                                }
                            }
                        }
                        Ok(())
                    });
                    if kind == 3 && n > 3 || n > 20 {
                        continue;
                    }
                    ctx.case(|| format!("sets:{what}"), |ctx| {
                        let data = web_file(kind, n, secs)?;
                        let sel = selections(n, secs).swap_remove(s);
                        let want = read_mode(&data, Mode::Seek, &sel)?;
                        let (_, reqs) = read_web(&data, &sel, Fault::None, 0);
                        ctx.trace();
                        let b = (2 * reqs.len() + 1).min(bits);
                        for mask in 0u64..1 << b {
                            for how in [0usize, 1, 2, 2 + 4] {
                                let (o, made) = read_retry(&data, &sel, Fault::Mask(mask, how), 0, 64)?;
                                let hit = (mask & ((1u64 << made.min(63)) - 1)).count_ones() as usize;
                                judge(ctx, &want, &o, hit, how < 2, &format!("{sel:?} mask {mask:b} kind {how}"))?;
                                if !o.early && !o.ended {
                                    return Err(format!("{sel:?} mask {mask:b} kind {how}: never recovers"));
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // every prefix of a file
    for (n, secs) in [(0usize, 0usize), (0, 1), (3, 0), (3, 1), (3, 4), (3, 5)] {
        for s in 0..selections(n, secs).len() {
            ctx.case(|| format!("prefix:{n}:{secs}:{s}"), |ctx| {
                let data = web_file(0, n, secs)?;
                let sel = selections(n, secs).swap_remove(s);
                let want = read_mode(&data, Mode::Seek, &sel)?;
                ctx.trace();
                for l in 0..data.len() {
                    let cut = Arc::new(data[..l].to_vec());
                    let (o, _) = read_retry(&cut, &sel, Fault::None, 0, 0).map_err(|e| format!("{sel:?} of {l} bytes: {e}"))?;
                    judge(ctx, &want, &o, usize::MAX, false, &format!("{sel:?} of {l} of {} bytes", data.len()))?;
                }
                ctx.state(&("prefix", n, secs, s));
                Ok(())
            });
        }
    }
}

/// Every byte of small files changed to several values: an answer or an error, and no feature after a failed one.
fn run_damaged(ctx: &mut Ctx) {
    for (n, secs) in [(1usize, 1usize), (3, 0), (3, 5), (17, 1)] {
        for s in 0..selections(n, secs).len() {
            for block in 0..8usize {
                ctx.case(|| format!("damaged:{n}:{secs}:{s}:{block}"), |ctx| {
                    let data = web_file(0, n, secs)?;
                    let sel = selections(n, secs).swap_remove(s);
                    ctx.trace();
                    for at in (block..data.len()).step_by(8) {
                        let b = data[at];
                        for v in [0u8, 1, 0x7f, 0x80, 0xff, b ^ 1, b.wrapping_add(1), b.wrapping_sub(1)] {
                            if v == b {
                                continue;
                            }
                            let mut d = data.to_vec();
                            d[at] = v;
                            let r = guarded(|| read_retry(&Arc::new(d), &sel, Fault::None, 0, 0));
                            ctx.trans(1);
                            match r {
                                Ok(Ok((o, _))) => {
                                    ctx.outcome(if o.ended { "damage unseen" } else { "damage reported" });
                                }
                                Ok(Err(e)) | Err(e) => return Err(format!("{sel:?}: byte {at} from {b} to {v}: {e}")),
                            }
                        }
                    }
                    ctx.state(&("damaged", n, secs, s, block));
                    Ok(())
                });
            }
        }
    }
}

// ---------------------------------------------------------------- merging

fn real(m: &Value, v: &Value) -> Option<[String; 3]> {
    let t = &m["transform"];
    let c = |i: usize| -> Option<String> {
        // rounded, since merging goes through other integers
        Some(format!("{:.3}", v[i].as_f64()? * t["scale"][i].as_f64()? + t["translate"][i].as_f64()?).replace("-0.000", "0.000"))
    };
    Some([c(0)?, c(1)?, c(2)?])
}

fn resolved(m: &Value, vs: &Value, b: &Value) -> Value {
    match b {
        Value::Array(a) => Value::from(a.iter().map(|b| resolved(m, vs, b)).collect::<Vec<_>>()),
        b => json!(b.as_u64().and_then(|i| real(m, &vs[i as usize]))),
    }
}

fn run_merging(ctx: &mut Ctx) {
    let metas = super::dataset::transforms();
    for n in 0..=ctx.t(3usize, 4) {
        odometer(n, 3, |w| {
            for (mi, m) in metas.iter().enumerate() {
                ctx.case(|| format!("merge:{w:?}:m{mi}"), |ctx| {
                    ctx.outcome("merged");
                    ctx.trace();
                    ctx.state(&(w, mi));
                    let feats: Vec<Value> = w
                        .iter()
                        .enumerate()
                        .map(|(k, p)| match p {
                            0 => point_feature(&format!("f{k}"), k as i64, 2, json!({"a": k})),
                            1 => box_feature(&format!("f{k}"), [k as i64, 0, k as i64 + 5, 3]),
                            // shares vertices with the others
                            _ => box_feature(&format!("f{k}"), [0, 0, 5, 3]),
                        })
                        .collect();
                    let merged = fcb_web::util::cjseq_to_cj_wasm(js(m.clone()), js(json!(feats))).map_err(text_of)?.json();
                    ctx.trans(1);
                    let got = merged["CityObjects"].as_object().ok_or("no objects")?;
                    if got.len() != n {
                        return Err(format!("{} objects of {n}", got.len()));
                    }
                    for f in &feats {
                        let id = f["id"].as_str().unwrap();
                        let (a, b) = (&f["CityObjects"][id], &got.get(id).ok_or(format!("{id} is lost"))?);
                        let ra = resolved(m, &f["vertices"], &a["geometry"][0]["boundaries"]);
                        let rb = resolved(&merged, &merged["vertices"], &b["geometry"][0]["boundaries"]);
                        if ra != rb {
                            return Err(format!("{id} lies at {rb}, not {ra}"));
                        }
                        if a.get("attributes") != b.get("attributes") || a["type"] != b["type"] {
                            return Err(format!("{id} is {b}"));
                        }
                    }
                    // the same, on the way to OBJ
                    let mut seq = vec![m.clone()];
                    seq.extend(feats.iter().cloned());
                    let obj = fcb_web::convert_cityjson_to_obj(&js(json!(seq))).map_err(text_of)?;
                    let whole = fcb_web::convert_cityjson_to_obj(&js(merged)).map_err(text_of)?;
                    let count = |s: &str, p: &str| s.lines().filter(|l| l.starts_with(p)).count();
                    if count(&obj, "v ") != count(&whole, "v ") || count(&obj, "f ") != count(&whole, "f ") {
                        return Err(format!("the sequence gives\n{obj}\nand the merged object\n{whole}"));
                    }
                    if count(&obj, "f ") < w.iter().filter(|p| **p > 0).count() {
                        return Err(format!("surfaces are lost:\n{obj}"));
                    }
                    Ok(())
                });
            }
        });
    }
    let f = box_feature("f", [0, 0, 5, 3]);
    let bad: Vec<Value> = vec![
        json!([]),
        json!([f]),
        json!([{}]),
        json!([null]),
        json!([base_meta(), {}]),
        json!([base_meta(), f, null]),
        json!([base_meta(), f, {"type": "CityJSONFeature"}]),
        json!({}),
        json!(3),
    ];
    for (k, b) in bad.iter().enumerate() {
        ctx.case(|| format!("unmerged:{k}"), |ctx| {
            ctx.outcome("query refused");
            ctx.trans(1);
            match fcb_web::convert_cityjson_to_obj(&js(b.clone())) {
                Err(_) => Ok(()),
                Ok(o) => Err(format!("{} gives {o:?}", short(b))),
            }
        });
    }
}

fn run_web(ctx: &mut Ctx) {
    run_reading(ctx);
    run_queries(ctx);
    run_failing(ctx);
    run_damaged(ctx);
    run_merging(ctx);
}

pub const P28: Prop = Prop {
    id: "P28",
    level: "model_checking",
    run: run_web,
    case_secs: 240,
    required_outcomes: &["same", "asked", "query refused", "refused", "recovered", "unharmed", "broken off", "merged"],
    assumptions: &[
        "the JavaScript side (values, fetch, serde) is a stand-in: the sources of the reader run natively, not in a browser",
        "numbers asked of integer and 32-bit columns, and strings over 50 bytes, may be refused",
    ],
    bounds: |t| match t {
        Tier::Quick => json!({"features": [0, 1, 2, 3, 6, 17, 256, 257, 300], "sections": 6, "selections": 12, "values": 45, "failing_requests": "each single one, all from each one, every set of the first 6", "prefixes": "all of 6 files", "merged": "words of 3 over 3"}),
        Tier::Thorough => json!({"features": [0, 1, 2, 3, 4, 5, 6, 9, 16, 17, 18, 40, 256, 257, 300], "sections": 6, "selections": 12, "values": 45, "failing_requests": "each single one, all from each one, every set of the first 9", "prefixes": "all of 6 files", "merged": "words of 4 over 3"}),
    },
};
