//! P14 single conditions, P15 conjunctions, P16 agreement of all ways to read.

use super::btree::{dates, holds, OPS};
use super::dataset::{nth_feature, transforms};
use super::Prop;
use crate::core::{Ctx, Tier};
use crate::data::*;
use crate::shapes::*;
use chrono::{DateTime, Utc};
use fcb_core::attribute::AttributeSchema;
use fcb_core::header_generated::ColumnType as C;
use fcb_core::packed_rtree::Query;
use fcb_core::{FixedStringKey, Float, KeyType, Operator};
use serde_json::{json, Map, Value};
use std::cmp::Ordering;
use std::io::{Cursor, Seek, SeekFrom};
use std::collections::HashMap;
use std::sync::Arc;

/// The value a column holds, as conditions see it.
#[derive(Clone, Debug)]
pub enum Dom {
    I(i128),
    /// numbers in their order, NaN above all of them
    F(f64),
    B(bool),
    S(Vec<u8>),
    D(DateTime<Utc>),
}

impl PartialEq for Dom {
    fn eq(&self, o: &Dom) -> bool {
        self.partial_cmp(o) == Some(Ordering::Equal)
    }
}
impl PartialOrd for Dom {
    fn partial_cmp(&self, o: &Dom) -> Option<Ordering> {
        Some(match (self, o) {
            (Dom::I(a), Dom::I(b)) => a.cmp(b),
            (Dom::B(a), Dom::B(b)) => a.cmp(b),
            (Dom::S(a), Dom::S(b)) => a.cmp(b),
            (Dom::D(a), Dom::D(b)) => a.cmp(b),
            (Dom::F(a), Dom::F(b)) => match (a.is_nan(), b.is_nan()) {
                (true, true) => Ordering::Equal,
                (true, false) => Ordering::Greater,
                (false, true) => Ordering::Less,
                _ => a.partial_cmp(b).unwrap(),
            },
            _ => return None,
        })
    }
}

/// Strings take part with their first 50 bytes.
fn text(s: &str) -> Dom {
    let b = s.as_bytes();
    let mut b = b[..b.len().min(50)].to_vec();
    while b.last() == Some(&0) {
        b.pop();
    }
    Dom::S(b)
}

/// What a column of the type holds of a value, if it can hold it.
pub fn held(t: C, v: &Value) -> Option<Dom> {
    let int = |lo: i128, hi: i128| {
        let i = v.as_i64().map(i128::from).or_else(|| v.as_u64().map(i128::from))?;
        (lo <= i && i <= hi).then_some(Dom::I(i))
    };
    match t {
        C::Bool => v.as_bool().map(Dom::B),
        C::Byte => int(-128, 127),
        C::UByte => int(0, 255),
        C::Short => int(-32768, 32767),
        C::UShort => int(0, 65535),
        C::Int => int(i32::MIN.into(), i32::MAX.into()),
        C::UInt => int(0, u32::MAX.into()),
        C::Long => int(i64::MIN.into(), i64::MAX.into()),
        C::ULong => int(0, u64::MAX.into()),
        C::Float => v.as_f64().map(|x| Dom::F(f64::from(x as f32))),
        C::Double => v.as_f64().map(Dom::F),
        C::String => v.as_str().map(text),
        C::DateTime => {
            let d = DateTime::parse_from_rfc3339(v.as_str()?).ok()?;
            Some(Dom::D(d.with_timezone(&Utc)))
        }
        _ => None,
    }
}

pub fn key_of(t: C, d: &Dom) -> KeyType {
    match (t, d) {
        (C::Byte, Dom::I(i)) => KeyType::Int8(*i as i8),
        (C::UByte, Dom::I(i)) => KeyType::UInt8(*i as u8),
        (C::Short, Dom::I(i)) => KeyType::Int16(*i as i16),
        (C::UShort, Dom::I(i)) => KeyType::UInt16(*i as u16),
        (C::Int, Dom::I(i)) => KeyType::Int32(*i as i32),
        (C::UInt, Dom::I(i)) => KeyType::UInt32(*i as u32),
        (C::Long, Dom::I(i)) => KeyType::Int64(*i as i64),
        (C::ULong, Dom::I(i)) => KeyType::UInt64(*i as u64),
        (C::Float, Dom::F(x)) => KeyType::Float32(Float(*x as f32)),
        (C::Double, Dom::F(x)) => KeyType::Float64(Float(*x)),
        (C::Bool, Dom::B(b)) => KeyType::Bool(*b),
        (C::String, Dom::S(s)) => {
            KeyType::StringKey50(FixedStringKey::from_str(std::str::from_utf8(s).unwrap()))
        }
        (C::DateTime, Dom::D(d)) => KeyType::DateTime(*d),
        _ => panic!("no key for {t:?} {d:?}"),
    }
}

/// Column types that can be indexed, with values to store and further values to ask for.
pub fn columns() -> Vec<(C, Vec<Value>, Vec<Dom>)> {
    let ints = |lo: i128, hi: i128, vals: Vec<Value>| {
        (vals, vec![Dom::I(lo), Dom::I(hi), Dom::I(1), Dom::I(5)])
    };
    let mut out = Vec::new();
    for (t, lo, hi) in [
        (C::Byte, i128::from(i8::MIN), i128::from(i8::MAX)),
        (C::UByte, 0, i128::from(u8::MAX)),
        (C::Short, i16::MIN.into(), i16::MAX.into()),
        (C::UShort, 0, u16::MAX.into()),
        (C::Int, i32::MIN.into(), i32::MAX.into()),
        (C::UInt, 0, u32::MAX.into()),
        (C::Long, i64::MIN.into(), i64::MAX.into()),
        (C::ULong, 0, u64::MAX.into()),
    ] {
        let num = |i: i128| if i < 0 { json!(i as i64) } else { json!(i as u64) };
        let (v, k) = ints(lo, hi, vec![num(lo), json!(3), num(hi)]);
        out.push((t, v, k));
    }
    out.push((
        C::Float,
        vec![json!(-1.5), json!(0.1), json!(3e30)],
        vec![Dom::F(0.0), Dom::F(f64::INFINITY), Dom::F(f64::NAN), Dom::F(f64::NEG_INFINITY)],
    ));
    out.push((
        C::Double,
        vec![json!(-1.5e300), json!(0), json!(0.1)],
        vec![Dom::F(-0.0), Dom::F(f64::INFINITY), Dom::F(f64::NAN), Dom::F(0.1f32.into())],
    ));
    out.push((C::Bool, vec![json!(false), json!(true)], vec![]));
    out.push((
        C::String,
        vec![json!(""), json!("b\u{e9}"), json!("x".repeat(60))],
        vec![text("b"), text(&"x".repeat(49)), text("\u{10ffff}"), text("a")],
    ));
    let d = dates();
    out.push((
        C::DateTime,
        vec![
            json!("1899-12-31T23:59:59Z"),
            json!("2024-02-29T14:00:00+02:00"),
            json!("2024-02-29T12:00:00.000000001Z"),
        ],
        vec![Dom::D(d[5]), Dom::D(d[0]), Dom::D(d[6]), Dom::D(d[3])],
    ));
    out
}

/// A value that columns of the type cannot hold.
fn misfit(t: C) -> Value {
    match t {
        C::Byte => json!(128),
        C::UByte | C::UShort | C::UInt | C::ULong => json!(-1),
        C::Short => json!(40000),
        C::Int => json!(1i64 << 31),
        C::Long => json!(1u64 << 63),
        C::Float | C::Double => json!("1.5"),
        C::Bool => json!(1),
        C::String => json!(["x"]),
        _ => json!("yesterday"),
    }
}

/// One city object per inner map; every feature lies at its own place.
pub fn attr_feature(k: usize, objects: &[Map<String, Value>]) -> Value {
    let mut objs = Map::new();
    for (i, a) in objects.iter().enumerate() {
        let mut o = json!({"type": if i == 0 { "Building" } else { "BuildingPart" }});
        if !a.is_empty() {
            o["attributes"] = Value::Object(a.clone());
        }
        if i == 0 {
            o["geometry"] = json!([{"type": "MultiPoint", "lod": "1", "boundaries": [0]}]);
        }
        objs.insert(format!("f{k}-{i}"), o);
    }
    // neither the order of insertion nor its reverse
    let (x, y) = ((k * 7) as i64 % 10 - 4, (k * 3) as i64 % 7 + k as i64 / 70);
    feature(&format!("f{k}"), Value::Object(objs), json!([[x, y, 0]]))
}

pub type Schema = Vec<(&'static str, C)>;

pub fn schema(s: &[(&'static str, C)]) -> AttributeSchema {
    s.iter().enumerate().map(|(i, (n, t))| (n.to_string(), (i as u16, *t))).collect()
}

/// Whether the feature has an object whose value satisfies the condition.
pub fn satisfies(f: &Value, name: &str, t: C, op: Operator, key: &Dom) -> bool {
    f["CityObjects"].as_object().unwrap().values().any(|o| {
        o.get("attributes")
            .and_then(|a| a.get(name))
            .and_then(|v| held(t, v))
            .is_some_and(|v| holds(op, &v, key))
    })
}

pub fn ids_where(order: &[Value], p: impl Fn(&Value) -> bool) -> Vec<String> {
    order.iter().filter(|f| p(f)).map(|f| f["id"].as_str().unwrap().to_string()).collect()
}

/// The given features in the order in which the file holds them.
pub fn in_file_order(data: &Arc<Vec<u8>>, feats: &[Value]) -> Result<Vec<Value>, String> {
    let ids = read_mode(data, Mode::Seek, &Sel::All)?.ids();
    let by_id: HashMap<&str, &Value> = feats.iter().map(|f| (f["id"].as_str().unwrap(), f)).collect();
    ids.iter()
        .map(|i| by_id.get(i.as_str()).map(|f| (*f).clone()).ok_or(format!("unknown feature {i}")))
        .collect()
}

/// Asks in all modes and compares identifiers, order and count.
pub fn ask(ctx: &mut Ctx, data: &Arc<Vec<u8>>, q: &AttrQ, want: &[String]) -> Result<(), String> {
    for mode in MODES {
        ctx.trans(1);
        let got = read_mode(data, mode, &Sel::Attr(q.clone())).map_err(|e| format!("{mode:?} {q:?}: {e}"))?;
        let ids = got.ids();
        if ids != want || !got.counts(want.len()) {
            return Err(format!("{mode:?} {q:?}: expected {want:?} got {ids:?} (count {:?})", got.count));
        }
    }
    Ok(())
}

/// Every mode refuses.
pub fn refused(ctx: &mut Ctx, data: &Arc<Vec<u8>>, q: &AttrQ) -> Result<(), String> {
    ctx.outcome("refused");
    for mode in MODES {
        ctx.trans(1);
        if let Ok(g) = read_mode(data, mode, &Sel::Attr(q.clone())) {
            return Err(format!("{mode:?} {q:?}: answered {:?} instead of refusing", g.ids()));
        }
    }
    Ok(())
}

fn outcome_of(n: usize, all: usize) -> &'static str {
    match n {
        0 => "none",
        n if n == all => "every",
        _ => "some",
    }
}

/// Every operator with every key against one dataset.
fn all_conditions(
    ctx: &mut Ctx,
    data: &Arc<Vec<u8>>,
    order: &[Value],
    name: &str,
    t: C,
    keys: &[Dom],
) -> Result<(), String> {
    let indexed = order.iter().any(|f| {
        f["CityObjects"].as_object().unwrap().values().any(|o| {
            o.get("attributes").and_then(|a| a.get(name)).and_then(|v| held(t, v)).is_some()
        })
    });
    for op in OPS {
        for key in keys {
            let q = vec![(name.to_string(), op, key_of(t, key))];
            if !indexed {
                // nothing to index: refusing is all that can be asked for
                refused(ctx, data, &q)?;
                continue;
            }
            let want = ids_where(order, |f| satisfies(f, name, t, op, key));
            ctx.outcome(outcome_of(want.len(), order.len()));
            ask(ctx, data, &q, &want)?;
        }
    }
    Ok(())
}

fn run_conditions(ctx: &mut Ctx) {
    for (t, vals, more) in columns() {
        // cells: the values, null, a value the column cannot hold, no attribute
        let mut cells: Vec<Option<Value>> = vals.iter().cloned().map(Some).collect();
        cells.extend([Some(Value::Null), Some(misfit(t)), None]);
        let mut keys: Vec<Dom> = vals.iter().map(|v| held(t, v).unwrap()).collect();
        keys.extend(more.iter().cloned());
        let object = |c: usize, k: usize| {
            let mut m = Map::new();
            if let Some(v) = &cells[c] {
                m.insert("a".into(), v.clone());
            }
            m.insert("n".into(), json!(k));
            m
        };
        let opts = |index: bool, bf: Option<u16>| Opts {
            schema: Some(schema(&[("n", C::ULong), ("a", t)])),
            ..Opts::plain(index).attr("a", bf)
        };
        // every word of cells over features with one object
        for n in 1..=ctx.t(3, 4) {
            odometer(n, cells.len(), |w| {
                for index in [false, true] {
                    if n == 4 && index {
                        continue;
                    }
                    ctx.case(|| format!("word:{t:?}:{w:?}:index={index}"), |ctx| {
                        let feats: Vec<Value> =
                            w.iter().enumerate().map(|(k, c)| attr_feature(k, &[object(*c, k)])).collect();
                        let data = Arc::new(write_fcb(&base_meta(), &feats, &opts(index, None))?);
                        let order = in_file_order(&data, &feats)?;
                        ctx.state(&(format!("{t:?}"), &w[..], index));
                        ctx.trace();
                        all_conditions(ctx, &data, &order, "a", t, &keys)
                    });
                }
            });
        }
        // two features of two objects each
        odometer(ctx.t(3, 4), cells.len(), |w| {
            ctx.case(|| format!("objects:{t:?}:{w:?}"), |ctx| {
                let mut feats = vec![attr_feature(0, &[object(w[0], 0), object(w[1], 0)])];
                if w.len() == 3 {
                    feats.push(attr_feature(1, &[object(w[2], 1)]));
                } else {
                    feats.push(attr_feature(1, &[object(w[2], 1), object(w[3], 1)]));
                }
                let data = Arc::new(write_fcb(&base_meta(), &feats, &opts(w[0] % 2 == 0, Some(2)))?);
                let order = in_file_order(&data, &feats)?;
                ctx.state(&(format!("{t:?}"), &w[..], "objects"));
                ctx.trace();
                all_conditions(ctx, &data, &order, "a", t, &keys)
            });
        });
        // keys of another type are refused
        for (u, v, _) in columns() {
            if u == t {
                continue;
            }
            ctx.case(|| format!("foreign-key:{t:?}:{u:?}"), |ctx| {
                let feats: Vec<Value> = (0..2).map(|k| attr_feature(k, &[object(k, k)])).collect();
                let data = Arc::new(write_fcb(&base_meta(), &feats, &opts(true, None))?);
                ctx.state(&(format!("{t:?}"), format!("{u:?}")));
                for op in OPS {
                    refused(ctx, &data, &vec![("a".into(), op, key_of(u, &held(u, &v[0]).unwrap()))])?;
                }
                Ok(())
            });
        }
    }
    // columns of types that have no order
    for t in [C::Json, C::Binary] {
        ctx.case(|| format!("unordered:{t:?}"), |ctx| {
            let mut m = Map::new();
            m.insert("a".into(), json!("x"));
            let feats = vec![attr_feature(0, &[m])];
            let o = Opts { schema: Some(schema(&[("a", t)])), ..Opts::plain(true).attr("a", None) };
            let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
            read_mode(&data, Mode::Seek, &Sel::All)?;
            refused(ctx, &data, &vec![("a".into(), Operator::Eq, key_of(C::String, &text("x")))])
        });
    }
    // attributes without an index, no index at all, unknown names, no condition
    for index in [false, true] {
        for indexed in 0..3 {
            ctx.case(|| format!("not-indexed:{index}:{indexed}"), |ctx| {
                let feats: Vec<Value> = (0..3).map(|k| nth_feature(k, k)).collect();
                let mut o = Opts::plain(index);
                if indexed == 1 {
                    o = o.attr("i", None);
                } else if indexed == 2 {
                    o = o.attr("nothing", None).attr("i", None);
                }
                let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
                ctx.trace();
                let s = ("s".to_string(), Operator::Ne, key_of(C::String, &text("zz")));
                let x = ("nothing".to_string(), Operator::Ne, key_of(C::ULong, &Dom::I(1)));
                let i = ("i".to_string(), Operator::Ge, key_of(C::ULong, &Dom::I(0)));
                refused(ctx, &data, &vec![s.clone()])?;
                refused(ctx, &data, &vec![x.clone()])?;
                refused(ctx, &data, &vec![])?;
                if indexed == 0 {
                    refused(ctx, &data, &vec![i])?;
                } else {
                    let order = in_file_order(&data, &feats)?;
                    ask(ctx, &data, &vec![i.clone()], &ids_where(&order, |_| true))?;
                    refused(ctx, &data, &vec![s, i.clone()])?;
                    refused(ctx, &data, &vec![i, x])?;
                }
                Ok(())
            });
        }
    }
    // numbers of distinct values across the levels of the index, every branching
    // factor, with each multiplicity pattern
    let mut sizes: Vec<usize> = (1..=ctx.t(20, 70)).collect();
    sizes.extend(ctx.t(vec![63, 64, 65, 129, 257, 300], vec![127, 128, 129, 255, 256, 257, 258, 300, 511, 600, 1025]));
    for n in sizes {
        for bf in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(7), Some(16), Some(256), Some(u16::MAX)] {
            for pattern in 0..4usize {
                if n > 100 && pattern == 3 && bf != Some(4) {
                    continue;
                }
                ctx.case(|| format!("sizes:{n}:{bf:?}:{pattern}"), |ctx| {
                    let t = [C::ULong, C::Long, C::String, C::Double][pattern];
                    let value = |i: usize| match t {
                        C::ULong => json!(3 * i),
                        C::Long => json!(i as i64 - n as i64 / 2),
                        C::String => json!(format!("{i:04}")),
                        _ => json!(i as f64 / 2.0),
                    };
                    // each feature has one or two of the values, values repeat in some patterns
                    let count = [n, n + n / 2, 2 * n, n][pattern];
                    let feats: Vec<Value> = (0..count)
                        .map(|k| {
                            let mut m = Map::new();
                            m.insert("a".into(), value((k * 5 + pattern) % n));
                            let mut objs = vec![m];
                            if k % 3 == 1 {
                                let mut m = Map::new();
                                m.insert("a".into(), value(k % n));
                                objs.push(m);
                            }
                            attr_feature(k, &objs)
                        })
                        .collect();
                    let o = Opts { schema: Some(schema(&[("a", t)])), ..Opts::plain(n % 2 == 0).attr("a", bf) };
                    let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
                    let order = in_file_order(&data, &feats)?;
                    ctx.state(&(n, bf, pattern));
                    ctx.trace();
                    let b = usize::from(bf.unwrap_or(256)).max(2);
                    let mut at: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
                    at.extend([b - 1, b, b + 1, b * b - 1, b * b]);
                    if n <= 20 {
                        at.extend(0..n);
                    }
                    at.retain(|i| *i < n);
                    at.sort();
                    at.dedup();
                    let mut keys: Vec<Dom> = at.iter().map(|i| held(t, &value(*i)).unwrap()).collect();
                    // keys that no feature has: between, below and above
                    match t {
                        C::ULong => keys.extend([Dom::I(1), Dom::I(3 * n as i128), Dom::I(3 * (n as i128 / 2) + 1)]),
                        C::Long => keys.extend([Dom::I(-(n as i128)), Dom::I(n as i128)]),
                        C::String => keys.extend([text(""), text(&format!("{:04}x", n / 2)), text("z")]),
                        _ => keys.extend([Dom::F(-1.0), Dom::F(0.25), Dom::F(1e9)]),
                    }
                    all_conditions(ctx, &data, &order, "a", t, &keys)
                });
            }
        }
    }
}

/// More features, of one value or of as many values, than 16 bits count.
fn run_many(ctx: &mut Ctx) {
    for n in ctx.t(vec![65_540usize], vec![65_535, 65_536, 65_537, 65_540]) {
        for index in [false, true] {
            for distinct in [false, true] {
                ctx.case(|| format!("many:{n}:{index}:{distinct}"), |ctx| {
                    let value = |k: usize| if distinct { k } else { usize::from(k % 9000 == 1) };
                    let feats: Vec<Value> = (0..n)
                        .map(|k| {
                            let mut m = Map::new();
                            m.insert("a".into(), json!(value(k)));
                            attr_feature(k, &[m])
                        })
                        .collect();
                    let o = Opts { schema: Some(schema(&[("a", C::ULong)])), ..Opts::plain(index).attr("a", Some(16)) };
                    let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
                    let order = in_file_order(&data, &feats)?;
                    ctx.state(&(n, index, distinct, "many"));
                    ctx.trace();
                    let keys: Vec<usize> = if distinct { vec![0, 65_535, n - 1] } else { vec![0, 1] };
                    for key in keys {
                        for op in [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Le] {
                            let want = ids_where(&order, |f| {
                                holds(op, &value(f["id"].as_str().unwrap()[1..].parse().unwrap()), &key)
                            });
                            ctx.outcome(outcome_of(want.len(), n));
                            ask(ctx, &data, &vec![("a".into(), op, KeyType::UInt64(key as u64))], &want)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

/// Lists of features of equal value that reach beyond what is fetched of them at once.
fn run_lists(ctx: &mut Ctx) {
    // values, features of each value, every how many values there is one of a single feature
    let mut sizes = vec![(40usize, 100usize, 0usize), (3, 2500, 2), (2, 4200, 0), (400, 9, 7), (12, 410, 3)];
    if !ctx.quick() {
        sizes.extend([(5, 4100, 0), (60, 70, 2), (1200, 5, 0), (9, 2048, 0), (17, 1000, 5), (2, 20_000, 0), (30, 512, 0)]);
    }
    for (keys, copies, single) in sizes {
        for index in [false, true] {
            for bf in [None, Some(3)] {
                ctx.case(|| format!("lists:{keys}:{copies}:{single}:{index}:{bf:?}"), |ctx| {
                    // values in turn, as far as they have features left
                    let has = |v: usize| if single > 0 && v % single == 0 { 1 } else { copies };
                    let mut vals: Vec<usize> = Vec::new();
                    for turn in 0..copies {
                        vals.extend((0..keys).filter(|v| turn < has(*v)));
                    }
                    let feats: Vec<Value> = vals
                        .iter()
                        .enumerate()
                        .map(|(k, v)| {
                            let mut m = Map::new();
                            m.insert("a".into(), json!(v));
                            attr_feature(k, &[m])
                        })
                        .collect();
                    let o = Opts { schema: Some(schema(&[("a", C::UInt)])), ..Opts::plain(index).attr("a", bf) };
                    let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
                    let order = in_file_order(&data, &feats)?;
                    ctx.state(&(keys, copies, single, index, bf, "lists"));
                    ctx.trace();
                    let mut at = vec![0, 1, keys / 2, keys * 3 / 4, keys - 2, keys - 1, keys];
                    at.sort();
                    at.dedup();
                    for key in at {
                        for op in OPS {
                            let want =
                                ids_where(&order, |f| holds(op, &vals[f["id"].as_str().unwrap()[1..].parse::<usize>().unwrap()], &key));
                            ctx.outcome(outcome_of(want.len(), vals.len()));
                            ask(ctx, &data, &vec![("a".into(), op, KeyType::UInt32(key as u32))], &want)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn run_all_conditions(ctx: &mut Ctx) {
    run_many(ctx);
    run_lists(ctx);
    run_conditions(ctx);
}

pub const P14: Prop = Prop {
    id: "P14",
    level: "model_checking",
    run: run_all_conditions,
    case_secs: 120,
    required_outcomes: &["none", "some", "every", "refused"],
    assumptions: &[
        "strings take part with their first 50 bytes, which is what a query can name",
        "values in a 32-bit float column are compared as 32-bit floats",
        "an indexed attribute that no object has a value for has no index, and asking for it is refused",
    ],
    bounds: |t| match t {
        Tier::Quick => json!({"column_types": 13, "cells": "3 values, null, misfit, absent", "features": 3, "objects": "2 + 1", "keys": 7, "operators": 6, "distinct_values": "1..20, around level boundaries up to 300, and 65540", "features_of_one_value": "1, 9..4200", "branching_factors": 10}),
        Tier::Thorough => json!({"column_types": 13, "cells": "3 values, null, misfit, absent", "features": 4, "objects": "2 + 2", "keys": 7, "operators": 6, "distinct_values": "1..70, around level boundaries up to 1025, and 65535..65540", "features_of_one_value": "1, 5..20000", "branching_factors": 10}),
    },
};

// ---------------------------------------------------------------- conjunctions

type Cond = (&'static str, C, Operator, Dom);

fn to_q(cs: &[&Cond]) -> AttrQ {
    cs.iter().map(|(n, t, op, k)| (n.to_string(), *op, key_of(*t, k))).collect()
}

fn conjunction_schema() -> Schema {
    vec![("a", C::Int), ("u", C::Json), ("b", C::String), ("c", C::Bool)]
}

/// Objects over two values of two attributes each present or not, and a third.
fn palette() -> Vec<Map<String, Value>> {
    let mut out = Vec::new();
    for a in [None, Some(1), Some(2)] {
        for b in [None, Some("p"), Some("q")] {
            let mut m = Map::new();
            if let Some(a) = a {
                m.insert("a".into(), json!(a));
            }
            if let Some(b) = b {
                m.insert("b".into(), json!(b));
            }
            if out.len() % 2 == 0 {
                m.insert("c".into(), json!(a == Some(1)));
            }
            out.push(m);
        }
    }
    out
}

fn conditions() -> Vec<Cond> {
    let mut out = Vec::new();
    for op in OPS {
        for k in [1, 2] {
            out.push(("a", C::Int, op, Dom::I(k)));
        }
        out.push(("b", C::String, op, text("p")));
        out.push(("c", C::Bool, op, Dom::B(true)));
    }
    out
}

fn check_tuples(
    ctx: &mut Ctx,
    data: &Arc<Vec<u8>>,
    order: &[Value],
    k: usize,
    conds: &[Cond],
) -> Result<(), String> {
    let has = |n: &str| {
        order.iter().any(|f| {
            f["CityObjects"].as_object().unwrap().values().any(|o| o.get("attributes").is_some_and(|a| a.get(n).is_some()))
        })
    };
    let usable: Vec<&Cond> = conds.iter().filter(|c| has(c.0)).collect();
    if usable.is_empty() {
        return Ok(());
    }
    let mut err = Ok(());
    odometer(k, usable.len(), |w| {
        if err.is_err() {
            return;
        }
        let cs: Vec<&Cond> = w.iter().map(|i| usable[*i]).collect();
        let want = ids_where(order, |f| cs.iter().all(|(n, t, op, key)| satisfies(f, n, *t, *op, key)));
        ctx.outcome(outcome_of(want.len(), order.len()));
        err = ask(ctx, data, &to_q(&cs), &want);
    });
    err
}

fn run_conjunctions(ctx: &mut Ctx) {
    let pal = palette();
    let conds = conditions();
    let write = |feats: &[Value], index: bool| -> Result<(Arc<Vec<u8>>, Vec<Value>), String> {
        let o = Opts {
            schema: Some(schema(&conjunction_schema())),
            ..Opts::plain(index).attr("c", Some(2)).attr("a", None).attr("b", Some(3))
        };
        let data = Arc::new(write_fcb(&base_meta(), feats, &o)?);
        let order = in_file_order(&data, feats)?;
        Ok((data, order))
    };
    // features of one object: every word, every ordered pair of conditions
    for n in ctx.t(vec![2usize], vec![2, 3]) {
        odometer(n, pal.len(), |w| {
            ctx.case(|| format!("single:{w:?}"), |ctx| {
                let feats: Vec<Value> =
                    w.iter().enumerate().map(|(k, p)| attr_feature(k, &[pal[*p].clone()])).collect();
                let (data, order) = write(&feats, w[0] % 2 == 0)?;
                ctx.state(&(&w[..], 1));
                ctx.trace();
                check_tuples(ctx, &data, &order, 2, &conds)
            });
        });
    }
    // several objects per feature
    odometer(3, pal.len(), |w| {
        for split in 1..3 {
            ctx.case(|| format!("objects:{w:?}:{split}"), |ctx| {
                let o: Vec<Map<String, Value>> = w.iter().map(|p| pal[*p].clone()).collect();
                let mut feats = vec![attr_feature(0, &o[..split]), attr_feature(1, &o[split..])];
                if split == 2 {
                    feats.push(attr_feature(2, &o));
                }
                let (data, order) = write(&feats, w[1] % 2 == 0)?;
                ctx.state(&(&w[..], split));
                ctx.trace();
                // the whole set of pairs in the thorough tier, else pairs over different values
                let part: Vec<Cond> = if ctx.quick() {
                    conds.iter().filter(|c| !matches!(c.2, Operator::Ge | Operator::Lt)).cloned().collect()
                } else {
                    conds.clone()
                };
                check_tuples(ctx, &data, &order, 2, &part)
            });
        }
    });
    // triples over a dataset that holds every combination
    let few: Vec<Cond> = conds
        .iter()
        .filter(|c| matches!(c.2, Operator::Eq | Operator::Ne | Operator::Ge | Operator::Lt))
        .cloned()
        .collect();
    for first in 0..few.len() {
        for index in [false, true] {
            ctx.case(|| format!("triples:{first}:{index}"), |ctx| {
                let mut feats: Vec<Value> =
                    pal.iter().enumerate().map(|(k, p)| attr_feature(k, &[p.clone()])).collect();
                for (i, p) in pal.iter().enumerate() {
                    feats.push(attr_feature(pal.len() + i, &[p.clone(), pal[(i * 4 + 1) % pal.len()].clone()]));
                }
                let (data, order) = write(&feats, index)?;
                ctx.state(&("triples", first, index));
                ctx.trace();
                for second in 0..few.len() {
                    for third in 0..few.len() {
                        let cs = [&few[first], &few[second], &few[third]];
                        let want =
                            ids_where(&order, |f| cs.iter().all(|(n, t, op, k)| satisfies(f, n, *t, *op, k)));
                        ctx.outcome(outcome_of(want.len(), order.len()));
                        ask(ctx, &data, &to_q(&cs), &want)?;
                    }
                }
                Ok(())
            });
        }
    }
    // conditions that cannot be answered are refused wherever they stand and whatever the others find
    odometer(3, 6, |w| {
        if w.iter().all(|k| *k < 2) {
            return;
        }
        for len in 1..=3 {
            for index in [false, true] {
                // words that differ beyond their length are the same word
                if w[len..].iter().any(|k| *k != 2) || w[..len].iter().all(|k| *k < 2) {
                    continue;
                }
                ctx.case(|| format!("refused:{:?}:{index}", &w[..len]), |ctx| {
                    let feats: Vec<Value> = pal.iter().enumerate().map(|(k, p)| attr_feature(k, &[p.clone()])).collect();
                    let (data, _) = write(&feats, index)?;
                    ctx.state(&(&w[..len], index));
                    ctx.trace();
                    let q: AttrQ = w[..len]
                        .iter()
                        .map(|k| match k {
                            0 => ("a".to_string(), Operator::Ge, key_of(C::Int, &Dom::I(0))),
                            1 => ("a".to_string(), Operator::Gt, key_of(C::Int, &Dom::I(9))),
                            // no index, no such attribute, a key of another type than the attribute
                            2 => ("u".to_string(), Operator::Eq, key_of(C::String, &text("x"))),
                            3 => ("nothing".to_string(), Operator::Eq, key_of(C::String, &text("x"))),
                            4 => ("b".to_string(), Operator::Ne, key_of(C::Int, &Dom::I(0))),
                            _ => ("c".to_string(), Operator::Ge, key_of(C::String, &text("true"))),
                        })
                        .collect();
                    refused(ctx, &data, &q)
                });
            }
        }
    });
    // many features: ranges on one attribute intersected with another
    for n in ctx.t(vec![17usize, 40, 70], vec![17, 40, 70, 150, 300]) {
        for bf in [2u16, 3, 16] {
            for m in [2usize, 5, 16] {
                ctx.case(|| format!("many:{n}:{bf}:{m}"), |ctx| {
                    let feats: Vec<Value> = (0..n)
                        .map(|k| {
                            let mk = |k: usize| {
                                let mut o = Map::new();
                                o.insert("a".into(), json!(k % m));
                                o.insert("b".into(), json!(format!("{:03}", k * 7 % n)));
                                o
                            };
                            let objs = if k % 4 == 0 { vec![mk(k), mk(k + 1)] } else { vec![mk(k)] };
                            attr_feature(k, &objs)
                        })
                        .collect();
                    let o = Opts {
                        schema: Some(schema(&[("b", C::String), ("a", C::UInt)])),
                        ..Opts::plain(bf == 3).attr("a", Some(bf)).attr("b", Some(bf + 1))
                    };
                    let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
                    let order = in_file_order(&data, &feats)?;
                    ctx.state(&(n, bf, m));
                    ctx.trace();
                    let mut cs: Vec<Cond> = Vec::new();
                    for op in OPS {
                        cs.push(("a", C::UInt, op, Dom::I(m as i128 / 2)));
                        cs.push(("b", C::String, op, text(&format!("{:03}", n / 3))));
                    }
                    check_tuples(ctx, &data, &order, ctx.t(2, 2), &cs)
                });
            }
        }
    }
}

pub const P15: Prop = Prop {
    id: "P15",
    level: "model_checking",
    run: run_conjunctions,
    case_secs: 120,
    required_outcomes: &["none", "some", "every", "refused"],
    assumptions: &["each condition may be satisfied by another object of the feature"],
    bounds: |t| match t {
        Tier::Quick => json!({"attributes": 3, "object_kinds": 9, "conditions": 24, "tuples": "ordered pairs; ordered triples over 16; with conditions to refuse: ordered triples over 6", "objects": 3, "features": "2, 18, 17..70"}),
        Tier::Thorough => json!({"attributes": 3, "object_kinds": 9, "conditions": 24, "tuples": "ordered pairs; ordered triples over 16; with conditions to refuse: ordered triples over 6", "objects": 3, "features": "2, 3, 18, 17..300"}),
    },
};

// ---------------------------------------------------------------- agreement

fn run_agreement(ctx: &mut Ctx) {
    // every order of declaring four columns, every set of indexed ones in every
    // order, with and without the spatial index
    let names = ["s", "i", "d", "z"];
    let types = [C::String, C::Int, C::Double, C::Bool];
    let mut declared: Vec<Vec<usize>> = Vec::new();
    perms(4, |p| declared.push(p.to_vec()));
    let mut indexed: Vec<Vec<usize>> = vec![vec![]];
    for set in 1..16usize {
        let members: Vec<usize> = (0..4).filter(|i| set >> i & 1 == 1).collect();
        perms(members.len(), |p| indexed.push(p.iter().map(|i| members[*i]).collect()));
    }
    let dup: Vec<Vec<usize>> = vec![vec![0, 0], vec![1, 0, 1]];
    let all_indexed: Vec<Vec<usize>> = indexed.iter().cloned().chain(ctx.t(vec![], dup)).collect();
    for (di, decl) in declared.iter().enumerate() {
        for (ii, idx) in all_indexed.iter().enumerate() {
            for index in [false, true] {
                ctx.case(|| format!("columns:{decl:?}:{idx:?}:index={index}"), |ctx| {
                    let n = 1 + (di + ii) % 5;
                    let feats: Vec<Value> = (0..n)
                        .map(|k| {
                            let mut m = Map::new();
                            m.insert("s".into(), json!(format!("v{}", k % 2)));
                            m.insert("i".into(), json!(k as i64 - 1));
                            m.insert("d".into(), json!(0.5 * k as f64));
                            m.insert("z".into(), json!(k % 2 == 0));
                            attr_feature(k, &[m])
                        })
                        .collect();
                    let sch: AttributeSchema = decl
                        .iter()
                        .enumerate()
                        .map(|(pos, c)| (names[*c].to_string(), (pos as u16, types[*c])))
                        .collect();
                    let mut o = Opts { schema: Some(sch), ..Opts::plain(index) };
                    for (j, c) in idx.iter().enumerate() {
                        o = o.attr(names[*c], [None, Some(2), Some(5)][j % 3]);
                    }
                    let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
                    ctx.state(&(decl, idx, index));
                    ctx.trace();
                    everything(ctx, &data, &feats, &names, &types, idx, index)
                });
            }
        }
    }
    // gaps between the numbers of the declared columns
    for gap in [1usize, 2, 1000] {
        for idx in [vec![0usize], vec![1], vec![1, 0], vec![0, 1]] {
            for index in [false, true] {
                ctx.case(|| format!("gaps:{gap}:{idx:?}:index={index}"), |ctx| {
                    let feats: Vec<Value> = (0..3)
                        .map(|k| {
                            let mut m = Map::new();
                            m.insert("s".into(), json!(format!("v{}", k % 2)));
                            m.insert("i".into(), json!(k as i64 - 1));
                            attr_feature(k, &[m])
                        })
                        .collect();
                    let sch: AttributeSchema = [("s", C::String, 7), ("i", C::Int, 7 + gap)]
                        .iter()
                        .map(|(n, t, i)| (n.to_string(), (*i as u16, *t)))
                        .collect();
                    let mut o = Opts { schema: Some(sch), ..Opts::plain(index) };
                    for c in &idx {
                        o = o.attr(names[*c], None);
                    }
                    let data = Arc::new(write_fcb(&base_meta(), &feats, &o)?);
                    ctx.trace();
                    everything(ctx, &data, &feats, &names[..2], &types[..2], &idx, index)
                });
            }
        }
    }
    // other node sizes of the spatial index, which the header states
    for n in ctx.t(vec![1usize, 2, 3, 16, 17, 33], (1..=40).collect()) {
        for node in [2u16, 3, 4, 15, 16, 17, 300] {
            for idx in [vec![], vec![1usize], vec![0, 1]] {
                ctx.case(|| format!("nodes:{n}:{node}:{idx:?}"), |ctx| {
                    let feats: Vec<Value> = (0..n)
                        .map(|k| {
                            let mut m = Map::new();
                            m.insert("s".into(), json!(format!("v{}", k % 2)));
                            m.insert("i".into(), json!(k as i64 - 1));
                            attr_feature(k, &[m])
                        })
                        .collect();
                    let mut o = Opts { schema: Some(schema(&[("s", C::String), ("i", C::Int)])), ..Opts::plain(true) };
                    for c in &idx {
                        o = o.attr(names[*c], None);
                    }
                    let data = Arc::new(with_node_size(&write_fcb(&base_meta(), &feats, &o)?, node));
                    ctx.state(&(n, node, &idx));
                    ctx.trace();
                    everything(ctx, &data, &feats, &names[..2], &types[..2], &idx, true)
                });
            }
        }
    }
    // a dataset that lies behind other data and before other data
    let metas = transforms();
    for n in ctx.t(vec![1usize, 2, 3, 17, 40], vec![1, 2, 3, 5, 16, 17, 18, 40, 257, 300]) {
        for before in [0usize, 1, 7, 4096] {
            for after in [0usize, 1, 4, 5000] {
                for o in 0..4 {
                    ctx.case(|| format!("embedded:{n}:{before}:{after}:{o}"), |ctx| {
                        let feats: Vec<Value> = (0..n).map(|k| nth_feature(k, k % 3)).collect();
                        let opts = match o {
                            0 => Opts::plain(false),
                            1 => Opts::plain(true),
                            2 => Opts::plain(false).attr("i", Some(3)),
                            _ => Opts::plain(true).attr("s", Some(4)).attr("i", None),
                        };
                        let plain = write_fcb(&metas[1], &feats, &opts)?;
                        let order = in_file_order(&Arc::new(plain.clone()), &feats)?;
                        ctx.state(&(n, before, after, o));
                        ctx.trace();
                        let mut sels = vec![Sel::All];
                        if o % 2 == 1 {
                            sels.push(Sel::Spatial(Query::BBox(-1e9, -1e9, 1e9, 1e9)));
                            sels.push(Sel::Spatial(Query::BBox(-10.5, 99.0, -9.0, 101.0)));
                            sels.push(Sel::Spatial(Query::PointNearest(0.0, 0.0)));
                        }
                        if o >= 2 {
                            for (op, k) in [(Operator::Ge, 0u64), (Operator::Lt, n as u64 / 2), (Operator::Eq, n as u64 - 1)] {
                                sels.push(Sel::Attr(vec![("i".into(), op, KeyType::UInt64(k))]));
                            }
                        }
                        for sel in &sels {
                            let want = read_seek(Cursor::new(plain.as_slice()), sel)?;
                            for mode in MODES {
                                let mut d = Vec::new();
                                if mode != Mode::Http {
                                    d = vec![0xA5u8; before];
                                }
                                d.extend_from_slice(&plain);
                                d.extend(std::iter::repeat(0x7Fu8).take(after));
                                let got = match mode {
                                    Mode::Seek => {
                                        let mut c = Cursor::new(d);
                                        c.seek(SeekFrom::Start(before as u64)).unwrap();
                                        read_seek(c, sel)
                                    }
                                    Mode::Seq => read_seq(&d[before..], sel),
                                    Mode::Http => read_mode(&Arc::new(d), mode, sel),
                                }
                                .map_err(|e| format!("{mode:?} {sel:?}: {e}"))?;
                                ctx.trans(1);
                                if got.feats != want.feats || !got.counts(want.feats.len()) {
                                    return Err(format!("{mode:?} {sel:?}: expected {:?} got {:?}", want.ids(), got.ids()));
                                }
                            }
                            ctx.outcome(match sel {
                                Sel::All => "all",
                                Sel::Spatial(_) => "spatial",
                                Sel::Attr(_) => "attr",
                            });
                            if matches!(sel, Sel::All) && want.ids() != order.iter().map(|f| f["id"].as_str().unwrap()).collect::<Vec<_>>() {
                                return Err("order".into());
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

/// Reading without verification gives the same, also the same refusals.
fn trusting(ctx: &mut Ctx, data: &Arc<Vec<u8>>, mode: Mode, sel: &Sel) -> Result<(), String> {
    if mode == Mode::Http {
        return Ok(());
    }
    ctx.trans(1);
    let (a, b) = (read_mode(data, mode, sel), read_unchecked(data, mode, sel));
    match (&a, &b) {
        (Ok(x), Ok(y)) if x == y => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{mode:?} {sel:?}: verified {:?}, unverified {:?}", a.map(|g| g.ids()), b.map(|g| g.ids()))),
    }
}

/// Every selection of a dataset: features complete, equal in every mode, or refused in every mode.
fn everything(
    ctx: &mut Ctx,
    data: &Arc<Vec<u8>>,
    feats: &[Value],
    names: &[&str],
    types: &[C],
    idx: &[usize],
    index: bool,
) -> Result<(), String> {
    let order = in_file_order(data, feats)?;
    let whole = |mode: Mode, got: &Got, want: &[&Value]| -> Result<(), String> {
        if got.feats.len() != want.len() || !got.counts(want.len()) {
            return Err(format!("{mode:?}: expected {} features, got {:?} (count {:?})", want.len(), got.ids(), got.count));
        }
        for (w, g) in want.iter().zip(&got.feats) {
            same_feature(w, g).map_err(|e| format!("{mode:?}: {e}"))?;
        }
        Ok(())
    };
    for mode in MODES {
        ctx.trans(1);
        ctx.outcome("all");
        whole(mode, &read_mode(data, mode, &Sel::All).map_err(|e| format!("{mode:?} all: {e}"))?, &order.iter().collect::<Vec<_>>())?;
        let q = Query::BBox(-4.0, -1e9, 1.0, 1e9);
        let got = read_mode(data, mode, &Sel::Spatial(q));
        ctx.trans(1);
        trusting(ctx, data, mode, &Sel::All)?;
        trusting(ctx, data, mode, &Sel::Spatial(q))?;
        if index {
            ctx.outcome("spatial");
            let want: Vec<&Value> = order
                .iter()
                .filter(|f| {
                    let x = f["vertices"][0][0].as_f64().unwrap();
                    (-4.0..=1.0).contains(&x)
                })
                .collect();
            whole(mode, &got.map_err(|e| format!("{mode:?} {q:?}: {e}"))?, &want)?;
        } else if got.is_ok() {
            return Err(format!("{mode:?}: a spatial query without an index was answered"));
        }
        for c in 0..names.len() {
            for op in [Operator::Eq, Operator::Gt, Operator::Le] {
                let key = match types[c] {
                    C::String => text("v0"),
                    C::Int => Dom::I(0),
                    C::Double => Dom::F(0.5),
                    _ => Dom::B(false),
                };
                let q = vec![(names[c].to_string(), op, key_of(types[c], &key))];
                let got = read_mode(data, mode, &Sel::Attr(q.clone()));
                ctx.trans(1);
                trusting(ctx, data, mode, &Sel::Attr(q.clone()))?;
                if !idx.contains(&c) {
                    if got.is_ok() {
                        return Err(format!("{mode:?} {q:?}: answered without an index"));
                    }
                    continue;
                }
                ctx.outcome("attr");
                let want: Vec<&Value> =
                    order.iter().filter(|f| satisfies(f, names[c], types[c], op, &key)).collect();
                whole(mode, &got.map_err(|e| format!("{mode:?} {q:?}: {e}"))?, &want)
                    .map_err(|e| format!("{q:?} {e}"))?;
            }
        }
    }
    Ok(())
}

pub const P16: Prop = Prop {
    id: "P16",
    level: "model_checking",
    run: run_agreement,
    case_secs: 120,
    required_outcomes: &["all", "spatial", "attr"],
    assumptions: &["a dataset with no feature is not followed by other data"],
    bounds: |t| match t {
        Tier::Quick => json!({"declared_columns": "every order of 4", "indexed": "every subset in every order", "node_sizes": [2, 3, 4, 15, 16, 17, 300], "preceding_bytes": [0, 1, 7, 4096], "following_bytes": [0, 1, 4, 5000], "features": "1..5, 17, 40"}),
        Tier::Thorough => json!({"declared_columns": "every order of 4", "indexed": "every subset in every order, and twice the same", "node_sizes": [2, 3, 4, 15, 16, 17, 300], "preceding_bytes": [0, 1, 7, 4096], "following_bytes": [0, 1, 4, 5000], "features": "1..5, up to 300"}),
    },
};
