//! P07 completeness, P08 layout, P23 iteration protocol.

use super::attrs::attr_feature;
use super::Prop;
use crate::core::{Ctx, Tier};
use crate::data::*;
use crate::shapes::odometer;
use crate::webmock::{block_on, Fault, Web};
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::packed_rtree::Query as SpatialQuery;
use fcb_core::{FcbReader, HttpFcbReader, KeyType, Operator};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::Cursor;
use std::sync::Arc;

/// Feature k of a dataset; `place` selects where it is and which shape it has.
pub fn nth_feature(k: usize, place: usize) -> Value {
    let id = format!("f{k}");
    let mut f = match place {
        0 => box_feature(&id, [0, 0, 2, 1]),
        1 => point_feature(&id, 2, 1, Value::Null),
        2 => box_feature(&id, [-3, 4, -1, 5]),
        3 => {
            // no vertices at all
            let mut o = serde_json::Map::new();
            o.insert(id.clone(), json!({"type": "CityObjectGroup"}));
            feature(&id, Value::Object(o), json!([]))
        }
        _ => point_feature(&id, -70 + place as i64, 9 * place as i64, Value::Null),
    };
    f["CityObjects"][&id]["attributes"] = json!({"i": k as i64, "s": "x".repeat(1 + (k * 7 + place) % 13)});
    f
}

pub fn transforms() -> Vec<Value> {
    [
        ([1.0, 1.0, 1.0], [0.0, 0.0, 0.0]),
        ([0.5, 0.25, 1.0], [-10.0, 100.0, 3.0]),
        ([0.001, 0.001, 0.001], [85000.0, 446000.0, 0.0]),
        // axes that run backwards
        ([-0.5, 0.25, 1.0], [7.0, -3.0, 0.0]),
        ([-0.001, -0.01, -1.0], [85000.0, 446000.0, 0.0]),
    ]
    .iter()
    .map(|(s, t)| {
        let mut m = base_meta();
        m["transform"] = json!({"scale": s, "translate": t});
        m
    })
    .collect()
}

/// Every index selection explored: none, spatial, one attribute, two in either
/// order, each with and without the spatial one.
fn index_options() -> Vec<Opts> {
    let mut out = Vec::new();
    for index in [false, true] {
        out.push(Opts::plain(index));
        out.push(Opts::plain(index).attr("i", None));
        out.push(Opts::plain(index).attr("s", Some(3)).attr("i", Some(2)));
    }
    out
}

/// Reads everything in all three ways and checks it against the input.
pub fn all_back(ctx: &mut Ctx, data: &Arc<Vec<u8>>, feats: &[Value], sorted: bool) -> Result<(), String> {
    let mut order: Option<Vec<String>> = None;
    let by_id: HashMap<&str, &Value> = feats.iter().map(|f| (f["id"].as_str().unwrap(), f)).collect();
    for mode in MODES {
        let got = read_mode(data, mode, &Sel::All).map_err(|e| format!("{mode:?}: {e}"))?;
        ctx.trans(got.feats.len() as u64 + 1);
        let ids = got.ids();
        if ids.len() != feats.len() {
            return Err(format!("{mode:?}: {} features written, {} read: {ids:?}", feats.len(), ids.len()));
        }
        let distinct: HashSet<&String> = ids.iter().collect();
        if distinct.len() != ids.len() {
            return Err(format!("{mode:?}: a feature is delivered twice: {ids:?}"));
        }
        match got.count {
            Some(n) if n != feats.len() => {
                return Err(format!("{mode:?}: count {n} reported for {} features", feats.len()))
            }
            None if mode != Mode::Http || !feats.is_empty() => {
                return Err(format!("{mode:?}: no count reported for {} features", feats.len()))
            }
            _ => {}
        }
        for f in &got.feats {
            let Some(want) = f["id"].as_str().and_then(|id| by_id.get(id)) else {
                return Err(format!("{mode:?}: {} was never written", f["id"]));
            };
            same_feature(want, f).map_err(|d| format!("{mode:?}: feature {} {d}", f["id"]))?;
        }
        if !sorted {
            let input: Vec<String> = feats.iter().map(|f| f["id"].as_str().unwrap().into()).collect();
            if ids != input {
                return Err(format!("{mode:?}: without a spatial index the order changed: {ids:?}"));
            }
        }
        match &order {
            None => order = Some(ids),
            Some(o) if *o != ids => return Err(format!("{mode:?}: order {ids:?} differs from {o:?}")),
            _ => {}
        }
    }
    Ok(())
}

fn run_complete(ctx: &mut Ctx) {
    let metas = transforms();
    let opts = index_options();
    let counts: [fn(usize) -> Option<u64>; 4] =
        [|_| None, |_| Some(0), |n| Some(n as u64 + 2), |n| Some((n / 2) as u64)];
    for n in 0..=ctx.t(3, 4) {
        odometer(n, 4, |w| {
            for (oi, o) in opts.iter().enumerate() {
                for (ci, c) in counts.iter().enumerate() {
                    ctx.case(|| format!("small:{w:?}:o{oi}:c{ci}"), |ctx| {
                        ctx.outcome("small");
                        let feats: Vec<Value> = w.iter().enumerate().map(|(k, p)| nth_feature(k, *p)).collect();
                        let o = Opts { count: c(n), ..o.clone() };
                        let data = Arc::new(write_fcb(&metas[n % metas.len()], &feats, &o)?);
                        ctx.state(&*data);
                        ctx.trace();
                        all_back(ctx, &data, &feats, o.index)
                    });
                }
            }
        });
    }
    // around the sizes where the spatial index gains a level
    let mut sizes: Vec<usize> = (4..=ctx.t(40, 80)).collect();
    sizes.extend(ctx.t(vec![255, 256, 257, 273], (240..=290).collect()));
    sizes.extend(ctx.t(vec![], vec![4095, 4096, 4097, 4113]));
    for n in sizes {
        for (oi, o) in opts.iter().enumerate() {
            for spread in [true, false] {
                ctx.case(|| format!("sizes:{n}:o{oi}:spread={spread}"), |ctx| {
                    ctx.outcome("sizes");
                    let feats: Vec<Value> =
                        (0..n).map(|k| nth_feature(k, if spread { 4 + (k * 37) % 101 } else { k % 4 })).collect();
                    let data = Arc::new(write_fcb(&metas[n % metas.len()], &feats, o)?);
                    ctx.state(&*data);
                    ctx.trace();
                    all_back(ctx, &data, &feats, o.index)
                });
            }
        }
    }
    // more features than 16 bits count
    for n in ctx.t(vec![65_537usize], vec![65_535, 65_536, 65_537, 66_000]) {
        for (oi, o) in opts.iter().enumerate() {
            if oi % 3 == 1 {
                continue;
            }
            ctx.case(|| format!("many:{n}:o{oi}"), |ctx| {
                ctx.outcome("many");
                let feats: Vec<Value> = (0..n).map(|k| nth_feature(k, 4 + (k * 37) % 101)).collect();
                let data = Arc::new(write_fcb(&metas[n % metas.len()], &feats, o)?);
                ctx.state(&*data);
                ctx.trace();
                all_back(ctx, &data, &feats, o.index)
            });
        }
    }
    // one writer can be given equal features, and a feature far larger than the rest
    for big in [1usize, 1000, 20_000] {
        for at in 0..3 {
            for (oi, o) in opts.iter().enumerate() {
                ctx.case(|| format!("big:{big}:at{at}:o{oi}"), |ctx| {
                    ctx.outcome("big");
                    let feats: Vec<Value> = (0..3)
                        .map(|k| {
                            let mut f = nth_feature(k, k);
                            if k == at {
                                let id = format!("f{k}");
                                f["CityObjects"][&id]["attributes"]["note"] = json!("n".repeat(big * 100));
                            }
                            f
                        })
                        .collect();
                    let data = Arc::new(write_fcb(&metas[1], &feats, o)?);
                    ctx.state(&*data);
                    ctx.trace();
                    all_back(ctx, &data, &feats, o.index)
                });
            }
        }
    }
}

pub const P07: Prop = Prop {
    id: "P07",
    level: "model_checking",
    run: run_complete,
    case_secs: 60,
    required_outcomes: &["small", "sizes", "many", "big"],
    assumptions: &["features of one dataset have distinct identifiers"],
    bounds: |t| match t {
        Tier::Quick => json!({"features": 3, "kinds_of_feature": 4, "index_options": 6, "count_options": 4, "sizes": "4..40, 255..257, 273, 65537"}),
        Tier::Thorough => json!({"features": 4, "kinds_of_feature": 4, "index_options": 6, "count_options": 4, "sizes": "4..80, 240..290, 4095..4113, 65535..65537, 66000"}),
    },
};

// ---------------------------------------------------------------- layout

fn levels(n: usize, node: usize) -> Vec<usize> {
    // items per level, leaves first
    let mut out = vec![n];
    let mut k = n;
    while k > 1 {
        k = k.div_ceil(node);
        out.push(k);
    }
    out
}

fn f64_at(b: &[u8], o: usize) -> f64 {
    f64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn u64_at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn u32_at(b: &[u8], o: usize) -> usize {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize
}

pub fn bbox_of(meta: &Value, f: &Value) -> [f64; 4] {
    let vs = f["vertices"].as_array().unwrap();
    let c = |i: usize, v: f64| {
        v * meta["transform"]["scale"][i].as_f64().unwrap() + meta["transform"]["translate"][i].as_f64().unwrap()
    };
    if vs.is_empty() {
        return [c(0, 0.0), c(1, 0.0), c(0, 0.0), c(1, 0.0)];
    }
    let (mut a, mut b) = ([f64::MAX; 2], [f64::MIN; 2]);
    for v in vs {
        for i in 0..2 {
            let x = v[i].as_f64().unwrap();
            a[i] = a[i].min(x);
            b[i] = b[i].max(x);
        }
    }
    let (x, y) = ([c(0, a[0]), c(0, b[0])], [c(1, a[1]), c(1, b[1])]);
    [x[0].min(x[1]), y[0].min(y[1]), x[0].max(x[1]), y[0].max(y[1])]
}

/// Positions of the sections of a file, read off its header.
pub struct Layout {
    pub header_end: usize,
    pub rtree_end: usize,
    pub attrs_end: usize,
    pub n: usize,
    pub node: usize,
    /// (start, end) of every feature, absolute
    pub feats: Vec<(usize, usize)>,
}

pub fn layout(data: &[u8]) -> Result<Layout, String> {
    if data.len() < 12 || &data[..8] != b"fcb\x01fcb\0" {
        return Err("bad magic".into());
    }
    let header_end = 12 + u32_at(data, 8);
    let h = fcb_core::size_prefixed_root_as_header(&data[8..header_end]).map_err(|e| format!("header: {e}"))?;
    let n = h.features_count() as usize;
    let node = h.index_node_size() as usize;
    let nodes: usize = if node > 0 && n > 0 { levels(n, node).iter().sum() } else { 0 };
    // a single feature still has a root above its leaf
    let nodes = if node > 0 && n == 1 { 2 } else { nodes };
    let rtree_end = header_end + nodes * 40;
    let attrs: usize = h.attribute_index().map(|a| a.iter().map(|x| x.length() as usize).sum()).unwrap_or(0);
    let attrs_end = rtree_end + attrs;
    let mut p = attrs_end;
    let mut feats = Vec::new();
    while p < data.len() {
        if p + 4 > data.len() {
            return Err(format!("{} stray bytes after the last feature", data.len() - p));
        }
        let e = p + 4 + u32_at(data, p);
        if e > data.len() {
            return Err(format!("feature {} runs past the end of the file", feats.len()));
        }
        feats.push((p, e));
        p = e;
    }
    Ok(Layout { header_end, rtree_end, attrs_end, n, node, feats })
}

fn check_layout(ctx: &mut Ctx, meta: &Value, feats: &[Value], o: &Opts, data: &[u8]) -> Result<(), String> {
    let l = layout(data)?;
    let by_id: HashMap<&str, &Value> = feats.iter().map(|f| (f["id"].as_str().unwrap(), f)).collect();
    if l.n != feats.len() {
        return Err(format!("header counts {} features of {}", l.n, feats.len()));
    }
    if l.feats.len() != feats.len() {
        return Err(format!("{} features in the feature section of {} written", l.feats.len(), feats.len()));
    }
    if (l.node > 0) != o.index {
        return Err(format!("node size {} with index={}", l.node, o.index));
    }
    let h = fcb_core::size_prefixed_root_as_header(&data[8..l.header_end]).unwrap();
    let infos = h.attribute_index().map(|a| a.iter().collect::<Vec<_>>()).unwrap_or_default();
    let mut wanted: Vec<&str> = o.attrs.iter().map(|a| a.0.as_str()).collect();
    wanted.sort();
    let cols = h.columns().map(|c| c.iter().collect::<Vec<_>>()).unwrap_or_default();
    let mut have: Vec<&str> = Vec::new();
    let mut last = None;
    for i in &infos {
        if last.is_some_and(|l| l >= i.index()) {
            return Err("attribute indices are not in column order".into());
        }
        last = Some(i.index());
        let c = cols.iter().find(|c| c.index() == i.index()).ok_or("an index of no column")?;
        have.push(c.name());
    }
    have.sort();
    if feats.iter().any(|f| f["CityObjects"].as_object().unwrap().values().any(|o| o.get("attributes").is_some()))
        && have != wanted
    {
        return Err(format!("indices asked for {wanted:?}, present {have:?}"));
    }
    if l.node > 0 && l.n > 0 {
        let mut lv = levels(l.n, l.node);
        if l.n == 1 {
            lv.push(1);
        }
        lv.reverse(); // root first, as in the file
        let base = l.header_end;
        let item = |k: usize| {
            let o = base + k * 40;
            ([f64_at(data, o), f64_at(data, o + 8), f64_at(data, o + 16), f64_at(data, o + 24)], u64_at(data, o + 32))
        };
        let mut start = 0;
        let mut starts = Vec::new();
        for k in &lv {
            starts.push(start);
            start += k;
        }
        for (li, k) in lv.iter().enumerate() {
            for j in 0..*k {
                let (b, off) = item(starts[li] + j);
                if li + 1 == lv.len() {
                    // a leaf: exactly the start and the box of the j-th feature
                    let (fs, fe) = l.feats[j];
                    if off as usize != fs - l.attrs_end {
                        return Err(format!("leaf {j} points at {off}, feature {j} is at {}", fs - l.attrs_end));
                    }
                    let cf = fcb_core::size_prefixed_root_as_city_feature(&data[fs..fe])
                        .map_err(|e| format!("feature {j}: {e}"))?;
                    let f = by_id.get(cf.id()).ok_or("unknown feature")?;
                    if b != bbox_of(meta, f) {
                        return Err(format!("leaf {j} has box {b:?}, its feature {:?}", bbox_of(meta, f)));
                    }
                } else {
                    // an inner node: first child and union of the children
                    let first = starts[li + 1] + j * l.node;
                    let lastc = (first + l.node).min(starts[li + 1] + lv[li + 1]);
                    if off as usize != first {
                        return Err(format!("node {li}/{j} points at {off}, its children start at {first}"));
                    }
                    let mut u = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
                    for c in first..lastc {
                        let (cb, _) = item(c);
                        for i in 0..2 {
                            u[i] = u[i].min(cb[i]);
                            u[i + 2] = u[i + 2].max(cb[i + 2]);
                        }
                    }
                    if u != b {
                        return Err(format!("node {li}/{j} has box {b:?}, its children {u:?}"));
                    }
                }
                ctx.trans(1);
            }
        }
    }
    Ok(())
}

fn run_layout(ctx: &mut Ctx) {
    let metas = transforms();
    let opts = index_options();
    for n in 0..=ctx.t(4, 5) {
        odometer(n, 5, |w| {
            for (oi, o) in opts.iter().enumerate() {
                ctx.case(|| format!("small:{w:?}:o{oi}"), |ctx| {
                    ctx.outcome("small");
                    let feats: Vec<Value> = w.iter().enumerate().map(|(k, p)| nth_feature(k, *p)).collect();
                    let m = &metas[(n + oi) % metas.len()];
                    let data = write_fcb(m, &feats, o)?;
                    ctx.state(&data);
                    ctx.trace();
                    check_layout(ctx, m, &feats, o, &data)
                });
            }
        });
    }
    let mut sizes: Vec<usize> = (5..=ctx.t(300, 600)).collect();
    sizes.extend(ctx.t(vec![4096, 4097, 65_537], vec![4095, 4096, 4097, 4112, 4113, 4369, 8193, 65_535, 65_536, 65_537]));
    for n in sizes {
        for (oi, o) in opts.iter().enumerate() {
            if n > 40 && (oi < 2 || oi == 4) {
                continue;
            }
            ctx.case(|| format!("sizes:{n}:o{oi}"), |ctx| {
                ctx.outcome("sizes");
                let feats: Vec<Value> = (0..n).map(|k| nth_feature(k, 4 + (k * 37) % 101)).collect();
                let m = &metas[(n + oi) % metas.len()];
                let data = write_fcb(m, &feats, o)?;
                ctx.state(&data);
                ctx.trace();
                check_layout(ctx, m, &feats, o, &data)
            });
        }
    }
    // the same values in memory give the same bytes: equal keys, several objects
    for n in 1..=ctx.t(5usize, 6) {
        odometer(n, 3, |w| {
            for o in 0..4usize {
                ctx.case(|| format!("again:{w:?}:{o}"), |ctx| {
                    ctx.outcome("again");
                    let feats: Vec<Value> = w
                        .iter()
                        .enumerate()
                        .map(|(k, v)| {
                            let obj = |v: usize| {
                                let mut m = serde_json::Map::new();
                                m.insert("i".into(), json!(v));
                                m.insert("s".into(), json!(["", "a", "b"][v % 3]));
                                m.insert("z".into(), json!(v % 2 == 0));
                                m
                            };
                            let objs = if o == 3 { vec![obj(*v), obj(*v), obj(2 - *v)] } else { vec![obj(*v)] };
                            attr_feature(k, &objs)
                        })
                        .collect();
                    let mut opts = Opts::plain(o % 2 == 0);
                    if o > 0 {
                        opts = opts.attr("s", Some(2)).attr("i", None).attr("z", Some(3));
                    }
                    let data = same_bytes(&metas[o % metas.len()], &feats, &opts, 4)?;
                    ctx.trans(4);
                    ctx.state(&data);
                    ctx.trace();
                    Ok(())
                });
            }
        });
    }
    // where vertices are missing, far out or at the limits
    let xs = [0i64, 1, -1, i32::MAX as i64, i32::MIN as i64];
    odometer(4, xs.len(), |w| {
        for (mi, m) in metas.iter().enumerate() {
            ctx.case(|| format!("extreme:{w:?}:m{mi}"), |ctx| {
                ctx.outcome("extreme");
                let mut f = box_feature("f0", [0, 0, 1, 1]);
                f["vertices"] = json!([[xs[w[0]], xs[w[1]], 0], [xs[w[2]], xs[w[3]], 1], [xs[w[0]], xs[w[1]], 0],
                    [xs[w[0]], xs[w[3]], 0]]);
                let feats = [f, nth_feature(1, 0)];
                let o = Opts::plain(true);
                let data = write_fcb(m, &feats, &o)?;
                ctx.state(&data);
                ctx.trace();
                check_layout(ctx, m, &feats, &o, &data)
            });
        }
    });
}

pub const P08: Prop = Prop {
    id: "P08",
    level: "model_checking",
    run: run_layout,
    case_secs: 60,
    required_outcomes: &["small", "sizes", "extreme", "again"],
    assumptions: &["the header is parsed with the generated FlatBuffers code; everything else by an independent parser"],
    bounds: |t| match t {
        Tier::Quick => json!({"features": "all words of up to 4 over 5 kinds", "index_options": 6, "sizes": "5..300, 4096, 4097, 65537", "extreme_coordinates": "5^4 x 5 transforms", "rewritten": "all words of up to 5 or 6 over 3 values, 4 times"}),
        Tier::Thorough => json!({"features": "all words of up to 5 over 5 kinds", "index_options": 6, "sizes": "5..600, 4095..8193, 65535..65537", "extreme_coordinates": "5^4 x 5 transforms", "rewritten": "all words of up to 5 or 6 over 3 values, 4 times"}),
    },
};

// ---------------------------------------------------------------- iteration

/// Queries by the number of features (of `n` with i = 0..n at x = i) they select.
fn selections(n: usize) -> Vec<(String, Sel, usize)> {
    let mut out = vec![("all".to_string(), Sel::All, n)];
    for k in 0..=n {
        out.push((
            format!("bbox{k}"),
            Sel::Spatial(SpatialQuery::BBox(-0.5, -1.0, k as f64 - 0.5, 1.0)),
            k,
        ));
        out.push((format!("attr{k}"), Sel::Attr(vec![("i".into(), Operator::Lt, key_i(k as i64))]), k));
    }
    out
}
fn key_i(k: i64) -> KeyType {
    KeyType::Int32(k as i32)
}

/// Steps an iterator: the words say which operation is applied at each step.
/// 0 = next, 1 = current feature (twice), 2 = counts and size hint.
macro_rules! protocol {
    ($it:ident, $word:expr, $total:expr, $next:expr, $cur:expr, $hint:expr, $head:expr, $ctx:ident) => {{
        let mut seen: Vec<String> = Vec::new();
        let mut ended = false;
        let word: &[usize] = $word;
        for (step, op) in word.iter().enumerate() {
            $ctx.trans(1);
            match op {
                0 => {
                    let some = $next(&mut $it).map_err(|e| format!("step {step}: next: {e}"))?;
                    let want = !ended && seen.len() < $total;
                    if some != want {
                        return Err(format!("step {step}: next gave {} after {} of {}", some, seen.len(), $total));
                    }
                    if some {
                        let id = $cur(&$it).map_err(|e| format!("step {step}: {e}"))?;
                        if seen.contains(&id) {
                            return Err(format!("step {step}: {id} delivered again"));
                        }
                        seen.push(id);
                    } else {
                        ended = true;
                    }
                }
                1 => {
                    if !seen.is_empty() && !ended {
                        for _ in 0..2 {
                            let id = $cur(&$it).map_err(|e| format!("step {step}: {e}"))?;
                            if Some(&id) != seen.last() {
                                return Err(format!("step {step}: current feature {id}, last delivered {:?}", seen.last()));
                            }
                        }
                    }
                }
                _ => {
                    match $it.features_count() {
                        Some(c) if c != $total => {
                            return Err(format!("step {step}: count {c} of {} selected", $total))
                        }
                        _ => {}
                    }
                    let left = if ended { 0 } else { $total - seen.len() };
                    if let Some((lo, hi)) = $hint(&$it) {
                        if lo > left || hi.is_some_and(|h| h < left) {
                            return Err(format!("step {step}: size hint ({lo}, {hi:?}) with {left} left"));
                        }
                    }
                    let head = head_of(&$it.header());
                    if head != *$head {
                        return Err(format!("step {step}: the header changed from {} to {head}", $head));
                    }
                }
            }
        }
    }};
}

/// What a header says.
fn head_of(h: &fcb_core::Header) -> String {
    let cols: Vec<String> = h.columns().iter().flatten().map(|c| format!("{}:{:?}", c.name(), c.type_())).collect();
    let idx: Vec<String> =
        h.attribute_index().iter().flatten().map(|a| format!("{}:{}", a.index(), a.num_unique_items())).collect();
    format!(
        "{} {} {:?} {cols:?} {idx:?}",
        h.features_count(),
        h.index_node_size(),
        fcb_core::deserializer::to_cj_metadata(h).map(|m| serde_json::to_string(&m).unwrap_or_default()).ok()
    )
}

fn run_protocol(ctx: &mut Ctx) {
    let maxn = ctx.t(3, 4);
    let len = ctx.t(6, 8);
    for index_attr in [0usize, 1, 2, 3] {
        for n in 1..=maxn {
            let feats: Vec<Value> =
                (0..n).map(|k| point_feature(&format!("f{k}"), k as i64, 0, json!({"i": k as i64 - 0}))).collect();
            let mut o = Opts::plain(index_attr & 1 == 1);
            if index_attr & 2 == 2 {
                o = o.attr("i", None);
            }
            o.schema = Some([("i".to_string(), (0u16, fcb_core::header_generated::ColumnType::Int))].into_iter().collect());
            let Ok(data) = write_fcb(&base_meta(), &feats, &o) else {
                ctx.case(|| format!("write:{index_attr}:{n}"), |_| Err("the dataset cannot be written".into()));
                continue;
            };
            let data = Arc::new(data);
            let head = FcbReader::open(Cursor::new(data.as_slice())).map(|r| head_of(&r.header())).unwrap_or_default();
            for (name, sel, total) in selections(n) {
                let possible = match sel {
                    Sel::All => true,
                    Sel::Spatial(_) => index_attr & 1 == 1,
                    Sel::Attr(_) => index_attr & 2 == 2,
                };
                if !possible {
                    for mode in MODES {
                        ctx.case(|| format!("noindex:{index_attr}:{n}:{name}:{mode:?}"), |ctx| {
                            ctx.outcome("noindex");
                            ctx.state(&(index_attr, n, &name, mode));
                            match read_mode(&data, mode, &sel) {
                                Err(e) if !e.contains("panicked") => Ok(()),
                                r => Err(format!("a query without its index gave {r:?}")),
                            }
                        });
                    }
                    continue;
                }
                odometer(len, 3, |w| {
                    for mode in MODES {
                        ctx.case(|| format!("word:{index_attr}:{n}:{name}:{mode:?}:{w:?}"), |ctx| {
                            ctx.outcome(match sel {
                                Sel::All => "all",
                                Sel::Spatial(_) => "spatial",
                                Sel::Attr(_) => "attr",
                            });
                            ctx.trace();
                            ctx.state(&(index_attr, n, &name, mode, w));
                            macro_rules! local {
                                ($it:expr) => {{
                                    let mut it = $it.map_err(|e| format!("select: {e}"))?;
                                    protocol!(it, w, total,
                                        |it: &mut _| fcb_next(it),
                                        |it: &_| cur_id(it),
                                        |it: &_| Some(hint(it)), &head, ctx);
                                }};
                            }
                            use local_iter::*;
                            match mode {
                                Mode::Seek => {
                                    let rd = FcbReader::open(Cursor::new(data.as_slice())).map_err(|e| e.to_string())?;
                                    match &sel {
                                        Sel::All => local!(rd.select_all()),
                                        Sel::Spatial(q) => local!(rd.select_query(*q)),
                                        Sel::Attr(q) => local!(rd.select_attr_query(q.clone())),
                                    }
                                }
                                Mode::Seq => {
                                    let rd = FcbReader::open(data.as_slice()).map_err(|e| e.to_string())?;
                                    match &sel {
                                        Sel::All => local!(rd.select_all_seq()),
                                        Sel::Spatial(q) => local!(rd.select_query_seq(*q)),
                                        Sel::Attr(q) => local!(rd.select_attr_query_seq(q.clone())),
                                    }
                                }
                                Mode::Http => {
                                    let (web, _) = Web::new(data.clone(), Fault::None, 0);
                                    let mut it = block_on(async {
                                        let rd = HttpFcbReader::new(AsyncBufferedHttpRangeClient::with(web, "http://m/f")).await?;
                                        match &sel {
                                            Sel::All => rd.select_all().await,
                                            Sel::Spatial(q) => rd.select_query(*q).await,
                                            Sel::Attr(q) => rd.select_attr_query(q).await,
                                        }
                                    })
                                    .map_err(|e| format!("select: {e}"))?;
                                    protocol!(it, w, total,
                                        |it: &mut fcb_core::AsyncFeatureIter<Web>| block_on(async { it.next().await.map(|x| x.is_some()) }),
                                        |it: &fcb_core::AsyncFeatureIter<Web>| it.cur_cj_feature().map(|f| f.id),
                                        |_: &_| None::<(usize, Option<usize>)>, &head, ctx);
                                }
                            }
                            Ok(())
                        });
                    }
                });
            }
        }
    }
}

mod local_iter {
    use super::FallibleStreamingIterator;
    use fcb_core::FeatureIter;
    pub trait It {
        fn n(&mut self) -> Result<bool, String>;
        fn id(&self) -> Result<String, String>;
        fn h(&self) -> (usize, Option<usize>);
    }
    macro_rules! imp {
        ($s:ty, [$($b:tt)*], $extra:expr) => {
            impl<R: $($b)*> It for FeatureIter<R, $s> {
                fn n(&mut self) -> Result<bool, String> {
                    self.next().map(|x| x.is_some()).map_err(|e| e.to_string())
                }
                fn id(&self) -> Result<String, String> {
                    let f = self.cur_cj_feature().map_err(|e| e.to_string())?;
                    if self.cur_feature().id() != f.id {
                        return Err("two views of the current feature disagree".into());
                    }
                    let extra: fn(&Self) -> Result<(), String> = $extra;
                    extra(self)?;
                    Ok(f.id)
                }
                fn h(&self) -> (usize, Option<usize>) {
                    self.size_hint()
                }
            }
        };
    }
    imp!(fcb_core::reader_trait::Seekable, [std::io::Read + std::io::Seek], |it| {
        let f = it.cur_feature();
        let buf = f._tab.buf();
        let named = u32::from_le_bytes(buf[..4].try_into().unwrap()) as usize + 4;
        if it.get_current_feature().id() != f.id() || it.cur_feature_len() != named || named != buf.len() {
            return Err("the length of the current feature is wrong".into());
        }
        Ok(())
    });
    imp!(fcb_core::reader_trait::NotSeekable, [std::io::Read], |_| Ok(()));
    pub fn fcb_next<I: It>(i: &mut I) -> Result<bool, String> {
        i.n()
    }
    pub fn cur_id<I: It>(i: &I) -> Result<String, String> {
        i.id()
    }
    pub fn hint<I: It>(i: &I) -> (usize, Option<usize>) {
        i.h()
    }
}

pub const P23: Prop = Prop {
    id: "P23",
    level: "model_checking",
    run: run_protocol,
    case_secs: 60,
    required_outcomes: &["all", "spatial", "attr", "noindex"],
    assumptions: &["nothing is required of the current feature before the first and after the last"],
    bounds: |t| match t {
        Tier::Quick => json!({"features": 3, "operations": "every word of 6 over 3", "selections": "all, and every result size of a spatial and an attribute query", "modes": 3}),
        Tier::Thorough => json!({"features": 4, "operations": "every word of 8 over 3", "selections": "all, and every result size of a spatial and an attribute query", "modes": 3}),
    },
};
