//! Datasets, writing and reading them through the public interface, comparison.

use crate::webmock::{block_on, Fault, Log, Web};
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::{FcbReader, FcbWriter, HttpFcbReader, KeyType, Operator, SpatialQuery};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::{json, Map, Value};
use std::io::{Cursor, Read, Seek};
use std::sync::Arc;

pub type AttrQ = Vec<(String, Operator, KeyType)>;

#[derive(Clone)]
pub struct Opts {
    pub index: bool,
    pub attrs: Vec<(String, Option<u16>)>,
    pub count: Option<u64>,
    pub extent: Option<[f64; 6]>,
    /// None: derived from the features as the command line tool does.
    pub schema: Option<AttributeSchema>,
    pub sem_schema: Option<Option<AttributeSchema>>,
    /// no attribute schema is given to the writer at all
    pub no_schema: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            index: true,
            attrs: vec![],
            count: None,
            extent: None,
            schema: None,
            sem_schema: None,
            no_schema: false,
        }
    }
}

impl Opts {
    pub fn plain(index: bool) -> Opts {
        Opts {
            index,
            ..Default::default()
        }
    }
    pub fn attr(mut self, name: &str, bf: Option<u16>) -> Opts {
        self.attrs.push((name.to_string(), bf));
        self
    }
}

pub fn base_meta() -> Value {
    json!({
        "type": "CityJSON", "version": "2.0",
        "transform": {"scale": [1.0, 1.0, 1.0], "translate": [0.0, 0.0, 0.0]},
        "CityObjects": {}, "vertices": [],
    })
}

pub fn feature(id: &str, objects: Value, vertices: Value) -> Value {
    json!({"type": "CityJSONFeature", "id": id, "CityObjects": objects, "vertices": vertices})
}

/// A feature with one Building at integer point (x, y) and attributes.
pub fn point_feature(id: &str, x: i64, y: i64, attrs: Value) -> Value {
    let mut o = json!({"type": "Building"});
    if !attrs.is_null() {
        o["attributes"] = attrs;
    }
    o["geometry"] = json!([{"type": "MultiPoint", "lod": "1", "boundaries": [0]}]);
    let mut objs = Map::new();
    objs.insert(id.to_string(), o);
    feature(id, Value::Object(objs), json!([[x, y, 0]]))
}

/// A feature whose vertices are the corners of the given box.
pub fn box_feature(id: &str, b: [i64; 4]) -> Value {
    let mut objs = Map::new();
    objs.insert(
        id.to_string(),
        json!({"type": "Building", "geometry": [
            {"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2, 3]]]}]}),
    );
    feature(
        id,
        Value::Object(objs),
        json!([[b[0], b[1], 0], [b[2], b[1], 0], [b[2], b[3], 1], [b[0], b[3], 1]]),
    )
}

pub fn parse_cj(v: &Value) -> CityJSON {
    serde_json::from_value(v.clone()).expect("CityJSON metadata of a case")
}
pub fn parse_feature(v: &Value) -> CityJSONFeature {
    serde_json::from_value(v.clone()).expect("CityJSON feature of a case")
}

pub fn schemas_of(feats: &[CityJSONFeature]) -> (AttributeSchema, Option<AttributeSchema>) {
    let mut a = AttributeSchema::new();
    let mut s = AttributeSchema::new();
    for f in feats {
        for co in f.city_objects.values() {
            if let Some(at) = &co.attributes {
                a.add_attributes(at);
            }
            for g in co.geometry.iter().flatten() {
                for surf in g.semantics.iter().flat_map(|s| s.surfaces.iter()) {
                    if let Some(o) = &surf.other {
                        s.add_attributes(o);
                    }
                }
            }
        }
    }
    (a, if s.is_empty() { None } else { Some(s) })
}

pub fn with_writer<T>(
    meta: &Value,
    feats: &[Value],
    o: &Opts,
    f: impl FnOnce(FcbWriter) -> T,
) -> Result<T, String> {
    let cj = parse_cj(meta);
    let feats: Vec<CityJSONFeature> = feats.iter().map(parse_feature).collect();
    let (a, s) = schemas_of(&feats);
    let schema = o.schema.clone().unwrap_or(a);
    let sem = o.sem_schema.clone().unwrap_or(s);
    let ho = HeaderWriterOptions {
        write_index: o.index,
        feature_count: o.count.unwrap_or(feats.len() as u64),
        index_node_size: 16,
        attribute_indices: if o.attrs.is_empty() {
            None
        } else {
            Some(o.attrs.clone())
        },
        geographical_extent: o.extent,
    };
    let mut w = FcbWriter::new(cj, Some(ho), (!o.no_schema).then_some(schema), sem).map_err(|e| format!("writer: {e}"))?;
    for x in &feats {
        w.add_feature(x).map_err(|e| format!("add_feature: {e}"))?;
    }
    Ok(f(w))
}

pub fn write_fcb(meta: &Value, feats: &[Value], o: &Opts) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    with_writer(meta, feats, o, |w| w.write(&mut out))?.map_err(|e| format!("write: {e}"))?;
    crate::props::format::exchange(out, meta, feats, o)
}

/// Writes the same dataset several times; the bytes must be the same. Maps are made anew each
/// time (their order is not part of the dataset), except those of features with several objects,
/// for which the parser leaves the order open.
pub fn same_bytes(meta: &Value, feats: &[Value], o: &Opts, times: usize) -> Result<Vec<u8>, String> {
    let again = |s: &AttributeSchema| -> AttributeSchema { s.iter().map(|(k, v)| (k.clone(), *v)).collect() };
    let parse = || -> Vec<CityJSONFeature> { feats.iter().map(parse_feature).collect() };
    let one = parse();
    let (a, s) = schemas_of(&one);
    let schema = o.schema.clone().unwrap_or(a);
    let sem = o.sem_schema.clone().unwrap_or(s);
    let single = one.iter().all(|f| f.city_objects.len() < 2);
    let mut first: Option<Vec<u8>> = None;
    for k in 0..times {
        let cj = parse_cj(meta);
        let other = if single { Some(parse()) } else { None };
        let feats = other.as_ref().unwrap_or(&one);
        let (schema, sem) = (again(&schema), sem.as_ref().map(again));
        let ho = HeaderWriterOptions {
            write_index: o.index,
            feature_count: o.count.unwrap_or(feats.len() as u64),
            index_node_size: 16,
            attribute_indices: (!o.attrs.is_empty()).then(|| o.attrs.clone()),
            geographical_extent: o.extent,
        };
        let mut w = FcbWriter::new(cj, Some(ho), Some(schema), sem).map_err(|e| format!("writer: {e}"))?;
        for x in feats {
            w.add_feature(x).map_err(|e| format!("add_feature: {e}"))?;
        }
        let mut out = Vec::new();
        w.write(&mut out).map_err(|e| format!("write: {e}"))?;
        match &first {
            None => first = Some(out),
            Some(f) if *f != out => {
                let at = f.iter().zip(&out).position(|(x, y)| x != y);
                return Err(format!("written again (time {k}), the bytes differ: {} and {} bytes, first at {at:?}", f.len(), out.len()));
            }
            _ => {}
        }
    }
    Ok(first.unwrap())
}

#[derive(Clone, Debug)]
pub enum Sel {
    All,
    Spatial(SpatialQuery),
    Attr(AttrQ),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Seek,
    Seq,
    Http,
}
pub const MODES: [Mode; 3] = [Mode::Seek, Mode::Seq, Mode::Http];

/// What one complete iteration delivered.
#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    pub feats: Vec<Value>,
    pub count: Option<usize>,
}

impl Got {
    /// Whether the reported total is n; a remote iteration reports none for 0.
    pub fn counts(&self, n: usize) -> bool {
        self.count.unwrap_or(0) == n
    }
    pub fn ids(&self) -> Vec<String> {
        self.feats
            .iter()
            .map(|f| f["id"].as_str().unwrap_or("?").to_string())
            .collect()
    }
}

macro_rules! drain {
    ($it:expr, $limit:expr) => {{
        let mut it = $it.map_err(|e| format!("select: {e}"))?;
        let count = it.features_count();
        let mut feats = Vec::new();
        loop {
            match it.next() {
                Ok(Some(f)) => {
                    let f = f.cur_cj_feature().map_err(|e| format!("decode: {e}"))?;
                    feats.push(serde_json::to_value(&f).map_err(|e| e.to_string())?);
                    if feats.len() > $limit {
                        return Err(format!("more than {} features delivered", $limit));
                    }
                }
                Ok(None) => break,
                Err(e) => return Err(format!("next: {e}")),
            }
        }
        Ok(Got { feats, count })
    }};
}

const LIMIT: usize = 100_000;

pub fn read_seek<R: Read + Seek>(r: R, sel: &Sel) -> Result<Got, String> {
    opened_seek(FcbReader::open(r).map_err(|e| format!("open: {e}"))?, sel)
}

fn opened_seek<R: Read + Seek>(rd: FcbReader<R>, sel: &Sel) -> Result<Got, String> {
    match sel {
        Sel::All => drain!(rd.select_all(), LIMIT),
        Sel::Spatial(q) => drain!(rd.select_query(*q), LIMIT),
        Sel::Attr(q) => drain!(rd.select_attr_query(q.clone()), LIMIT),
    }
}

pub fn read_seq<R: Read>(r: R, sel: &Sel) -> Result<Got, String> {
    opened_seq(FcbReader::open(r).map_err(|e| format!("open: {e}"))?, sel)
}

/// The same through the readers that trust what this harness has written.
pub fn read_unchecked(data: &Arc<Vec<u8>>, mode: Mode, sel: &Sel) -> Result<Got, String> {
    // SAFETY: callers have read the same bytes with the checking reader
    match mode {
        Mode::Seek => opened_seek(
            unsafe { FcbReader::open_unchecked(Cursor::new(data.as_slice())) }.map_err(|e| format!("open: {e}"))?,
            sel,
        ),
        Mode::Seq => opened_seq(
            unsafe { FcbReader::open_unchecked(data.as_slice()) }.map_err(|e| format!("open: {e}"))?,
            sel,
        ),
        Mode::Http => read_mode(data, mode, sel),
    }
}

fn opened_seq<R: Read>(rd: FcbReader<R>, sel: &Sel) -> Result<Got, String> {
    match sel {
        Sel::All => drain!(rd.select_all_seq(), LIMIT),
        Sel::Spatial(q) => drain!(rd.select_query_seq(*q), LIMIT),
        Sel::Attr(q) => drain!(rd.select_attr_query_seq(q.clone()), LIMIT),
    }
}

pub fn read_http(
    data: Arc<Vec<u8>>,
    sel: &Sel,
    fault: Fault,
    pends: usize,
) -> (Result<Got, String>, Arc<Log>) {
    let (web, log) = Web::new(data, fault, pends);
    let r = block_on(async {
        let client = AsyncBufferedHttpRangeClient::with(web, "http://mock/f.fcb");
        let rd = HttpFcbReader::new(client)
            .await
            .map_err(|e| format!("open: {e}"))?;
        let mut it = match sel {
            Sel::All => rd.select_all().await,
            Sel::Spatial(q) => rd.select_query(*q).await,
            Sel::Attr(q) => rd.select_attr_query(q).await,
        }
        .map_err(|e| format!("select: {e}"))?;
        let count = it.features_count();
        let mut feats = Vec::new();
        loop {
            match it.next().await {
                Ok(Some(_)) => {
                    let f = it.cur_cj_feature().map_err(|e| format!("decode: {e}"))?;
                    feats.push(serde_json::to_value(&f).map_err(|e| e.to_string())?);
                    if feats.len() > LIMIT {
                        return Err(format!("more than {LIMIT} features delivered"));
                    }
                }
                Ok(None) => break,
                Err(e) => return Err(format!("next: {e}")),
            }
        }
        Ok(Got { feats, count })
    });
    (r, log)
}

pub fn read_mode(data: &Arc<Vec<u8>>, mode: Mode, sel: &Sel) -> Result<Got, String> {
    match mode {
        Mode::Seek => read_seek(Cursor::new(data.as_slice()), sel),
        Mode::Seq => read_seq(data.as_slice(), sel),
        Mode::Http => read_http(data.clone(), sel, Fault::None, 0).0,
    }
}

/// Equality of the numbers themselves: an integer and a float are equal if the
/// float is exactly that integer.
pub fn same_number(x: &serde_json::Number, y: &serde_json::Number) -> bool {
    let int = |n: &serde_json::Number| {
        n.as_i64().map(i128::from).or_else(|| n.as_u64().map(i128::from)).or_else(|| {
            n.as_f64().filter(|f| f.fract() == 0.0 && f.abs() < 1e30).map(|f| f as i128)
        })
    };
    match (int(x), int(y)) {
        (Some(a), Some(b)) => a == b,
        (None, None) => x.as_f64() == y.as_f64(),
        _ => false,
    }
}

/// First difference between two JSON values; numbers compare by value.
pub fn diff(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, path: &mut Vec<String>) -> Option<String> {
        let here = |p: &Vec<String>, s: String| Some(format!("at /{}: {}", p.join("/"), s));
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    let Some(w) = y.get(k) else {
                        return here(path, format!("{k} expected {} but absent", short(v)));
                    };
                    path.push(k.clone());
                    if let Some(d) = go(v, w, path) {
                        return Some(d);
                    }
                    path.pop();
                }
                for (k, w) in y {
                    if !x.contains_key(k) {
                        return here(path, format!("{k} = {} not expected", short(w)));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return here(path, format!("expected {} got {}", short(a), short(b)));
                }
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    path.push(i.to_string());
                    if let Some(d) = go(v, w, path) {
                        return Some(d);
                    }
                    path.pop();
                }
                None
            }
            (Value::Number(x), Value::Number(y)) => {
                if same_number(x, y) {
                    None
                } else {
                    here(path, format!("expected {a} got {b}"))
                }
            }
            _ => {
                if a == b {
                    None
                } else {
                    here(path, format!("expected {} got {}", short(a), short(b)))
                }
            }
        }
    }
    go(a, b, &mut Vec::new())
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 160 {
        let cut: String = s.chars().take(160).collect();
        format!("{cut}...")
    } else {
        s
    }
}

/// A feature up to what carries no information: null attributes, empty attribute
/// objects and geometry lists, and where geometry instances stand among the
/// ordinary geometries.
pub fn expected_feature(v: &Value) -> Value {
    let mut v = serde_json::to_value(parse_feature(v)).unwrap();
    if let Some(objs) = v["CityObjects"].as_object_mut() {
        for o in objs.values_mut() {
            if let Some(a) = o.get_mut("attributes").and_then(|a| a.as_object_mut()) {
                a.retain(|_, v| !v.is_null());
                if a.is_empty() {
                    o.as_object_mut().unwrap().remove("attributes");
                }
            }
            let Some(gs) = o.get_mut("geometry").and_then(|g| g.as_array_mut()) else {
                continue;
            };
            for g in gs.iter_mut() {
                let surfaces = g.get_mut("semantics").and_then(|s| s.get_mut("surfaces"));
                for s in surfaces.and_then(|s| s.as_array_mut()).into_iter().flatten() {
                    if let Some(s) = s.as_object_mut() {
                        s.retain(|_, v| !v.is_null());
                    }
                }
            }
            // instances and ordinary geometries keep their order among themselves
            gs.sort_by_key(|g| g["type"] == "GeometryInstance");
            if gs.is_empty() {
                o.as_object_mut().unwrap().remove("geometry");
            }
        }
    }
    v
}

/// Both sides normalised for comparison.
pub fn same_feature(input: &Value, got: &Value) -> Result<(), String> {
    match diff(&expected_feature(input), &expected_feature(got)) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

/// The same dataset with a spatial index of another node size: the format leaves it to the
/// file, which states it in its header. The tree is built here, level by level.
pub fn with_node_size(data: &[u8], node_size: u16) -> Vec<u8> {
    use fcb_core::header_generated::*;
    let header_end = 12 + u32::from_le_bytes(data[8..12].try_into().unwrap()) as usize;
    let h = flatbuffers::size_prefixed_root::<Header>(&data[8..header_end]).expect("the header");
    let n = h.features_count() as usize;
    // from the features up
    let levels = |ns: usize| {
        let mut l = vec![n];
        while l.len() < 2 || *l.last().unwrap() > 1 {
            l.push(l.last().unwrap().div_ceil(ns));
        }
        l
    };
    let old: usize = levels(h.index_node_size() as usize).iter().sum::<usize>() * 40;
    let (tree, rest) = data[header_end..].split_at(old);
    type Node = ([f64; 4], u64);
    let f = |b: &[u8], i: usize| f64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    let leaves: Vec<Node> = tree[old - n * 40..]
        .chunks(40)
        .map(|c| ([f(c, 0), f(c, 1), f(c, 2), f(c, 3)], u64::from_le_bytes(c[32..].try_into().unwrap())))
        .collect();
    let sizes = levels(node_size as usize);
    let mut built = vec![leaves];
    for k in 1..sizes.len() {
        // where the level below begins, counted in nodes from the root
        let below: usize = sizes[k..].iter().sum();
        let up: Vec<Node> = built[k - 1]
            .chunks(node_size as usize)
            .enumerate()
            .map(|(i, c)| {
                let m = |j: usize, min: bool| c.iter().map(|n| n.0[j]).fold(c[0].0[j], |a, b| if min { a.min(b) } else { a.max(b) });
                ([m(0, true), m(1, true), m(2, false), m(3, false)], (below + i * node_size as usize) as u64)
            })
            .collect();
        built.push(up);
    }
    let mut b = flatbuffers::FlatBufferBuilder::new();
    let columns: Vec<_> = h
        .columns()
        .iter()
        .flatten()
        .map(|c| {
            let name = b.create_string(c.name());
            Column::create(&mut b, &ColumnArgs { index: c.index(), name: Some(name), type_: c.type_(), ..Default::default() })
        })
        .collect();
    let columns = h.columns().map(|_| b.create_vector(&columns));
    let indices = h.attribute_index().map(|v| b.create_vector(&v.iter().cloned().collect::<Vec<_>>()));
    let version = b.create_string(h.version());
    let header = Header::create(
        &mut b,
        &HeaderArgs {
            transform: h.transform(),
            columns,
            features_count: h.features_count(),
            index_node_size: node_size,
            attribute_index: indices,
            geographical_extent: h.geographical_extent(),
            version: Some(version),
            ..Default::default()
        },
    );
    b.finish_size_prefixed(header, None);
    let mut out = data[..8].to_vec();
    out.extend_from_slice(b.finished_data());
    for level in built.iter().rev() {
        for (bx, to) in level {
            bx.iter().for_each(|v| out.extend(v.to_le_bytes()));
            out.extend(to.to_le_bytes());
        }
    }
    out.extend_from_slice(rest);
    out
}
