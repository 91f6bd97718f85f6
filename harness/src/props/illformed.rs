//! P29 features and metadata that parse but are not what CityJSON asks for.

use super::cli;
use super::Prop;
use crate::core::*;
use crate::data::*;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::header_generated::ColumnType;
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::packed_rtree::Query;
use fcb_core::{FcbReader, FcbWriter, Operator};
use serde_json::{json, Map, Value};
use std::sync::Arc;

const TYPES: [&str; 8] = [
    "MultiPoint",
    "MultiLineString",
    "MultiSurface",
    "CompositeSurface",
    "Solid",
    "MultiSolid",
    "CompositeSolid",
    "GeometryInstance",
];

/// Every nesting of arrays with the given number of nodes; leaves are empty arrays
/// or the values of `leaf`.
fn nestings(nodes: usize, leaf: &[Value]) -> Vec<Value> {
    // forests[n]: every list of trees with n nodes altogether
    fn forests(n: usize, leaf: &[Value], memo: &mut Vec<Option<Vec<Vec<Value>>>>) -> Vec<Vec<Value>> {
        if let Some(f) = &memo[n] {
            return f.clone();
        }
        let mut out = Vec::new();
        if n == 0 {
            out.push(vec![]);
        } else {
            for first in 1..=n {
                let mut heads: Vec<Value> =
                    forests(first - 1, leaf, memo).into_iter().map(Value::Array).collect();
                if first == 1 {
                    heads.extend(leaf.iter().cloned());
                }
                for h in heads {
                    for rest in forests(n - first, leaf, memo) {
                        let mut f = vec![h.clone()];
                        f.extend(rest);
                        out.push(f);
                    }
                }
            }
        }
        memo[n] = Some(out.clone());
        out
    }
    let mut memo = vec![None; nodes + 1];
    (0..nodes).flat_map(|n| forests(n, leaf, &mut memo)).map(Value::Array).collect()
}

fn object_with(geometry: Value) -> Value {
    json!({"type": "Building", "geometry": [geometry]})
}

fn bad_feature(objects: Value) -> Value {
    feature("bad", objects, json!([[900, 900, 0], [901, 900, 0], [901, 901, 0], [900, 901, 5]]))
}

/// A geometry of the type as it should be: two surfaces where there are surfaces.
fn sound(t: &str) -> Value {
    let b = match t {
        "MultiPoint" => json!([0, 1]),
        "MultiLineString" => json!([[0, 1], [1, 2]]),
        "MultiSurface" | "CompositeSurface" => json!([[[0, 1, 2]], [[0, 2, 3]]]),
        "Solid" => json!([[[[0, 1, 2]], [[0, 2, 3]]]]),
        _ => json!([[[[[0, 1, 2]], [[0, 2, 3]]]]]),
    };
    json!({"type": t, "lod": "1", "boundaries": b})
}

fn good(k: usize) -> Value {
    let mut f = box_feature(&format!("good{k}"), [k as i64 * 10, 0, k as i64 * 10 + 3, 4]);
    let id = format!("good{k}");
    f["CityObjects"][&id]["attributes"] = match k {
        0 => json!({"n": 0, "s": "x"}),
        _ => json!({"n": k, "s": "y", "late": 1.5, "later": [k]}),
    };
    f
}

/// Writes the features around the ill-formed ones and reads everything. The sound
/// features must be there, complete, in every way of finding them.
fn harmless(ctx: &mut Ctx, meta: &Value, bad: &[Value]) -> Result<(), String> {
    let Ok(cj) = serde_json::from_value::<CityJSON>(meta.clone()) else {
        ctx.outcome("not parsed");
        return Ok(());
    };
    let sound_feats = [good(0), good(1), good(2)];
    let mut parsed: Vec<(bool, CityJSONFeature)> = vec![(true, parse_feature(&sound_feats[0]))];
    for (k, b) in bad.iter().enumerate() {
        let Ok(mut f) = serde_json::from_value::<CityJSONFeature>(b.clone()) else {
            ctx.outcome("not parsed");
            return Ok(());
        };
        f.id = format!("bad{k}");
        parsed.push((false, f));
        parsed.push((true, parse_feature(&sound_feats[k + 1])));
    }
    for extra in &sound_feats[bad.len() + 1..] {
        parsed.push((true, parse_feature(extra)));
    }
    let only: Vec<CityJSONFeature> = parsed.iter().map(|p| p.1.clone()).collect();
    let sound_only: Vec<CityJSONFeature> = sound_feats.iter().map(parse_feature).collect();
    for (index, attr, derived) in [(true, true, true), (false, false, true), (false, true, false)] {
        // the columns derived from all the features, or given for the sound ones
        let (a, s) = schemas_of(if derived { &only } else { &sound_only });
        ctx.trace();
        let ho = HeaderWriterOptions {
            write_index: index,
            feature_count: parsed.len() as u64,
            index_node_size: 16,
            attribute_indices: attr.then(|| vec![("n".to_string(), None), ("late".to_string(), Some(2))]),
            geographical_extent: None,
        };
        let mut w = match FcbWriter::new(cj.clone(), Some(ho), Some(a.clone()), s.clone()) {
            Ok(w) => w,
            Err(_) => {
                ctx.outcome("metadata refused");
                continue;
            }
        };
        let mut kept = 0;
        for (is_sound, f) in &parsed {
            ctx.trans(1);
            match w.add_feature(f) {
                Ok(()) => kept += 1,
                Err(e) if *is_sound => return Err(format!("feature {} refused: {e}", f.id)),
                Err(_) => ctx.outcome("refused"),
            }
        }
        let mut data = Vec::new();
        if let Err(e) = w.write(&mut data) {
            if bad.is_empty() {
                ctx.outcome("metadata refused");
                continue;
            }
            return Err(format!("the features were accepted but cannot be written: {e}"));
        }
        let data = Arc::new(data);
        // one by one: what cannot be decoded must not keep the others from being read
        let mut it = FcbReader::open(data.as_slice())
            .and_then(|r| r.select_all_seq())
            .map_err(|e| format!("open: {e}"))?;
        let mut seen = Vec::new();
        loop {
            ctx.trans(1);
            match it.next() {
                Ok(Some(f)) => {
                    let id = f.cur_feature().id().to_string();
                    let got = f.cur_cj_feature();
                    match sound_feats.iter().find(|g| g["id"] == id.as_str()) {
                        Some(g) => same_feature(g, &serde_json::to_value(got.map_err(|e| format!("feature {id}: {e}"))?).unwrap())
                            .map_err(|e| format!("feature {id} {e}"))?,
                        None => {
                            let same = got.as_ref().ok().is_some_and(|g| {
                                let want = &parsed.iter().find(|p| p.1.id == id).unwrap().1;
                                serde_json::to_value(g).unwrap() == serde_json::to_value(want).unwrap()
                            });
                            ctx.outcome(match (got.is_ok(), same) {
                                (false, _) => "not decoded",
                                (true, false) => "other",
                                _ => "same",
                            })
                        }
                    }
                    seen.push(id);
                }
                Ok(None) => break,
                Err(e) => return Err(format!("next: {e}")),
            }
        }
        if seen.len() != kept || sound_feats.iter().any(|g| !seen.iter().any(|i| g["id"] == i.as_str())) {
            return Err(format!("{kept} features written, read {seen:?}"));
        }
        // an attribute that has values of several kinds is not indexed
        if attr && a["n"].1 == ColumnType::ULong {
            let q = |op| vec![("n".to_string(), op, fcb_core::KeyType::UInt64(1))];
            for (op, want) in [(Operator::Eq, vec!["good1"]), (Operator::Le, vec!["good0", "good1"])] {
                for mode in MODES {
                    ctx.trans(1);
                    let mut got = read_mode(&data, mode, &Sel::Attr(q(op)))?.ids();
                    got.retain(|i| i.starts_with("good"));
                    got.sort();
                    if got != want {
                        return Err(format!("{mode:?} n {op:?} 1: {got:?}"));
                    }
                }
            }
        }
        if index && bad.iter().all(|b| b["vertices"].as_array().is_some_and(|v| !v.is_empty())) && meta == &base_meta() {
            for mode in MODES {
                ctx.trans(1);
                let mut got = read_mode(&data, mode, &Sel::Spatial(Query::BBox(-1.0, -1.0, 14.0, 14.0)))?.ids();
                got.sort();
                if got != ["good0", "good1"] {
                    return Err(format!("{mode:?} box: {got:?}"));
                }
            }
        }
    }
    Ok(())
}

/// One ill-formed feature, also twice, also through the command line tool.
fn one(ctx: &mut Ctx, objects: Value, tool: bool) -> Result<(), String> {
    let b = bad_feature(objects);
    ctx.state(&b.to_string());
    harmless(ctx, &base_meta(), &[b.clone()])?;
    if !tool {
        return Ok(());
    }
    harmless(ctx, &base_meta(), &[b.clone(), b.clone()])?;
    let text = format!("{}\n{}\n{}\n{}\n", base_meta(), good(0), b, good(1));
    match cli::convert_text(text.as_bytes())? {
        true => ctx.outcome("tool: written"),
        false => ctx.outcome("tool: refused"),
    }
    Ok(())
}

/// Splits the cases into blocks of a few dozen.
fn blocks<T: Clone>(ctx: &mut Ctx, name: &str, all: &[T], mut f: impl FnMut(&mut Ctx, &T) -> Result<(), String>) {
    for (k, block) in all.chunks(40).enumerate() {
        ctx.case(|| format!("{name}:{k}"), |ctx| {
            ctx.outcome(&format!("kind: {}", name.split(':').next().unwrap()));
            for x in block {
                f(ctx, x)?;
            }
            Ok(())
        });
    }
}

fn run_illformed(ctx: &mut Ctx) {
    // boundaries of every nesting under every type
    let shapes = nestings(ctx.t(7, 8), &[json!(1)]);
    for t in TYPES {
        blocks(ctx, &format!("boundaries:{t}"), &shapes, |ctx, b| {
            one(ctx, json!({"o": object_with(json!({"type": t, "lod": "1", "boundaries": b}))}), false)
        });
    }
    // vertices that do not exist
    for t in TYPES {
        let mut all = Vec::new();
        for i in [4u64, 5, 65536, 1 << 31, u64::from(u32::MAX), 1 << 32] {
            let text = sound(t).to_string();
            all.push(text.replacen("[0,", &format!("[{i},"), 1));
        }
        blocks(ctx, &format!("vertices:{t}"), &all, |ctx, g| {
            one(ctx, json!({"o": object_with(serde_json::from_str(g).unwrap())}), true)
        });
    }
    // semantics, materials and textures that do not fit their geometry
    let values = nestings(ctx.t(6, 7), &[json!(0), Value::Null]);
    for t in &TYPES[..7] {
        for n in [0usize, 1, 2] {
            blocks(ctx, &format!("semantics:{t}:{n}"), &values, |ctx, v| {
                let surfaces: Vec<Value> = (0..n).map(|_| json!({"type": "RoofSurface"})).collect();
                let mut g = sound(t);
                g["semantics"] = json!({"surfaces": surfaces, "values": v});
                one(ctx, json!({"o": object_with(g)}), false)
            });
        }
        blocks(ctx, &format!("material:{t}"), &values, |ctx, v| {
            let mut g = sound(t);
            g["material"] = json!({"t": {"values": v}});
            one(ctx, json!({"o": object_with(g)}), false)
        });
        blocks(ctx, &format!("texture:{t}"), &values, |ctx, v| {
            let mut g = sound(t);
            g["texture"] = json!({"t": {"values": v}});
            one(ctx, json!({"o": object_with(g)}), false)
        });
    }
    let numbers = [json!(null), json!(0), json!(1), json!(7), json!(u32::MAX), json!(1u64 << 32), json!(u64::MAX)];
    // numbers of surfaces, materials, textures beyond what there is; both forms of a material
    let mut odd = Vec::new();
    for x in &numbers {
        for y in &numbers {
            odd.push((x.clone(), y.clone()));
        }
    }
    for t in ["MultiSurface", "Solid", "MultiSolid"] {
        blocks(ctx, &format!("numbers:{t}"), &odd, |ctx, (x, y)| {
            let nest = |mut v: Value| {
                for _ in 0..match t {
                    "MultiSurface" => 0,
                    "Solid" => 1,
                    _ => 2,
                } {
                    v = json!([v]);
                }
                v
            };
            for k in 0..5 {
                let mut g = sound(t);
                match k {
                    0 => g["semantics"] = json!({"surfaces": [{"type": "RoofSurface"}], "values": nest(json!([x, y]))}),
                    1 => g["material"] = json!({"t": {"values": nest(json!([x, y]))}}),
                    2 => g["material"] = json!({"t": {"value": x, "values": nest(json!([y, y]))}, "u": {"value": y}, "": {}}),
                    3 => g["texture"] = json!({"t": {"values": nest(json!([[[x, 0, 1, 2]], [[y, 3, x, y]]]))}}),
                    _ => {
                        // parents and children of surfaces, to themselves and to nowhere
                        let mut s = json!([{"type": "WallSurface"}, {"type": "Door"}]);
                        if !x.is_null() {
                            s[0]["parent"] = x.clone();
                            s[1]["children"] = json!([x, y]);
                        }
                        if !y.is_null() {
                            s[1]["parent"] = y.clone();
                            s[0]["children"] = json!([y]);
                        }
                        g["semantics"] = json!({"surfaces": s, "values": nest(json!([0, 1]))});
                    }
                }
                one(ctx, json!({"o": object_with(g)}), false)?;
            }
            Ok(())
        });
    }
    // instances of templates
    let mut all = Vec::new();
    let ident = json!([1.0, 0, 0, 0, 0, 1.0, 0, 0, 0, 0, 1.0, 0, 0, 0, 0, 1.0]);
    for template in [json!(null), json!(0), json!(7), json!(u32::MAX), json!(1u64 << 40)] {
        for matrix in [json!(null), ident.clone(), json!([1.0, 2.0])] {
            for b in [json!([]), json!([0]), json!([9]), json!([0, 1]), json!([[0]]), json!([[]]), json!([[[0, 1, 2]]])] {
                for t in ["GeometryInstance", "Solid", "MultiPoint"] {
                    for dressed in [false, true] {
                        let mut g = json!({"type": t, "boundaries": b});
                        if !template.is_null() {
                            g["template"] = template.clone();
                        }
                        if !matrix.is_null() {
                            g["transformationMatrix"] = matrix.clone();
                        }
                        if dressed {
                            g["lod"] = json!("2");
                            g["semantics"] = json!({"surfaces": [], "values": []});
                            g["material"] = json!({"t": {"value": 0}});
                        }
                        all.push(g);
                    }
                }
            }
        }
    }
    blocks(ctx, "instances", &all, |ctx, g| one(ctx, json!({"o": object_with(g.clone())}), g["lod"].is_null() && g["type"] == "GeometryInstance"));
    // objects
    let mut all = Vec::new();
    for t in ["", "Foo", "+", "building", "Building ", "\u{0}", "+\u{1F600}"] {
        all.push(json!({"o": {"type": t}}));
    }
    for a in [json!(null), json!([]), json!([1, {"a": 2}]), json!("x"), json!(""), json!(3), json!(1.5), json!(true), json!({}), json!({"": null}), json!({"": {}}), json!({"json": 1}), json!({"n": "text", "s": 5, "late": {}}), json!({"n": -1}), json!({"n": 1e300}), json!({"late": "2020-01-01"})] {
        all.push(json!({"o": {"type": "Building", "attributes": a}}));
        all.push(json!({"o": {"type": "Building", "attributes": a}, "p": {"type": "BuildingPart", "attributes": {"json": [1], "n": 2}}}));
        let mut g = sound("MultiSurface");
        g["semantics"] = json!({"surfaces": [{"type": "RoofSurface", "a": a}, {"type": "RoofSurface", "": a}], "values": [0, 1]});
        all.push(json!({"o": object_with(g)}));
    }
    for t in ["", "+", "Roof", "\u{0}"] {
        let mut g = sound("Solid");
        g["semantics"] = json!({"surfaces": [{"type": t}], "values": [[0, null]]});
        all.push(json!({"o": object_with(g)}));
    }
    for links in [json!([]), json!(["o"]), json!(["nobody", ""]), json!(["o", "o"])] {
        all.push(json!({"o": {"type": "Building", "children": links, "parents": links, "children_roles": ["a"]}}));
    }
    all.push(json!({}));
    all.push(json!({"": {"type": "Building", "geometry": []}}));
    for e in [json!([1, 2, 3, -1, -2, -3]), json!([0, 0, 0, 0, 0, 0]), json!([1e308, -1e308, 1e-320, 1, 1, 1])] {
        all.push(json!({"o": {"type": "Building", "geographicalExtent": e}}));
    }
    // an object named in two ways, a geometry list that holds everything
    let every: Vec<Value> = TYPES.iter().flat_map(|t| [sound(t), json!({"type": t, "boundaries": []})]).collect();
    all.push(json!({"o": {"type": "Building", "geometry": every}}));
    blocks(ctx, "objects", &all, |ctx, o| one(ctx, o.clone(), true));
    // vertices
    let far = [json!(0), json!(i32::MAX), json!(i64::from(i32::MAX) + 1), json!(i32::MIN), json!(i64::MIN), json!(i64::MAX), json!(1u64 << 63), json!(0.5)];
    let mut all = Vec::new();
    for x in &far {
        for y in &far {
            all.push(json!([[x, y, 0]]));
            all.push(json!([[0, 0, x], [1, 1, y]]));
        }
    }
    all.push(json!([]));
    all.push(json!([[0, 0]]));
    all.push(json!([[]]));
    all.push(json!([[0, 0, 0, 0]]));
    blocks(ctx, "coordinates", &all, |ctx, v| {
        let mut b = bad_feature(json!({"o": object_with(sound("MultiPoint"))}));
        b["vertices"] = v.clone();
        ctx.state(&b.to_string());
        // these may lie anywhere: no box is asked for
        let mut m = base_meta();
        m["version"] = json!("2.0.0");
        harmless(ctx, &m, &[b.clone(), b])
    });
    // appearance of a feature
    let mut all = Vec::new();
    for m in [json!([]), json!([{"name": ""}]), json!([{"name": "m", "diffuseColor": [2.0, -1.0, 1e300], "transparency": -7.5}])] {
        for x in [json!([]), json!([{"type": "PNG", "image": ""}])] {
            for v in [json!([]), json!([[0.0, 5.0], [-1e300, 1.0]])] {
                for d in [json!(null), json!(""), json!("none")] {
                    let mut a = json!({"materials": m, "textures": x, "vertices-texture": v});
                    if !d.is_null() {
                        a["default-theme-texture"] = d.clone();
                        a["default-theme-material"] = d.clone();
                    }
                    all.push(a);
                }
            }
        }
    }
    blocks(ctx, "appearance", &all, |ctx, a| {
        let mut g = sound("MultiSurface");
        g["material"] = json!({"none": {"value": 5}});
        g["texture"] = json!({"x": {"values": [[[9, 8, 7, 6]], [[null]]]}});
        let mut b = bad_feature(json!({"o": object_with(g)}));
        b["appearance"] = a.clone();
        ctx.state(&b.to_string());
        harmless(ctx, &base_meta(), &[b])
    });
    // metadata: transforms, templates of every nesting, references
    let scales = [json!(0.0), json!(-0.0), json!(1e308), json!(-1e308), json!(5e-324), json!(1.0)];
    let mut all = Vec::new();
    for s in &scales {
        for t in &scales {
            for one_axis in [false, true] {
                let mut m = base_meta();
                m["transform"]["scale"][0] = s.clone();
                m["transform"]["translate"][0] = t.clone();
                if !one_axis {
                    m["transform"]["scale"] = json!([s, s, s]);
                    m["transform"]["translate"] = json!([t, t, t]);
                }
                all.push(m);
            }
        }
    }
    for t in TYPES {
        for b in nestings(6, &[json!(1)]) {
            let mut m = base_meta();
            m["geometry-templates"] = json!({"templates": [{"type": t, "lod": "1", "boundaries": b}], "vertices-templates": [[0.0, 0.0, 0.0]]});
            all.push(m);
        }
        let mut m = base_meta();
        let mut g = sound(t);
        g["semantics"] = json!({"surfaces": [], "values": [7]});
        g["material"] = json!({"t": {"values": [7]}, "u": {}});
        g["texture"] = json!({"t": {"values": [7]}});
        m["geometry-templates"] = json!({"templates": [g], "vertices-templates": []});
        all.push(m);
    }
    for (k, v) in [
        ("referenceSystem", json!("")),
        ("referenceSystem", json!("EPSG:7415")),
        ("referenceSystem", json!("https://www.opengis.net/def/crs/EPSG/0/x")),
        ("referenceSystem", json!("https://www.opengis.net/def/crs/EPSG/-1/99999999999")),
        ("referenceSystem", json!("////////")),
        ("geographicalExtent", json!([3, 2, 1, 0, -1, -2])),
        ("referenceDate", json!("yesterday")),
        ("pointOfContact", json!({"contactName": "", "emailAddress": ""})),
        ("pointOfContact", json!({"contactName": "c", "emailAddress": "e", "address": {}})),
        ("pointOfContact", json!({"contactName": "c", "emailAddress": "e", "address": {"thoroughfareNumber": -1}})),
        ("identifier", json!("")),
        ("title", json!("\u{0}")),
    ] {
        let mut m = base_meta();
        m["metadata"] = json!({});
        m["metadata"][k] = v;
        all.push(m);
    }
    for v in ["", "1.0", "9.9.9.9", "two"] {
        let mut m = base_meta();
        m["version"] = json!(v);
        all.push(m);
    }
    blocks(ctx, "metadata", &all, |ctx, m| {
        ctx.state(&m.to_string());
        harmless(ctx, m, &[])
    });
    // twins: two features or objects of one name
    let twin: Vec<usize> = (0..4).collect();
    blocks(ctx, "twins", &twin, |ctx, k| {
        let mut objects = Map::new();
        objects.insert("good0".into(), json!({"type": "Building", "attributes": {"n": 50 + k}}));
        if k % 2 == 1 {
            objects.insert("good1".into(), json!({"type": "Bridge"}));
        }
        let b = bad_feature(Value::Object(objects));
        ctx.state(&b.to_string());
        harmless(ctx, &base_meta(), if *k < 2 { std::slice::from_ref(&b) } else { &[] })?;
        harmless(ctx, &base_meta(), &[b.clone(), b])
    });
}

pub const P29: Prop = Prop {
    id: "P29",
    level: "model_checking",
    run: run_illformed,
    case_secs: 60,
    required_outcomes: &["refused", "not decoded", "same", "not parsed", "tool: written", "tool: refused"],
    assumptions: &["an ill-formed feature that is accepted may be read back in another form or not at all"],
    bounds: |t| match t {
        Tier::Quick => json!({"nestings": "boundaries of up to 6 nodes under 8 types, values of up to 5 nodes under 7 types", "instances": 630, "numbers": "pairs of 7 in 5 places", "metadata": "72 transforms, templates of up to 5 nodes"}),
        Tier::Thorough => json!({"nestings": "boundaries of up to 7 nodes under 8 types, values of up to 6 nodes under 7 types", "instances": 630, "numbers": "pairs of 7 in 5 places", "metadata": "72 transforms, templates of up to 5 nodes"}),
    },
};
