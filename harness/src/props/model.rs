//! P04 attributes, P05 city objects, P06 header metadata survive a write and a read.

use super::geometry::{boundaries, object_feature, vertices, SURFACES, TYPES};
use super::Prop;
use crate::core::*;
use crate::data::*;
use crate::shapes::*;
use fcb_core::attribute::AttributeSchema;
use fcb_core::header_generated::ColumnType;
use fcb_core::city_buffer::FcbBuffer;
use fcb_core::FcbReader;
use serde_json::{json, Map, Value};
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};

/// Writes the features and compares everything the local readers deliver.
fn all_back(ctx: &mut Ctx, meta: &Value, feats: &[Value], o: &Opts) -> Result<(), String> {
    let bytes = write_fcb(meta, feats, o)?;
    ctx.state(&bytes);
    let got = read_seq(bytes.as_slice(), &Sel::All)?;
    if got.feats.len() != feats.len() {
        return Err(format!("{} features written, {} read", feats.len(), got.feats.len()));
    }
    for f in feats {
        let id = f["id"].as_str().unwrap();
        let mut hits = got.feats.iter().filter(|g| g["id"] == id);
        let g = hits.next().ok_or_else(|| format!("feature {id} missing"))?;
        same_feature(f, g).map_err(|e| format!("feature {id} {e}"))?;
        if hits.next().is_some() {
            return Err(format!("feature {id} delivered twice"));
        }
        ctx.trans(1);
    }
    ctx.trace();
    Ok(())
}

pub fn value_universe() -> Vec<Value> {
    vec![
        json!(null),
        json!(true),
        json!(0),
        json!(1),
        json!(-1),
        json!(2147483648u64),
        json!(-2147483649i64),
        json!(9007199254740993u64),
        json!(i64::MIN),
        json!(i64::MAX),
        json!(u64::MAX),
        json!(0.5),
        json!(1e300),
        json!(5e-324),
        json!(""),
        json!("a"),
        json!("\u{e9}\n\"\\\u{1F600}"),
        json!("2020-01-01T00:00:00Z"),
        json!("1965-01-01T00:00:00.123+02:00"),
        json!("2020-01-01"),
        json!([]),
        json!([1, "a", null]),
        json!({}),
        json!({"x": {"y": null}}),
        json!(false),
    ]
}

fn with_attrs(id: &str, attrs: Option<Value>) -> Value {
    let mut o = json!({"type": "Building"});
    if let Some(a) = attrs {
        o["attributes"] = a;
    }
    object_feature(id, o, 1)
}

fn fitting(t: ColumnType) -> Vec<Value> {
    match t {
        ColumnType::Byte => vec![json!(0), json!(1), json!(-1), json!(127), json!(-128)],
        ColumnType::UByte => vec![json!(0), json!(1), json!(128), json!(255)],
        ColumnType::Bool => vec![json!(false), json!(true)],
        ColumnType::Short => vec![json!(0), json!(-1), json!(i16::MIN), json!(i16::MAX)],
        ColumnType::UShort => vec![json!(0), json!(256), json!(u16::MAX)],
        ColumnType::Int => vec![json!(0), json!(-1), json!(i32::MIN), json!(i32::MAX)],
        ColumnType::UInt => vec![json!(0), json!(65536), json!(u32::MAX)],
        ColumnType::Long => vec![json!(0), json!(-1), json!(i64::MIN), json!(i64::MAX)],
        ColumnType::ULong => vec![json!(0), json!(u64::MAX), json!(1u64 << 63)],
        ColumnType::Float => vec![json!(0.0), json!(-0.5), json!(f64::from(1.5e30f32)), json!(3)],
        ColumnType::Double => vec![json!(0.0), json!(0.1), json!(-1e-300), json!(7)],
        ColumnType::String => vec![json!(""), json!("x"), json!("\u{4e2d}\u{1F600}")],
        ColumnType::Json => value_universe().into_iter().filter(|v| !v.is_null()).collect(),
        ColumnType::DateTime => vec![json!("2020-01-01T00:00:00Z"), json!("1900-02-28T23:59:59.999-05:30")],
        _ => vec![json!(""), json!("AQID")],
    }
}

pub const COLUMN_TYPES: [ColumnType; 15] = [
    ColumnType::Byte,
    ColumnType::UByte,
    ColumnType::Bool,
    ColumnType::Short,
    ColumnType::UShort,
    ColumnType::Int,
    ColumnType::UInt,
    ColumnType::Long,
    ColumnType::ULong,
    ColumnType::Float,
    ColumnType::Double,
    ColumnType::String,
    ColumnType::Json,
    ColumnType::DateTime,
    ColumnType::Binary,
];

fn run_attributes(ctx: &mut Ctx) {
    let v = value_universe();
    let absent = v.len();
    // every sequence of values of one attribute over consecutive features, the
    // schema being derived from the data
    for k in 1..=3 {
        odometer(k, absent + 1, |w| {
            ctx.case(|| format!("values{w:?}"), |ctx| {
                ctx.outcome("values");
                let feats: Vec<Value> = w
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let mut a = Map::new();
                        if *x != absent {
                            a.insert("a".into(), v[*x].clone());
                        }
                        a.insert("n".into(), json!(i));
                        with_attrs(&format!("f{i}"), Some(Value::Object(a)))
                    })
                    .collect();
                all_back(ctx, &base_meta(), &feats, &Opts::plain(false))
            });
        });
    }
    // a schema that does not come from the data: every column type, every value
    let types: Vec<Option<ColumnType>> = COLUMN_TYPES.iter().map(|t| Some(*t)).chain([None]).collect();
    for (ti, t) in types.iter().enumerate() {
        for (vi, val) in v.iter().enumerate() {
            for mode in 0..3 {
                ctx.case(|| format!("foreign-schema:t{ti}:v{vi}:m{mode}"), |ctx| {
                    ctx.outcome("foreign-schema");
                    let mut schema = AttributeSchema::new();
                    if let Some(t) = t {
                        schema.insert("a".into(), (0, *t));
                    }
                    if mode == 1 {
                        schema.insert("b".into(), (schema.len() as u16, ColumnType::String));
                    }
                    let a = match mode {
                        0 => json!({"a": val}),
                        1 => json!({"a": val, "b": "x"}),
                        _ => json!({"a": val, "unknown": [1]}),
                    };
                    // a Float column keeps what an f32 can hold
                    let mut f = with_attrs("f", Some(a));
                    if *t == Some(ColumnType::Float) && val.is_number() && mode != 2 {
                        let x = val.as_f64().unwrap() as f32;
                        if !x.is_finite() || f64::from(x) != val.as_f64().unwrap() || !val.is_f64() {
                            f["CityObjects"]["f"]["attributes"]["a"] = json!(0.25);
                        }
                    }
                    let o = Opts { schema: Some(schema), ..Opts::plain(false) };
                    all_back(ctx, &base_meta(), &[f], &o)
                });
            }
        }
    }
    // fitting values of every column type, in pairs of columns
    for (ti, t) in COLUMN_TYPES.iter().enumerate() {
        for (ui, u) in COLUMN_TYPES.iter().enumerate() {
            ctx.case(|| format!("columns:t{ti}:u{ui}"), |ctx| {
                ctx.outcome("columns");
                let mut schema = AttributeSchema::new();
                schema.insert("a".into(), (0, *t));
                schema.insert("b".into(), (1, *u));
                let mut feats = Vec::new();
                for x in fitting(*t) {
                    for y in fitting(*u) {
                        let id = format!("f{}", feats.len());
                        feats.push(with_attrs(&id, Some(json!({"a": x, "b": y}))));
                    }
                }
                let o = Opts { schema: Some(schema), ..Opts::plain(false) };
                all_back(ctx, &base_meta(), &feats, &o)
            });
        }
    }
    // which of the columns are in the schema (or none given), which each of two
    // objects has, and whether a value is null
    let cols = ctx.t(3, 4);
    odometer(cols, 2, |in_schema| {
        odometer(cols, 3, |first| {
            odometer(cols, 3, |second| {
                for no_schema in [false, true] {
                    if no_schema && in_schema.iter().any(|x| *x == 1) {
                        continue;
                    }
                    ctx.case(|| format!("subset:s{in_schema:?}:a{first:?}:b{second:?}:no_schema={no_schema}"), |ctx| {
                        ctx.outcome("subset");
                        let vals = [json!("s"), json!(7), json!(true), json!([1])];
                        let ty = [ColumnType::String, ColumnType::ULong, ColumnType::Bool, ColumnType::Json];
                        let mut schema = AttributeSchema::new();
                        for i in 0..cols {
                            if in_schema[i] == 1 {
                                schema.insert(format!("c{i}"), (schema.len() as u16, ty[i]));
                            }
                        }
                        let mk = |p: &[usize]| {
                            let mut m = Map::new();
                            for i in 0..cols {
                                if p[i] > 0 {
                                    let x = if p[i] == 2 { Value::Null } else { vals[i].clone() };
                                    m.insert(format!("c{i}"), x);
                                }
                            }
                            Value::Object(m)
                        };
                        let f = feature("f", json!({
                            "p": {"type": "Building", "attributes": mk(first)},
                            "q": {"type": "BuildingPart", "attributes": mk(second)},
                            "r": {"type": "BuildingPart"}}), vertices(1));
                        let o = Opts { schema: Some(schema), no_schema, ..Opts::plain(false) };
                        all_back(ctx, &base_meta(), &[f], &o)
                    });
                }
            });
        });
    });
    // number of columns and odd names
    for n in ctx.t(vec![0usize, 1, 2, 255, 256, 257, 300], vec![0, 1, 2, 255, 256, 257, 300, 1000, 5000]) {
        for own in [false, true] {
            ctx.case(|| format!("many:{n}:own={own}"), |ctx| {
                ctx.outcome("many");
                let names = ["", "\u{e9} \u{1F600}", "a.b", "\"q\"", "type", "geometry"];
                let mut a = Map::new();
                for i in 0..n {
                    let name = names.get(i).map_or(format!("col{i}"), |s| s.to_string());
                    a.insert(name, if i % 3 == 0 { json!(i) } else { json!(format!("v{i}")) });
                }
                let f = with_attrs("f", Some(Value::Object(a)));
                let schema = own.then(AttributeSchema::new);
                all_back(ctx, &base_meta(), &[f], &Opts { schema, ..Opts::plain(false) })
            });
        }
    }
    // long values and names between others, of every type that has a length
    for n in [126usize, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537] {
        for what in 0..8 {
            for at in 0..3 {
                ctx.case(|| format!("long:{what}:{n}:{at}"), |ctx| {
                    ctx.outcome("long");
                    let x = match what {
                        0 => json!("x".repeat(n)),
                        1 => json!("\u{e9}".repeat(n / 2)),
                        2 => json!(["y".repeat(n - 4)]),
                        3 => json!((0..n).map(|i| i % 10).collect::<Vec<_>>()),
                        4 => json!({"k".repeat(n): 1}),
                        5 => (0..100).fold(json!(n), |v, i| if i % 2 == 0 { json!([v]) } else { json!({"d": v}) }),
                        // one value too many for the column types
                        6 => json!(1),
                        _ => json!("2020-01-01T00:00:00Z"),
                    };
                    let mut feats = Vec::new();
                    for k in 0..3 {
                        let mut a = Map::new();
                        a.insert("first".into(), json!(k));
                        if what == 6 {
                            a.insert("n".repeat(n), json!(k));
                        }
                        if k == at {
                            a.insert("long".into(), x.clone());
                        } else if what != 5 {
                            a.insert("long".into(), if x.is_string() { json!("s") } else { json!([k]) });
                        }
                        a.insert("z".into(), json!(format!("z{k}")));
                        feats.push(with_attrs(&format!("f{k}"), Some(Value::Object(a))));
                    }
                    all_back(ctx, &base_meta(), &feats, &Opts::plain(false))
                });
            }
        }
    }
    // values of semantic surface attributes
    for k in 1..=2 {
        odometer(k, absent + 1, |w| {
            ctx.case(|| format!("semantic-values{w:?}"), |ctx| {
                ctx.outcome("semantic-values");
                let feats: Vec<Value> = w
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let mut s = json!({"type": "RoofSurface", "n": i});
                        if *x != absent {
                            s["a"] = v[*x].clone();
                        }
                        object_feature(&format!("f{i}"), json!({"type": "Building", "geometry": [
                            {"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2]]],
                             "semantics": {"surfaces": [s], "values": [0]}}]}), 3)
                    })
                    .collect();
                let r = all_back(ctx, &base_meta(), &feats, &Opts::plain(false));
                // the column type is derived from both values; an integer that a
                // double cannot represent meets another kind of number
                let exact = |x: &Value| match x.as_i64() {
                    Some(i) => i.unsigned_abs() <= 1 << 53,
                    None => x.as_f64().is_none() || x.is_f64(),
                };
                let vals: Vec<&Value> = w.iter().filter(|x| **x != absent).map(|x| &v[*x]).collect();
                if k == 2 && vals.len() == 2 && vals.iter().all(|x| x.is_number()) && !exact(vals[0]) {
                    let other = vals[1].is_f64() || vals[1].as_i64().is_some_and(|i| i < 0);
                    return r.map_err(|e| if other { format!("integer beyond 2^53 in a widened semantic column: {e}") } else { e });
                }
                r
            });
        });
    }
    // one name for an attribute of an object and of its semantic surface
    odometer(2, absent, |w| {
        for index in [false, true] {
            ctx.case(|| format!("both{w:?}:{index}"), |ctx| {
                ctx.outcome("both");
                let mk = |id: &str, x: &Value, y: &Value| {
                    let mut f = object_feature(id, json!({"type": "Building", "attributes": {"a": x, "o": 1}, "geometry": [
                        {"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2]]],
                         "semantics": {"surfaces": [{"type": "RoofSurface", "a": y, "s": "t"}], "values": [0]}}]}), 3);
                    if !index {
                        f["CityObjects"][id]["attributes"]["s"] = json!(false);
                    }
                    f
                };
                let fs = [mk("f", &v[w[0]], &v[w[1]]), mk("g", &v[w[0]], &v[w[1]])];
                all_back(ctx, &base_meta(), &fs, &Opts::plain(index))
            });
        }
    });
    // semantic attributes under a schema that does not come from the data
    for (ti, t) in types.iter().enumerate() {
        for (vi, val) in v.iter().enumerate() {
            for given in [true, false] {
                if !given && t.is_some() {
                    continue;
                }
                ctx.case(|| format!("semantic-foreign:t{ti}:v{vi}:given={given}"), |ctx| {
                    let mut schema = AttributeSchema::new();
                    if let Some(t) = t {
                        schema.insert("a".into(), (0, *t));
                    }
                    let fits = val.is_null() || t.is_some_and(|t| holds_value(t, val));
                    ctx.outcome(if fits { "semantic-foreign-fits" } else { "semantic-foreign-misfit" });
                    let f = object_feature("f", json!({"type": "Building", "geometry": [
                        {"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2]]],
                         "semantics": {"surfaces": [{"type": "RoofSurface", "a": val}], "values": [0]}}]}), 3);
                    let o = Opts { sem_schema: Some(given.then_some(schema)), ..Opts::plain(false) };
                    guarded(|| all_back(ctx, &base_meta(), &[f], &o)).and_then(|r| r).map_err(|e| {
                        if fits { e } else { format!("semantic attribute outside its declared column: {e}") }
                    })
                });
            }
        }
    }
}

/// Whether a column of the type can represent the value exactly.
fn holds_value(t: ColumnType, v: &Value) -> bool {
    let int = v.as_i64().map(i128::from).or_else(|| v.as_u64().map(i128::from));
    let within = |lo: i128, hi: i128| int.is_some_and(|i| lo <= i && i <= hi);
    match t {
        ColumnType::Byte => within(-128, 127),
        ColumnType::UByte => within(0, 255),
        ColumnType::Short => within(-32768, 32767),
        ColumnType::UShort => within(0, 65535),
        ColumnType::Int => within(i32::MIN.into(), i32::MAX.into()),
        ColumnType::UInt => within(0, u32::MAX.into()),
        ColumnType::Long => within(i64::MIN.into(), i64::MAX.into()),
        ColumnType::ULong => within(0, u64::MAX.into()),
        ColumnType::Bool => v.is_boolean(),
        ColumnType::Float => v.as_f64().is_some_and(|x| v.is_f64() && f64::from(x as f32) == x),
        ColumnType::Double => v.is_f64() || within(-(1 << 53), 1 << 53),
        ColumnType::Json => true,
        _ => v.is_string(),
    }
}

pub const P04: Prop = Prop {
    id: "P04",
    level: "model_checking",
    run: run_attributes,
    case_secs: 60,
    required_outcomes: &["values", "foreign-schema", "columns", "subset", "many", "long", "both", "semantic-values", "semantic-foreign-fits"],
    assumptions: &[
        "a null attribute may be left out",
        "a column declared as 32-bit float is given values that such a float can hold",
    ],
    bounds: |t| match t {
        Tier::Quick => json!({"values": 25, "features": 3, "columns": 3, "max_columns": 300, "long_values": "8 kinds up to 65537"}),
        Tier::Thorough => json!({"values": 25, "features": 3, "columns": 4, "max_columns": 5000, "long_values": "8 kinds up to 65537"}),
    },
};

pub const OBJECT_TYPES: [&str; 33] = [
    "Bridge", "BridgePart", "BridgeInstallation", "BridgeConstructiveElement", "BridgeRoom",
    "BridgeFurniture", "Building", "BuildingPart", "BuildingInstallation",
    "BuildingConstructiveElement", "BuildingFurniture", "BuildingStorey", "BuildingRoom",
    "BuildingUnit", "CityFurniture", "CityObjectGroup", "GenericCityObject", "LandUse",
    "OtherConstruction", "PlantCover", "SolitaryVegetationObject", "TINRelief", "Road", "Railway",
    "Waterway", "TransportSquare", "Tunnel", "TunnelPart", "TunnelInstallation",
    "TunnelConstructiveElement", "TunnelHollowSpace", "TunnelFurniture", "WaterBody",
];

fn matrix(seed: f64) -> Vec<f64> {
    (0..16).map(|i| seed + f64::from(i) * 0.25).collect()
}

fn run_objects(ctx: &mut Ctx) {
    let types: Vec<&str> = OBJECT_TYPES
        .iter()
        .copied()
        .chain(["+NoiseBuilding", "+", "+\u{e9}"])
        .collect();
    odometer(2, types.len(), |w| {
        ctx.case(|| format!("types:{}:{}", types[w[0]], types[w[1]]), |ctx| {
            ctx.outcome("types");
            let f = feature("a", json!({"a": {"type": types[w[0]]}, "b": {"type": types[w[1]]}}), vertices(0));
            all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
        });
    });
    let long = "x".repeat(5000);
    let ids = ["a", "", "NL.IMBAG.Pand.0503100000000010-0", "\u{e9}\u{1F600} \"q\" \n", long.as_str()];
    odometer(3, ids.len(), |w| {
        ctx.case(|| format!("ids{w:?}"), |ctx| {
            ctx.outcome("ids");
            let mut m = Map::new();
            m.insert(ids[w[1]].into(), json!({"type": "Building", "children": [ids[w[2]]]}));
            m.insert(ids[w[2]].into(), json!({"type": "BuildingPart", "parents": [ids[w[1]]]}));
            let f = feature(ids[w[0]], Value::Object(m), vertices(2));
            all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
        });
    });
    // every assignment of children, parents and roles: absent or any list over two names
    let lists = [
        None,
        Some(json!([])),
        Some(json!(["x"])),
        Some(json!(["y"])),
        Some(json!(["x", "y"])),
        Some(json!(["y", "x"])),
        Some(json!(["x", "x"])),
    ];
    let members = ["children", "parents", "children_roles"];
    odometer(3, lists.len(), |w| {
        odometer(ctx.t(1, 2), lists.len(), |u| {
            ctx.case(|| format!("hierarchy{w:?}:{u:?}"), |ctx| {
                ctx.outcome("hierarchy");
                let mut a = json!({"type": "CityObjectGroup"});
                let mut b = json!({"type": "Building"});
                for i in 0..3 {
                    if let Some(l) = &lists[w[i]] {
                        a[members[i]] = l.clone();
                    }
                    if let Some(l) = u.get(i).and_then(|k| lists[*k].as_ref()) {
                        b[members[i]] = l.clone();
                    }
                }
                let f = feature("a", json!({"a": a, "x": b, "y": {"type": "Road"}}), vertices(1));
                all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
            });
        });
    });
    // extents
    let e = [-1e9, 0.0, 0.1, 12345.678901234567];
    odometer(6, ctx.t(3, 4), |w| {
        ctx.case(|| format!("extent{w:?}"), |ctx| {
            ctx.outcome("extent");
            let x: Vec<f64> = w.iter().map(|i| e[*i]).collect();
            let f = feature("a", json!({"a": {"type": "Building", "geographicalExtent": x},
                "b": {"type": "Building"}}), vertices(1));
            all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
        });
    });
    // ordinary geometries and instances in every order
    let mut meta = base_meta();
    meta["geometry-templates"] = json!({
        "templates": [
            {"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2]]]},
            {"type": "MultiSurface", "lod": "2", "boundaries": [[[2, 1, 0]]]}],
        "vertices-templates": [[0.0, 0.5, 1.0], [1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]});
    for k in 0..=ctx.t(4, 5) {
        odometer(k, 4, |w| {
            for templates in [true, false] {
                ctx.case(|| format!("instances{w:?}:templates={templates}"), |ctx| {
                    ctx.outcome("instances");
                    let gs: Vec<Value> = w
                        .iter()
                        .enumerate()
                        .map(|(i, c)| match c {
                            0 => json!({"type": "MultiPoint", "lod": "1", "boundaries": [i]}),
                            1 => json!({"type": "MultiSurface", "lod": format!("{i}"), "boundaries": [[[i, 0, 1]]]}),
                            c => json!({"type": "GeometryInstance", "template": c - 2, "boundaries": [i],
                                "transformationMatrix": matrix(i as f64)}),
                        })
                        .collect();
                    let f = object_feature("a", json!({"type": "Building", "geometry": gs}), 6);
                    let m = if templates { meta.clone() } else { base_meta() };
                    all_back(ctx, &m, &[f], &Opts::plain(false))
                });
            }
        });
    }
    // vertices
    let c = [0, 1, -1, i32::MIN as i64, i32::MAX as i64];
    odometer(3, c.len(), |w| {
        odometer(ctx.t(1, 3), c.len(), |u| {
            ctx.case(|| format!("vertices{w:?}:{u:?}"), |ctx| {
                ctx.outcome("vertices");
                let mut vs = vec![[c[w[0]], c[w[1]], c[w[2]]]];
                vs.extend(u.iter().map(|i| [c[*i], c[w[0]], 7]));
                let mut f = object_feature("a", json!({"type": "Building"}), 0);
                f["vertices"] = json!(vs);
                all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
            });
        });
    });
    for n in [0u64, 1, 2, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 70000] {
        ctx.case(|| format!("vertex-count:{n}"), |ctx| {
            ctx.outcome("vertex-count");
            let f = object_feature("a", json!({"type": "Building"}), n);
            all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
        });
    }
    // what the format cannot hold is refused, not altered
    for (i, big) in [1i64 << 31, -(1i64 << 31) - 1, i64::MAX, i64::MIN].iter().enumerate() {
        for axis in 0..3 {
            ctx.case(|| format!("out-of-range:{i}:{axis}"), |ctx| {
                ctx.outcome("out-of-range");
                let mut v = [1i64, 2, 3];
                v[axis] = *big;
                let mut f = object_feature("a", json!({"type": "Building"}), 0);
                f["vertices"] = json!([[0, 0, 0], v]);
                match write_fcb(&base_meta(), &[f], &Opts::plain(false)) {
                    Err(_) => Ok(()),
                    Ok(_) => Err("a vertex outside the range of the format was accepted".into()),
                }
            });
        }
    }
    // number of objects
    for n in ctx.t(vec![0usize, 1, 2, 50, 255, 256, 257], vec![0, 1, 2, 3, 10, 100, 1000, 65537]) {
        ctx.case(|| format!("object-count:{n}"), |ctx| {
            ctx.outcome("object-count");
            let mut m = Map::new();
            for i in 0..n {
                let (t, lv) = TYPES[i % TYPES.len()];
                let mut v = 0;
                let b = if lv == 1 {
                    boundaries(1, &[i % 900 + 1], &[], &mut v)
                } else {
                    boundaries(lv, &[3, 4], &[1 + i % (lv - 1)], &mut v)
                };
                m.insert(format!("o{i}"), json!({
                    "type": OBJECT_TYPES[i % OBJECT_TYPES.len()],
                    "attributes": {"i": i},
                    "geometry": [{"type": t, "lod": format!("{i}"), "boundaries": b}]}));
            }
            let f = feature("o0", Value::Object(m), vertices(1000));
            all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
        });
    }
    // long lists of relatives, far templates and reference points, any matrix
    for n in [127usize, 128, 255, 256, 257, 65535, 65536, 65537] {
        for what in 0..6 {
            ctx.case(|| format!("long:{what}:{n}"), |ctx| {
                ctx.outcome("long");
                let list = |k: usize| (0..k).map(|i| format!("n{}", (i * 7) % (k + 1))).collect::<Vec<_>>();
                let mut a = json!({"type": "CityObjectGroup"});
                let mut b = json!({"type": "Building"});
                match what {
                    0 => a["children"] = json!(list(n)),
                    1 => a["parents"] = json!(list(n)),
                    2 => {
                        a["children"] = json!(list(n));
                        a["children_roles"] = json!(list(n));
                        b["children"] = json!(["a"]);
                    }
                    3 => {
                        let g = |k: usize, m: f64| json!({"type": "GeometryInstance", "template": k, "boundaries": [n + 2 - k % 3],
                            "transformationMatrix": matrix(m)});
                        a["geometry"] = json!([g(n, 1.0), g(n - 1, -1e300), g(0, 1e-300)]);
                    }
                    4 => {
                        a["geometry"] = (0..n.min(2000))
                            .map(|k| json!({"type": "GeometryInstance", "template": k % 300, "boundaries": [k],
                                "transformationMatrix": matrix(k as f64)}))
                            .collect();
                    }
                    _ => {
                        a["type"] = json!(format!("+{}", "\u{e9}".repeat(n)));
                        b["children"] = json!(["x".repeat(n), ""]);
                        b["children_roles"] = json!(["", "y".repeat(n)]);
                    }
                }
                let fs = [
                    feature("a", json!({"a": a, "b": b}), vertices(2)),
                    feature("c", json!({"c": {"type": "Road"}, "d": {"type": "Building", "parents": ["c"]}}), vertices(1)),
                ];
                all_back(ctx, &base_meta(), &fs, &Opts::plain(false))
            });
        }
    }
    // every cell of a transformation
    for cell in 0..16usize {
        for (i, x) in [0.0, -1.0, 0.1, 1e-300, -1e300, 12345.678901234567, f64::MAX, f64::MIN_POSITIVE].into_iter().enumerate() {
            ctx.case(|| format!("matrix:{cell}:{i}"), |ctx| {
                ctx.outcome("instances");
                let mut m = matrix(2.0);
                m[cell] = x;
                let f = object_feature("a", json!({"type": "Building", "geometry": [
                    {"type": "GeometryInstance", "template": 1, "boundaries": [0], "transformationMatrix": m}]}), 1);
                all_back(ctx, &base_meta(), &[f], &Opts::plain(true))
            });
        }
    }
    // several features, each with some of the optional members
    odometer(3, 8, |w| {
        ctx.case(|| format!("neighbours{w:?}"), |ctx| {
            ctx.outcome("neighbours");
            let fs: Vec<Value> = w
                .iter()
                .enumerate()
                .map(|(k, c)| {
                    let mut a = json!({"type": OBJECT_TYPES[k]});
                    if c & 1 == 1 {
                        a["geographicalExtent"] = json!([k, 0.5, 1.0, 2.0, 3.0, 4.0]);
                        a["children_roles"] = json!([format!("r{k}")]);
                    }
                    if c & 2 == 2 {
                        a["children"] = json!([format!("b{k}")]);
                        a["attributes"] = json!({"n": k});
                    }
                    if c & 4 == 4 {
                        a["geometry"] = json!([
                            {"type": "GeometryInstance", "template": k, "boundaries": [0], "transformationMatrix": matrix(k as f64)},
                            {"type": "MultiPoint", "lod": "1", "boundaries": [k]}]);
                    }
                    let a_id = format!("a{k}");
                    let mut objs = Map::new();
                    objs.insert(a_id.clone(), a);
                    objs.insert(format!("b{k}"), json!({"type": "BuildingPart", "parents": [a_id]}));
                    feature(&a_id, Value::Object(objs), vertices(k as u64 + 1))
                })
                .collect();
            all_back(ctx, &base_meta(), &fs, &Opts::plain(false))
        });
    });
    // further members of a city object
    for (name, v) in [
        ("address", json!([{"Country": "NL", "Locality": "Delft"}])),
        ("+extra", json!(1)),
        ("+extra", json!({"a": [1]})),
    ] {
        ctx.case(|| format!("object-member:{name}:{v}"), |ctx| {
            ctx.outcome("object-member");
            let mut f = object_feature("a", json!({"type": "Building"}), 1);
            f["CityObjects"]["a"][name] = v.clone();
            all_back(ctx, &base_meta(), &[f], &Opts::plain(false))
        });
    }
}

pub const P05: Prop = Prop {
    id: "P05",
    level: "model_checking",
    run: run_objects,
    case_secs: 60,
    required_outcomes: &[
        "types", "ids", "hierarchy", "extent", "instances", "vertices", "out-of-range", "object-count",
        "long", "neighbours",
    ],
    assumptions: &[
        "city object types are the CityJSON 2.0 ones or start with +",
        "where instances stand among ordinary geometries carries no meaning",
    ],
    bounds: |t| match t {
        Tier::Quick => json!({"objects": 3, "geometries": 4, "types": 36, "list_choices": 7, "long_lists": "up to 65537", "matrix": "8 values in each of 16 cells", "features": "3 with every set of optional members"}),
        Tier::Thorough => json!({"objects": 3, "geometries": 5, "types": 36, "list_choices": 7, "long_lists": "up to 65537", "matrix": "8 values in each of 16 cells", "features": "3 with every set of optional members"}),
    },
};

/// Header of the written dataset as each reader reports it.
pub fn read_meta(bytes: &Arc<Vec<u8>>, mode: Mode) -> Result<Value, String> {
    let conv = |h: &fcb_core::Header| {
        let cj = fcb_core::deserializer::to_cj_metadata(h).map_err(|e| format!("metadata: {e}"))?;
        serde_json::to_value(&cj).map_err(|e| e.to_string())
    };
    match mode {
        Mode::Seek => {
            let r = FcbReader::open(std::io::Cursor::new(bytes.as_slice())).map_err(|e| format!("open: {e}"))?;
            conv(&r.header())
        }
        Mode::Seq => {
            let r = FcbReader::open(bytes.as_slice()).map_err(|e| format!("open: {e}"))?;
            let it = r.select_all_seq().map_err(|e| format!("select: {e}"))?;
            conv(&it.header())
        }
        Mode::Http => {
            let (web, _) = crate::webmock::Web::new(bytes.clone(), crate::webmock::Fault::None, 0);
            crate::webmock::block_on(async {
                let c = http_range_client::AsyncBufferedHttpRangeClient::with(web, "http://mock/f.fcb");
                let r = fcb_core::HttpFcbReader::new(c).await.map_err(|e| format!("open: {e}"))?;
                let h = r.header();
                conv(&h)
            })
        }
    }
}

/// The metadata up to what carries no information.
pub fn norm_meta(v: &Value) -> Value {
    let mut v = serde_json::to_value(parse_cj(v)).unwrap();
    let m = v.as_object_mut().unwrap();
    if m.get("metadata").is_some_and(|x| x.as_object().is_some_and(|o| o.is_empty())) {
        m.remove("metadata");
    }
    v
}

fn meta_back(ctx: &mut Ctx, meta: &Value, o: &Opts) -> Result<(), String> {
    let nfeat = 1;
    let f = point_feature("f", 1, 2, Value::Null);
    let bytes = Arc::new(write_fcb(meta, &[f], o)?);
    ctx.state(&*bytes);
    let mut want = norm_meta(meta);
    if let Some(e) = o.extent {
        want["metadata"]["geographicalExtent"] = json!(e);
    }
    for mode in MODES {
        let got = read_meta(&bytes, mode)?;
        if let Some(d) = diff(&want, &norm_meta(&got)) {
            return Err(format!("{mode:?}: {d}"));
        }
        ctx.trans(1);
    }
    let got = read_seq(bytes.as_slice(), &Sel::All)?;
    if got.feats.len() != nfeat {
        return Err("the feature is gone".into());
    }
    ctx.trace();
    Ok(())
}

/// The extension schema at an address of the server: /name/version
pub fn extension_doc(url: &str) -> Value {
    let mut parts = url.splitn(4, '/').nth(3).unwrap_or("").split('/');
    let name = parts.next().unwrap_or("");
    let version = parts.next().unwrap_or("");
    json!({
        "type": "CityJSONExtension", "name": name, "description": "d", "url": url, "version": version,
        "versionCityJSON": "2.0", "extraAttributes": {"Building": {"+a": {"type": "number"}}},
        "extraCityObjects": {"+N": {"allOf": []}}, "extraRootProperties": {"+r": {"type": "string"}},
        "extraSemanticSurfaces": {"+S": {"type": "object"}}})
}

/// Serves CityJSON extension schemas on the loopback interface.
fn extension_server() -> u16 {
    static PORT: OnceLock<u16> = OnceLock::new();
    *PORT.get_or_init(|| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let mut s = s;
                    let mut req = Vec::new();
                    let mut buf = [0u8; 1024];
                    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                        match s.read(&mut buf) {
                            Ok(0) | Err(_) => return,
                            Ok(n) => req.extend_from_slice(&buf[..n]),
                        }
                    }
                    let line = String::from_utf8_lossy(&req);
                    let path = line.split(' ').nth(1).unwrap_or("/").to_string();
                    let body = extension_doc(&format!("http://127.0.0.1:{port}{path}")).to_string();
                    let _ = s.write_all(
                        format!("HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n{body}", body.len())
                            .as_bytes(),
                    );
                });
            }
        });
        port
    })
}

/// Columns a and b (bit 0 and 1: asked to be indexed, given a value) and c, in a file of two features.
fn summary_back(ctx: &mut Ctx, types: [ColumnType; 2], indexed: u8, numbers: [u16; 3], given: u8) -> Result<(), String> {
    let mut schema = AttributeSchema::new();
    let mut o = Opts::plain(true);
    let mut attrs = Map::new();
    let mut want = vec![json!([numbers[2], "c", "String", false])];
    schema.insert("c".into(), (numbers[2], ColumnType::String));
    for (i, name) in ["a", "b"].iter().enumerate() {
        schema.insert(name.to_string(), (numbers[i], types[i]));
        if indexed >> i & 1 == 1 {
            o = o.attr(name, None);
        }
        if given >> i & 1 == 1 {
            let v = fitting(types[i]).into_iter().find(|v| !v.is_null()).unwrap();
            attrs.insert(name.to_string(), v);
        }
        let can = !matches!(types[i], ColumnType::Json | ColumnType::Binary);
        want.push(json!([numbers[i], name, format!("{:?}", types[i]), (indexed & given) >> i & 1 == 1 && can]));
    }
    want.sort_by_key(|c| c[0].as_u64());
    o.schema = Some(schema);
    let feats = [with_attrs("f", Some(Value::Object(attrs))), with_attrs("g", None)];
    let bytes = write_fcb(&base_meta(), &feats, &o)?;
    ctx.state(&bytes);
    let len = u32::from_le_bytes(bytes[8..12].try_into().unwrap()) as usize;
    let b = FcbBuffer { header_buf: bytes[8..12 + len].to_vec(), features_buf: vec![] };
    let told = b.meta().map_err(|e| e.to_string())?;
    let mut got: Vec<Value> = told
        .columns
        .iter()
        .map(|c| json!([c.index, c.name, format!("{:?}", c._type), c.attr_index]))
        .collect();
    got.sort_by_key(|c| c[0].as_u64());
    ctx.trans(3);
    ctx.trace();
    if told.feature_count != 2 || got != want {
        return Err(format!("summary of {} features: {got:?}, expected {want:?}", told.feature_count));
    }
    Ok(())
}

fn run_metadata(ctx: &mut Ctx) {
    let poc_full = json!({
        "contactName": "C \u{e9}", "contactType": "organization", "role": "author", "phone": "+1",
        "emailAddress": "a@b", "website": "https://w",
        "address": {"thoroughfareNumber": 12, "thoroughfareName": "St", "locality": "L",
                    "postalCode": "1234AB", "country": "NL"}});
    let members = [
        ("geographicalExtent", json!([1.5, -2.0, 0.0, 84757.1, 446701.0, 17.25])),
        ("identifier", json!("id-1")),
        ("pointOfContact", poc_full.clone()),
        ("referenceDate", json!("2024-02-29")),
        ("referenceSystem", json!("https://www.opengis.net/def/crs/EPSG/0/7415")),
        ("title", json!("T \u{1F600}")),
    ];
    let templates = json!({
        "templates": [
            {"type": "Solid", "lod": "1", "boundaries": [[[[0, 1, 2]], [[2, 1, 0]]]],
             "semantics": {"surfaces": [{"type": "RoofSurface"}], "values": [[0, null]]},
             "material": {"t": {"values": [[0, null]]}}},
            {"type": "MultiSolid", "lod": "2.2", "boundaries": [[[[[0, 1, 2]]]]]}],
        "vertices-templates": [[0.0, 0.5, 1.0], [1e-3, 2.0, -3.0], [4.0, 5.0, 6.0]]});
    let appearance = json!({
        "materials": [{"name": "m", "isSmooth": true}],
        "textures": [{"type": "PNG", "image": "i.png"}],
        "vertices-texture": [[0.0, 0.5]],
        "default-theme-texture": "t", "default-theme-material": "m"});
    let options = [
        Opts::plain(false),
        Opts::plain(true),
        Opts { extent: Some([0.0, 0.0, 0.0, 9.0, 9.0, 9.0]), ..Opts::plain(true) },
    ];
    // every subset of the optional members, with and without a metadata object
    for set in 0..256u32 {
        for (oi, o) in options.iter().enumerate() {
            for has_metadata in [true, false] {
                if !has_metadata && set & 63 != 0 {
                    continue;
                }
                ctx.case(|| format!("members:{set}:o{oi}:metadata={has_metadata}"), |ctx| {
                    ctx.outcome("members");
                    let mut m = base_meta();
                    if has_metadata {
                        m["metadata"] = json!({});
                    }
                    for (i, (k, v)) in members.iter().enumerate() {
                        if set >> i & 1 == 1 {
                            m["metadata"][*k] = v.clone();
                        }
                    }
                    if set >> 6 & 1 == 1 {
                        m["geometry-templates"] = templates.clone();
                    }
                    if set >> 7 & 1 == 1 {
                        m["appearance"] = appearance.clone();
                    }
                    meta_back(ctx, &m, o)
                });
            }
        }
    }
    // point of contact: every subset of its optional members
    for set in 0..32u32 {
        ctx.case(|| format!("contact:{set}"), |ctx| {
            ctx.outcome("contact");
            let mut p = poc_full.clone();
            for (i, k) in ["contactType", "role", "phone", "website", "address"].iter().enumerate() {
                if set >> i & 1 == 0 {
                    p.as_object_mut().unwrap().remove(*k);
                }
            }
            let mut m = base_meta();
            m["metadata"] = json!({"pointOfContact": p});
            meta_back(ctx, &m, &Opts::plain(false))
        });
    }
    for n in [0i64, 1, -1, i64::MAX] {
        for empty in [false, true] {
            ctx.case(|| format!("address:{n}:empty={empty}"), |ctx| {
                ctx.outcome("address");
                let s = if empty { "" } else { "x" };
                let mut p = poc_full.clone();
                p["contactName"] = json!(s);
                p["emailAddress"] = json!(s);
                p["address"] = json!({"thoroughfareNumber": n, "thoroughfareName": s, "locality": s,
                    "postalCode": s, "country": s});
                let mut m = base_meta();
                m["metadata"] = json!({"pointOfContact": p, "title": s, "identifier": s, "referenceDate": s});
                meta_back(ctx, &m, &Opts::plain(false))
            });
        }
    }
    // reference systems
    for base in ["https://www.opengis.net/def/crs", "http://www.opengis.net/def/crs"] {
        for auth in ["EPSG", "OGC", ""] {
            for version in ["0", "9", "2147483647", "1.3", "x"] {
                for code in ["7415", "28992", "0", "CRS84", "007", "2147483648"] {
                    ctx.case(|| format!("crs:{base}/{auth}/{version}/{code}"), |ctx| {
                        ctx.outcome("crs");
                        let mut m = base_meta();
                        m["metadata"] = json!({"referenceSystem": format!("{base}/{auth}/{version}/{code}")});
                        let r = meta_back(ctx, &m, &Opts::plain(false));
                        // what is left of a system with another base or a version that is no integer
                        let v = version.parse::<i32>().unwrap_or(0);
                        let kept = format!("got \"https://www.opengis.net/def/crs/{auth}/{v}/{code}\"");
                        r.map_err(|e| if e.ends_with(&kept) { format!("base URL or version not kept: {e}") } else { e })
                    });
                }
            }
        }
    }
    // transform and extent values
    let x = [1.0, 0.001, -0.5, 1e-12, 84616.468];
    odometer(ctx.t(3, 4), x.len(), |w| {
        ctx.case(|| format!("transform{w:?}"), |ctx| {
            ctx.outcome("transform");
            let g = |i: usize| x[w[i % w.len()]];
            let mut m = base_meta();
            m["transform"] = json!({"scale": [g(0), g(1), g(2)], "translate": [g(1), g(2), g(0)]});
            m["metadata"] = json!({"geographicalExtent": [g(0), g(1), g(2), g(2), g(1), g(3)]});
            meta_back(ctx, &m, &Opts::plain(w[0] % 2 == 0))
        });
    });
    for version in ["2.0", "1.1", "2.0.1", ""] {
        ctx.case(|| format!("version:{version}"), |ctx| {
            ctx.outcome("version");
            let mut m = base_meta();
            m["version"] = json!(version);
            meta_back(ctx, &m, &Opts::plain(false))
        });
    }
    // templates: every geometry type, number and semantic surface type
    for (ti, (t, lv)) in TYPES.iter().enumerate() {
        for n in 0..=ctx.t(3, 5) {
            for nv in [0usize, 1, 3] {
                ctx.case(|| format!("templates:{t}:{n}:{nv}"), |ctx| {
                    ctx.outcome("templates");
                    let gs: Vec<Value> = (0..n)
                        .map(|i| {
                            let mut v = 0;
                            let b = if *lv == 1 {
                                boundaries(1, &[i + 1], &[], &mut v)
                            } else {
                                boundaries(*lv, &[3, 3], &[1 + i % (lv - 1)], &mut v)
                            };
                            let mut g = json!({"type": t, "lod": format!("{i}"), "boundaries": b});
                            if *t == "MultiSurface" {
                                let k = if i % 2 == 0 { vec![json!(0)] } else { vec![json!(0), Value::Null] };
                                g["semantics"] = json!({"surfaces": [{"type": SURFACES[ti + i]}], "values": k});
                            }
                            g
                        })
                        .collect();
                    let vs: Vec<Value> = (0..nv).map(|i| json!([i as f64, 0.25, -1.0])).collect();
                    let mut m = base_meta();
                    m["geometry-templates"] = json!({"templates": gs, "vertices-templates": vs});
                    meta_back(ctx, &m, &Opts::plain(false))
                });
            }
        }
    }
    // long lists and strings, far indices
    for n in [127usize, 128, 255, 256, 257, 65535, 65536, 65537] {
        for what in 0..7 {
            ctx.case(|| format!("long:{what}:{n}"), |ctx| {
                ctx.outcome("long");
                let mut m = base_meta();
                let long = "\u{e9}x".repeat(n / 2);
                let name = |k: usize| format!("{k}{}", "n".repeat(k % 3));
                match what {
                    0 => {
                        let gs: Vec<Value> = (0..n)
                            .map(|i| {
                                let (t, lv) = TYPES[i % TYPES.len()];
                                let mut v = 0;
                                let b = if lv == 1 { boundaries(1, &[2], &[], &mut v) } else { boundaries(lv, &[3, 3], &[1 + i % (lv - 1)], &mut v) };
                                json!({"type": t, "lod": format!("{}", i % 5), "boundaries": b})
                            })
                            .collect();
                        m["geometry-templates"] = json!({"templates": gs, "vertices-templates": [[0.0, 0.0, 1.0]]});
                    }
                    1 => {
                        let vs: Vec<Value> = (0..n).map(|i| json!([i as f64 / 8.0, -(i as f64), 1e-9 * i as f64])).collect();
                        let far = n as u64;
                        m["geometry-templates"] = json!({
                            "templates": [{"type": "MultiSurface", "lod": "1", "boundaries": [[[far - 1, 0, far - 2]]]}],
                            "vertices-templates": vs});
                    }
                    2 => m["appearance"] = json!({"materials": (0..n).map(|k| json!({"name": name(k)})).collect::<Vec<_>>()}),
                    3 => m["appearance"] = json!({"textures": (0..n).map(|k| json!({"type": "JPG", "image": name(k)})).collect::<Vec<_>>()}),
                    4 => m["appearance"] = json!({"vertices-texture": (0..n).map(|k| json!([k as f64 / 1024.0, 0.5])).collect::<Vec<_>>()}),
                    5 => {
                        m["version"] = json!(long);
                        m["metadata"] = json!({"title": long, "identifier": long, "referenceDate": long,
                            "referenceSystem": format!("https://www.opengis.net/def/crs/EPSG/0/{}", "7".repeat(n))});
                    }
                    _ => {
                        m["metadata"] = json!({"pointOfContact": {"contactName": long, "emailAddress": long, "phone": long,
                            "website": long, "address": {"thoroughfareNumber": n, "thoroughfareName": long,
                            "locality": long, "postalCode": long, "country": long}}});
                        m["appearance"] = json!({"default-theme-texture": long, "default-theme-material": long});
                    }
                }
                meta_back(ctx, &m, &Opts::plain(n % 2 == 0))
            });
        }
    }
    // a template and an appearance carry what those of features do
    let parts = [
        ("semantics", json!({"surfaces": [{"type": "RoofSurface", "children": [1]}, {"type": "+S", "parent": 0}], "values": [1, null]})),
        ("material", json!({"a": {"values": [null, 3]}, "b": {"value": 2}})),
        ("texture", json!({"t": {"values": [[[1, 2, 3, 4]], [[null]]]}})),
    ];
    odometer(3, 8, |w| {
        ctx.case(|| format!("dressed-templates{w:?}"), |ctx| {
            ctx.outcome("templates");
            let gs: Vec<Value> = w
                .iter()
                .enumerate()
                .map(|(k, c)| {
                    let mut g = json!({"type": (["MultiSurface", "CompositeSurface"][k % 2]), "lod": format!("{k}.{c}"),
                        "boundaries": [[[0, 1, k]], [[k, 1, 2]]]});
                    for (i, (name, v)) in parts.iter().enumerate() {
                        if c >> i & 1 == 1 {
                            g[*name] = v.clone();
                        }
                    }
                    g
                })
                .collect();
            let mut m = base_meta();
            m["geometry-templates"] = json!({"templates": gs, "vertices-templates": [[0.0, 0.5, 1.0]]});
            meta_back(ctx, &m, &Opts::plain(false))
        });
    });
    // extensions: every set of up to three
    for set in 0..8u32 {
        for metadata in [false, true] {
            ctx.case(|| format!("extensions:{set}:metadata={metadata}"), |ctx| {
                ctx.outcome("extensions");
                let port = extension_server();
                let mut m = base_meta();
                let mut e = Map::new();
                for (i, (n, v)) in [("Noise", "1.0"), ("\u{41}dd", "2.1.0"), ("Z", "x")].iter().enumerate() {
                    if set >> i & 1 == 1 {
                        e.insert(n.to_string(), json!({"url": format!("http://127.0.0.1:{port}/{n}/{v}"), "version": v}));
                    }
                }
                if !e.is_empty() {
                    m["extensions"] = Value::Object(e);
                }
                if metadata {
                    m["metadata"] = json!({"title": "t"});
                }
                meta_back(ctx, &m, &Opts::plain(false))
            });
        }
    }
    // the summary of the columns: names, numbers, types, which can be queried, how many features
    for (ti, t) in COLUMN_TYPES.iter().enumerate() {
        for (ui, u) in COLUMN_TYPES.iter().enumerate() {
            for indexed in 0..4u8 {
                for numbers in [[0u16, 1, 2], [2, 0, 1], [7, 3, 300]] {
                    for given in 0..4u8 {
                        ctx.case(|| format!("summary:t{ti}:u{ui}:i{indexed}:{numbers:?}:g{given}"), |ctx| {
                            ctx.outcome("summary");
                            summary_back(ctx, [*t, *u], indexed, numbers, given)
                        });
                    }
                }
            }
        }
    }
    // further members of the document
    for (k, v) in [("+root", json!({"a": 1})), ("note", json!("n"))] {
        ctx.case(|| format!("root-member:{k}"), |ctx| {
            ctx.outcome("root-member");
            let mut m = base_meta();
            m[k] = v.clone();
            meta_back(ctx, &m, &Opts::plain(false))
        });
    }
}

pub const P06: Prop = Prop {
    id: "P06",
    level: "model_checking",
    run: run_metadata,
    case_secs: 60,
    required_outcomes: &[
        "members", "contact", "crs", "transform", "templates", "extensions", "long", "summary",
    ],
    assumptions: &["an empty metadata object carries no information"],
    bounds: |t| match t {
        Tier::Quick => json!({"optional_members": "all subsets of 8", "transform_values": "5^3", "templates": "3, and 3 with every set of semantics, materials and textures", "extensions": 3, "summaries": "all pairs of 15 column types", "long_lists": "up to 65537"}),
        Tier::Thorough => json!({"optional_members": "all subsets of 8", "transform_values": "5^4", "templates": "5, and 3 with every set of semantics, materials and textures", "extensions": 3, "summaries": "all pairs of 15 column types", "long_lists": "up to 65537"}),
    },
};
