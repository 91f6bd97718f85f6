//! P01 boundaries, P02 semantics, P03 appearance: what a geometry carries survives
//! a write and a read.

use super::Prop;
use crate::core::*;
use crate::data::*;
use crate::shapes::*;
use serde_json::{json, Value};

/// (type, list levels above the vertex index)
pub const TYPES: [(&str, usize); 7] = [
    ("MultiPoint", 1),
    ("MultiLineString", 2),
    ("MultiSurface", 3),
    ("CompositeSurface", 3),
    ("Solid", 4),
    ("MultiSolid", 5),
    ("CompositeSolid", 5),
];

/// Boundaries of `levels` list levels whose rings have the given sizes; vertex
/// indices count up from `first`.
pub fn boundaries(levels: usize, rings: &[usize], seps: &[usize], first: &mut u64) -> Value {
    let leaves: Vec<Value> = rings
        .iter()
        .map(|n| {
            Value::Array(
                (0..*n)
                    .map(|_| {
                        *first += 1;
                        json!(*first - 1)
                    })
                    .collect(),
            )
        })
        .collect();
    if levels == 1 {
        return leaves[0].clone();
    }
    nest(levels - 1, &leaves, seps)
}

pub fn vertices(n: u64) -> Value {
    Value::Array((0..n).map(|i| json!([i, 2 * i, 3 * i])).collect())
}

pub fn object_feature(id: &str, object: Value, nvert: u64) -> Value {
    let mut m = serde_json::Map::new();
    m.insert(id.to_string(), object);
    feature(id, Value::Object(m), vertices(nvert))
}

/// Writes one feature and compares it with what each local reader delivers.
pub fn round_trip(ctx: &mut Ctx, meta: &Value, f: &Value) -> Result<(), String> {
    let bytes = write_fcb(meta, std::slice::from_ref(f), &Opts::plain(false))?;
    ctx.state(&bytes);
    let got = read_seq(bytes.as_slice(), &Sel::All)?;
    ctx.trans(2);
    if got.feats.len() != 1 {
        return Err(format!("1 feature written, {} read", got.feats.len()));
    }
    same_feature(f, &got.feats[0])?;
    ctx.trace();
    Ok(())
}

fn geom(t: &str, b: Value, lod: Option<&str>) -> Value {
    let mut g = json!({"type": t, "boundaries": b});
    if let Some(l) = lod {
        g["lod"] = json!(l);
    }
    g
}

fn check(ctx: &mut Ctx, id: impl FnOnce() -> String, geoms: impl FnOnce(&mut u64) -> Vec<Value>) {
    ctx.case(id, |ctx| {
        let mut n = 0;
        let gs = geoms(&mut n);
        let f = object_feature("f", json!({"type": "Building", "geometry": gs}), n);
        ctx.outcome(gs.first().map_or("none", |g| g["type"].as_str().unwrap()));
        round_trip(ctx, &base_meta(), &f)
    });
}

fn run(ctx: &mut Ctx) {
    let rmax = ctx.t(6, 8);
    let size_rmax = ctx.t(4, 5);
    for (t, levels) in TYPES {
        if levels == 1 {
            for n in 1..=ctx.t(20, 300) {
                check(ctx, || format!("{t}:size{n}"), |v| {
                    vec![geom(t, boundaries(1, &[n], &[], v), Some("1"))]
                });
            }
            continue;
        }
        for r in 1..=rmax {
            shapes(r, levels - 1, |s| {
                let sizes: Vec<usize> = (0..r).map(|i| 3 + i % 3).collect();
                check(ctx, || format!("{t}:shape{s:?}"), |v| {
                    vec![geom(t, boundaries(levels, &sizes, s, v), Some("2.2"))]
                });
            });
        }
        // every assignment of small ring sizes
        for r in 1..=size_rmax {
            shapes(r, levels - 1, |s| {
                odometer(r, 3, |w| {
                    let sizes: Vec<usize> = w.iter().map(|x| x + 1).collect();
                    check(ctx, || format!("{t}:shape{s:?}:sizes{sizes:?}"), |v| {
                        vec![geom(t, boundaries(levels, &sizes, s, v), None)]
                    });
                });
            });
        }
    }
    // every ordered tuple of small geometries in one object: type and lod
    let small: Vec<(&str, usize, Vec<usize>)> = TYPES
        .iter()
        .flat_map(|(t, l)| {
            let mut v = vec![(*t, *l, vec![])];
            for s in 1..*l {
                v.push((*t, *l, vec![s]));
            }
            v
        })
        .collect();
    let lods = [None, Some("0"), Some("1.3"), Some("x")];
    for k in 1..=ctx.t(2, 3) {
        odometer(k, small.len(), |w| {
            odometer(k, if k == 3 { 1 } else { lods.len() }, |lw| {
                check(ctx, || format!("tuple{w:?}:lods{lw:?}"), |v| {
                    w.iter()
                        .zip(lw)
                        .map(|(i, l)| {
                            let (t, levels, s) = &small[*i];
                            let sizes = vec![2; s.len() + 1];
                            geom(t, boundaries(*levels, &sizes, s, v), lods[*l])
                        })
                        .collect()
                });
            });
        });
    }
    // every level of detail a document may name, alone and next to another
    let mut lods: Vec<String> = (0..4).flat_map(|a| (0..4).map(move |b| format!("{a}.{b}"))).collect();
    lods.extend(["", "0", "1", "2", "3", "4", "2.25", "01", "1.", ".5", " 1", "1 ", "-1", "1e0", "lod2", "LoD2.2", "\u{e9}", "\u{1f3e0}", "a\u{0}b", "null"].map(String::from));
    lods.extend([127, 128, 255, 256, 300, 65536].map(|n| "7".repeat(n)));
    for (i, a) in lods.iter().enumerate() {
        for b in lods.iter().take(ctx.t(1, lods.len())).map(|b| Some(b.as_str())).chain([None, Some(a.as_str())]) {
            check(ctx, || format!("lod{i}:{}", b.map_or("none", |b| &b[..b.len().min(8)])), |v| {
                vec![geom("MultiPoint", boundaries(1, &[2], &[], v), Some(a)), geom("MultiSurface", boundaries(3, &[3, 3], &[2], v), b)]
            });
        }
    }
    // every nesting with empty lists at any level
    for (t, levels) in TYPES {
        for (k, (tree, _)) in trees(levels, ctx.t(8, 10), 1).into_iter().enumerate() {
            check(ctx, || format!("{t}:empties{k}:{tree:?}"), |v| {
                let b = tree.fill(&mut |n| Value::Array((0..n).map(|_| { *v += 1; json!(*v - 1) }).collect()));
                vec![geom(t, b, Some("1")), geom("MultiPoint", json!([]), None)]
            });
        }
    }
    // counts around the limits of 8 and 16 bits, at every level
    for (t, levels) in TYPES {
        for n in [127usize, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70000] {
            for at in 1..=levels {
                check(ctx, || format!("{t}:count{n}:level{at}"), |v| {
                    *v = 4;
                    let mut b = if at == 1 { json!((0..n).map(|i| i % 4).collect::<Vec<_>>()) } else { json!([0, 1, 2]) };
                    for l in 2..=levels {
                        b = if l == at { Value::Array(vec![b; n]) } else { json!([b]) };
                    }
                    vec![geom(t, b, Some("1"))]
                });
            }
        }
    }
    for n in [255, 256, 257, 1000, 65537] {
        check(ctx, || format!("geometries{n}"), |v| {
            *v = 3;
            (0..n).map(|i| geom("MultiPoint", json!([i % 3]), Some(["1", "2"][i % 2]))).collect()
        });
    }
    // shared and repeated vertex indices, largest index values
    let idx = [0u64, 1, 2, 65535, 65536, 4294967294];
    odometer(ctx.t(3, 4), idx.len(), |w| {
        check(ctx, || format!("indices{w:?}"), |v| {
            *v = 3;
            let ring: Vec<u64> = w.iter().map(|i| idx[*i]).collect();
            vec![geom("MultiSurface", json!([[ring]]), Some("1")), geom("MultiPoint", json!(ring), None)]
        });
    });
}

pub const P01: Prop = Prop {
    id: "P01",
    level: "model_checking",
    run,
    case_secs: 30,
    required_outcomes: &[
        "MultiPoint", "MultiLineString", "MultiSurface", "CompositeSurface", "Solid",
        "MultiSolid", "CompositeSolid",
    ],
    assumptions: &[
        "shape and ring-size effects show within the enumerated number of rings",
        "cjseq's serialisation is the reference for what a CityJSON document says",
    ],
    bounds: |t| match t {
        Tier::Quick => json!({"rings": 6, "rings_with_all_sizes_1_to_3": 4, "geometries_per_object": 2}),
        Tier::Thorough => json!({"rings": 8, "rings_with_all_sizes_1_to_3": 5, "geometries_per_object": 3}),
    },
};

/// Nested per-surface values: `surf` values, list levels above them.
fn values(levels: usize, vals: &[Value], seps: &[usize]) -> Value {
    nest(levels, vals, seps)
}

/// One ring of three vertices per surface for surface-based types.
fn surface_boundaries(t: &str, n: usize, seps: &[usize], v: &mut u64) -> Value {
    match t {
        "MultiPoint" => boundaries(1, &[n], &[], v),
        "MultiLineString" => boundaries(2, &vec![2; n], &vec![1; n - 1], v),
        _ => {
            let levels = TYPES.iter().find(|x| x.0 == t).unwrap().1;
            // surfaces are one level above rings: every separator closes at least one list
            let s: Vec<usize> = seps.iter().map(|x| x + 1).collect();
            boundaries(levels, &vec![3; n], &s, v)
        }
    }
}

/// List levels of per-surface values and of the separators between surfaces.
fn value_levels(t: &str) -> usize {
    match t {
        "Solid" => 2,
        "MultiSolid" | "CompositeSolid" => 3,
        _ => 1,
    }
}

pub const SURFACES: [&str; 18] = [
    "RoofSurface", "GroundSurface", "WallSurface", "ClosureSurface", "OuterCeilingSurface",
    "OuterFloorSurface", "Window", "Door", "InteriorWallSurface", "CeilingSurface", "FloorSurface",
    "WaterSurface", "WaterGroundSurface", "WaterClosureSurface", "TrafficArea",
    "AuxiliaryTrafficArea", "TransportationMarking", "TransportationHole",
];

fn run_semantics(ctx: &mut Ctx) {
    let smax = ctx.t(4, 5);
    for (t, _) in TYPES {
        let lv = value_levels(t);
        for n in 1..=smax {
            shapes(n, lv, |seps| {
                odometer(n, 3, |w| {
                    ctx.case(|| format!("{t}:surfaces{seps:?}:values{w:?}"), |ctx| {
                        ctx.outcome(t);
                        let mut v = 0;
                        let b = surface_boundaries(t, n, seps, &mut v);
                        let vals: Vec<Value> =
                            w.iter().map(|x| if *x == 0 { Value::Null } else { json!(x - 1) }).collect();
                        let mut g = geom(t, b, Some("2"));
                        g["semantics"] = json!({
                            "surfaces": [{"type": "RoofSurface"}, {"type": "WallSurface", "slope": 3}],
                            "values": values(lv, &vals, seps)});
                        let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
                        round_trip(ctx, &base_meta(), &f)
                    });
                });
            });
        }
    }
    // nestings with empty lists, a value for each part
    for (t, levels) in TYPES {
        let lv = value_levels(t);
        for (k, (tree, _)) in trees(levels, ctx.t(8, 10), 1).into_iter().enumerate() {
            for none in [false, true] {
                ctx.case(|| format!("{t}:empties{k}:{tree:?}:none={none}"), |ctx| {
                    ctx.outcome("empties");
                    let (mut v, mut n) = (0, 0);
                    let b = tree.fill(&mut |n| Value::Array((0..n).map(|_| { v += 1; json!(v - 1) }).collect()));
                    let vals = if levels == 1 {
                        json!((0..v).map(|i| i % 2).collect::<Vec<_>>())
                    } else {
                        tree.upper(lv, &mut || {
                            n += 1;
                            if none && n % 2 == 0 { Value::Null } else { json!(n % 2) }
                        })
                    };
                    let mut g = geom(t, b, Some("2"));
                    g["semantics"] = json!({"surfaces": [{"type": "RoofSurface"}, {"type": "Door"}], "values": vals});
                    let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
                    round_trip(ctx, &base_meta(), &f)
                });
            }
        }
    }
    // numbers of surfaces and of definitions around the limits of 8 and 16 bits
    for n in [255usize, 256, 257, 65535, 65536, 65537] {
        for t in ["MultiSurface", "Solid", "MultiSolid"] {
            for defs in [2, n] {
                ctx.case(|| format!("{t}:count{n}:definitions{defs}"), |ctx| {
                    ctx.outcome("counts");
                    let mut b = Value::Array(vec![json!([[0, 1, 2]]); n]);
                    let mut vals = json!((0..n).map(|i| (i * 7) % defs).collect::<Vec<_>>());
                    for _ in 1..value_levels(t) {
                        b = json!([b]);
                        vals = json!([vals]);
                    }
                    let surfaces: Vec<Value> = (0..defs).map(|i| json!({"type": SURFACES[i % 18]})).collect();
                    let mut g = geom(t, b, Some("2"));
                    g["semantics"] = json!({"surfaces": surfaces, "values": vals});
                    let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), 3);
                    round_trip(ctx, &base_meta(), &f)
                });
            }
        }
    }
    // every pair of semantic surface definitions
    let mut defs: Vec<Value> = Vec::new();
    let types: Vec<&str> = SURFACES.iter().copied().chain(["+ThermalSurface", "+x"]).collect();
    for t in &types {
        defs.push(json!({"type": t}));
    }
    for parent in [None, Some(0), Some(1), Some(4294967295u32)] {
        for children in [None, Some(vec![]), Some(vec![1u32]), Some(vec![1, 0])] {
            for attrs in 0..4 {
                let mut d = json!({"type": "Door"});
                if let Some(p) = parent {
                    d["parent"] = json!(p);
                }
                if let Some(c) = &children {
                    d["children"] = json!(c);
                }
                if attrs & 1 == 1 {
                    d["slope"] = json!(1.5);
                }
                if attrs & 2 == 2 {
                    d["name"] = json!("n\u{e9}");
                    d["ok"] = json!(true);
                }
                defs.push(d);
            }
        }
    }
    odometer(ctx.t(2, 2), defs.len(), |w| {
        ctx.case(|| format!("definitions{w:?}"), |ctx| {
            ctx.outcome("definitions");
            let mut v = 0;
            let b = surface_boundaries("MultiSurface", 2, &[1], &mut v);
            let mut g = geom("MultiSurface", b, Some("2"));
            let surfaces: Vec<Value> = w.iter().map(|i| defs[*i].clone()).collect();
            g["semantics"] = json!({"surfaces": surfaces, "values": [0, 1]});
            let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
            round_trip(ctx, &base_meta(), &f)
        });
    });
    // long lists of children, far parents, many attributes, long strings
    for n in [127usize, 128, 255, 256, 257, 65535, 65536, 65537] {
        for what in 0..4 {
            if what >= 2 && n > 60_000 && ctx.quick() && n != 65536 {
                continue;
            }
            ctx.case(|| format!("long:{what}:{n}"), |ctx| {
                ctx.outcome("long");
                let mut v = 0;
                let b = surface_boundaries("MultiSurface", 2, &[1], &mut v);
                let mut g = geom("MultiSurface", b, Some("2"));
                let first = match what {
                    0 => json!({"type": "WallSurface", "children": (0..n).map(|i| (i * 7 + 1) % (n + 3)).collect::<Vec<_>>()}),
                    1 => json!({"type": "Door", "parent": n, "children": [n, n + 1, n - 1]}),
                    2 => {
                        let mut m = serde_json::Map::new();
                        for i in 0..n.min(5000) {
                            m.insert(format!("a{i}"), json!(i));
                        }
                        m.insert("type".into(), json!("RoofSurface"));
                        Value::Object(m)
                    }
                    _ => json!({"type": format!("+{}", "T".repeat(n)), "s": "\u{e9}".repeat(n)}),
                };
                g["semantics"] = json!({"surfaces": [first, {"type": "Window", "parent": 0, "s": "x"}], "values": [0, 1]});
                let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
                round_trip(ctx, &base_meta(), &f)
            });
        }
    }
    // several geometries and objects of one feature, each with its own semantics or none
    let k = ctx.t(3, 4);
    odometer(k, 4, |w| {
        for objects in [1, 2] {
            ctx.case(|| format!("per-geometry{w:?}:objects{objects}"), |ctx| {
                ctx.outcome("per-geometry");
                let mut v = 0;
                let gs: Vec<Value> = w
                    .iter()
                    .enumerate()
                    .map(|(i, c)| {
                        let t = if i % 2 == 0 { "MultiSurface" } else { "Solid" };
                        let b = surface_boundaries(t, 2, &[1], &mut v);
                        let mut g = geom(t, b, Some("2"));
                        if *c > 0 {
                            let vals = vec![json!(0), if *c == 3 { Value::Null } else { json!(1) }];
                            g["semantics"] = json!({
                                "surfaces": [{"type": SURFACES[i], "k": i}, {"type": SURFACES[i + c]}],
                                "values": values(value_levels(t), &vals, &[1])});
                        }
                        g
                    })
                    .collect();
                let f = if objects == 1 {
                    object_feature("f", json!({"type": "Building", "geometry": gs}), v)
                } else {
                    let (a, b) = gs.split_at(1);
                    feature("f", json!({"f": {"type": "Building", "geometry": a},
                        "g": {"type": "BuildingPart", "geometry": b, "parents": ["f"]}}), vertices(v))
                };
                round_trip(ctx, &base_meta(), &f)
            });
        }
    });
}

pub const P02: Prop = Prop {
    id: "P02",
    level: "model_checking",
    run: run_semantics,
    case_secs: 30,
    required_outcomes: &[
        "MultiPoint", "MultiLineString", "MultiSurface", "Solid", "MultiSolid", "CompositeSolid",
        "definitions", "per-geometry", "empties", "counts", "long",
    ],
    assumptions: &[
        "semantic surface types are the 18 standard ones or start with + (as CityJSON requires)",
        "semantic attributes are declared in the schema, as the command line tool does from the data",
    ],
    bounds: |t| match t {
        Tier::Quick => json!({"surfaces": 4, "value_choices": 3, "definitions_per_geometry": 2, "geometries": 3, "long_lists": "up to 65537"}),
        Tier::Thorough => json!({"surfaces": 5, "value_choices": 3, "definitions_per_geometry": 2, "geometries": 4, "long_lists": "up to 65537"}),
    },
};

fn run_appearance(ctx: &mut Ctx) {
    let smax = ctx.t(4, 5);
    for (t, _) in TYPES {
        if t == "MultiPoint" || t == "MultiLineString" {
            continue;
        }
        let lv = value_levels(t);
        for n in 1..=smax {
            shapes(n, lv, |seps| {
                odometer(n, 3, |w| {
                    ctx.case(|| format!("material:{t}:surfaces{seps:?}:values{w:?}"), |ctx| {
                        ctx.outcome(&format!("material:{t}"));
                        let mut v = 0;
                        let mut g = geom(t, surface_boundaries(t, n, seps, &mut v), Some("2"));
                        let vals: Vec<Value> =
                            w.iter().map(|x| if *x == 0 { Value::Null } else { json!(x - 1) }).collect();
                        g["material"] = json!({"th": {"values": values(lv, &vals, seps)}});
                        let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
                        round_trip(ctx, &base_meta(), &f)
                    });
                });
            });
        }
    }
    // textures: every shape of rings, every ring untextured or with either texture
    let rmax = ctx.t(4, 5);
    for (t, levels) in TYPES {
        if levels < 3 {
            continue;
        }
        for r in 1..=rmax {
            shapes(r, levels - 1, |seps| {
                odometer(r, 3, |w| {
                    ctx.case(|| format!("texture:{t}:rings{seps:?}:values{w:?}"), |ctx| {
                        ctx.outcome(&format!("texture:{t}"));
                        let mut v = 0;
                        let mut g = geom(t, boundaries(levels, &vec![3; r], seps, &mut v), None);
                        let leaves: Vec<Value> = w
                            .iter()
                            .enumerate()
                            .map(|(i, x)| match x {
                                0 => json!([null]),
                                1 => json!([0, 3 * i, 3 * i + 1, 3 * i + 2]),
                                _ => json!([1, i, null, 7]),
                            })
                            .collect();
                        g["texture"] = json!({"th": {"values": nest(levels - 1, &leaves, seps)}});
                        let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
                        round_trip(ctx, &base_meta(), &f)
                    });
                });
            });
        }
    }
    // numbers of surfaces and of rings around the limits of 8 and 16 bits
    for n in [255usize, 256, 257, 65535, 65536, 65537] {
        for t in ["MultiSurface", "Solid", "MultiSolid"] {
            for big in 0..3 {
                ctx.case(|| format!("{t}:count{n}:{big}"), |ctx| {
                    ctx.outcome("counts");
                    let (surfaces, rings, len) = [(n, 1, 3), (2, n, 3), (1, 1, n)][big];
                    let ring = |k: usize| (0..len).map(|i| (i + k) % 5).collect::<Vec<_>>();
                    let mut b = Value::Array(vec![Value::Array((0..rings).map(|k| json!(ring(k))).collect()); surfaces]);
                    let mut m = json!((0..surfaces).map(|i| if i % 3 == 0 { None } else { Some(i) }).collect::<Vec<_>>());
                    let leaf = |k: usize| {
                        let mut l = vec![json!(k)];
                        l.extend(ring(k).into_iter().map(|i| json!(i + k)));
                        if k % 4 == 3 { json!([null]) } else { Value::Array(l) }
                    };
                    let mut x = Value::Array(
                        (0..surfaces).map(|i| Value::Array((0..rings).map(|k| leaf(i * rings + k)).collect())).collect(),
                    );
                    for _ in 1..value_levels(t) {
                        b = json!([b]);
                        m = json!([m]);
                        x = json!([x]);
                    }
                    let mut g = geom(t, b, Some("2"));
                    g["material"] = json!({"th": {"values": m}});
                    g["texture"] = json!({"th": {"values": x}});
                    let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), 5);
                    round_trip(ctx, &base_meta(), &f)
                });
            }
        }
    }
    // several geometries, objects and features, each with any of semantics, materials and
    // textures of its own
    let kinds: Vec<(&str, usize)> = [("MultiSurface", 3), ("Solid", 4), ("MultiSolid", 5), ("CompositeSurface", 3), ("CompositeSolid", 5)]
        .into_iter()
        .collect();
    let choices = kinds.len() * 8;
    let dressed = |c: usize, k: usize, v: &mut u64| {
        let (t, levels) = kinds[c / 8];
        let lv = value_levels(t);
        let seps = [1usize, lv];
        let rings: Vec<usize> = seps.iter().map(|x| x + 1).collect();
        let first = *v;
        let mut g = geom(t, surface_boundaries(t, 3, &seps, v), Some(["0", "1.2", "2"][k % 3]));
        if c & 1 == 1 {
            g["semantics"] = json!({
                "surfaces": [{"type": SURFACES[k % 18]}, {"type": SURFACES[(k + 5) % 18], "parent": 0}],
                "values": values(lv, &[json!(k % 2), Value::Null, json!(1)], &seps)});
        }
        if c & 2 == 2 {
            let vals = values(lv, &[Value::Null, json!(k), json!(k + 1)], &seps);
            g["material"] = json!({"m": {"values": vals}, format!("m{k}"): {"value": k}});
        }
        if c & 4 == 4 {
            let leaves = [json!([k, first, first + 1, first + 2]), json!([null]), json!([k + 1, 2, 1, 0])];
            g["texture"] = json!({"t": {"values": nest(levels - 1, &leaves, &rings)}});
        }
        g
    };
    for n in 2..=3usize {
        // three geometries: the quick tier leaves the composite types to the pairs
        let top = if n == 3 { ctx.t(16, 24) } else { choices };
        odometer(n, top, |w| {
            let split = w.iter().sum::<usize>() % 3;
            ctx.case(|| format!("dressed:{w:?}:{split}"), |ctx| {
                ctx.outcome("dressed");
                let mut v = 0;
                let gs: Vec<Value> = w.iter().enumerate().map(|(k, c)| dressed(*c, k, &mut v)).collect();
                let own = |k: usize| json!({"materials": [{"name": format!("x{k}")}], "default-theme-material": format!("d{k}")});
                let mut fs = match split {
                    0 => vec![object_feature("f", json!({"type": "Building", "geometry": gs}), v)],
                    1 => vec![feature("f", json!({"f": {"type": "Building", "geometry": gs[..1]},
                        "g": {"type": "BuildingPart", "geometry": gs[1..], "parents": ["f"]}}), vertices(v))],
                    _ => gs
                        .iter()
                        .enumerate()
                        .map(|(k, g)| object_feature(&format!("f{k}"), json!({"type": "Building", "geometry": [g]}), v))
                        .collect(),
                };
                // a definition of its own for some of the features
                for (k, f) in fs.iter_mut().enumerate() {
                    if w[k] % 3 == 0 {
                        f["appearance"] = own(k);
                    }
                }
                let bytes = write_fcb(&base_meta(), &fs, &Opts::plain(false))?;
                ctx.state(&bytes);
                let got = read_seq(bytes.as_slice(), &Sel::All)?;
                ctx.trans(fs.len() as u64 + 1);
                ctx.trace();
                if got.feats.len() != fs.len() {
                    return Err(format!("{} features written, {} read", fs.len(), got.feats.len()));
                }
                fs.iter().zip(&got.feats).try_for_each(|(f, g)| same_feature(f, g))
            });
        });
    }
    // long lists of definitions and themes, far indices, long names
    for n in [127usize, 128, 255, 256, 257, 65535, 65536, 65537] {
        for what in 0..6 {
            if n == 65535 && what == 3 && ctx.quick() {
                continue;
            }
            ctx.case(|| format!("long:{what}:{n}"), |ctx| {
                ctx.outcome("long");
                let mut v = 0;
                let mut g = geom("MultiSurface", surface_boundaries("MultiSurface", 2, &[1], &mut v), None);
                let mut a = json!({});
                let name = |k: usize| format!("{k}{}", "n".repeat(k % 3));
                match what {
                    0 => a["materials"] = (0..n).map(|k| json!({"name": name(k), "shininess": (k % 8) as f64 / 8.0})).collect(),
                    1 => a["textures"] = (0..n).map(|k| json!({"type": (["PNG", "JPG"][k % 2]), "image": name(k)})).collect(),
                    2 => a["vertices-texture"] = (0..n).map(|k| json!([k as f64 / 1024.0, 1.0 - k as f64])).collect(),
                    3 => {
                        let m: serde_json::Map<_, _> = (0..n.min(3000)).map(|k| (name(k), json!({"value": k}))).collect();
                        g["material"] = Value::Object(m);
                        let t: serde_json::Map<_, _> =
                            (0..n.min(3000)).map(|k| (name(k), json!({"values": [[[k, 0, 1, 2]], [[null]]]}))).collect();
                        g["texture"] = Value::Object(t);
                    }
                    4 => {
                        g["material"] = json!({"a": {"value": n}, "b": {"values": [n, null]}, "c": {"values": [n - 1, n + 1]}});
                        g["texture"] = json!({"a": {"values": [[[n, n + 1, n - 1, 0]], [[0, n, n, n]]]}});
                    }
                    _ => {
                        let long = "\u{e9}".repeat(n);
                        a = json!({"materials": [{"name": long}], "textures": [{"type": "PNG", "image": long}],
                            "default-theme-texture": long, "default-theme-material": long});
                        g["material"] = json!({long: {"value": 0}});
                    }
                }
                let mut f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
                if what != 3 && what != 4 {
                    f["appearance"] = a;
                }
                round_trip(ctx, &base_meta(), &f)
            });
        }
    }
    // every set of themes on one geometry: absent, value, values for each of three names
    odometer(3, 4, |m| {
        odometer(ctx.t(2, 3), 3, |tx| {
            for t in ["MultiSurface", "Solid", "MultiSolid"] {
                ctx.case(|| format!("themes:{t}:m{m:?}:t{tx:?}"), |ctx| {
                    ctx.outcome("themes");
                    let names = ["a", "theme", "\u{fc} b"];
                    let mut v = 0;
                    let seps = [1usize, value_levels(t)];
                    let mut g = geom(t, surface_boundaries(t, 3, &seps, &mut v), Some("2"));
                    let mut mats = serde_json::Map::new();
                    for (i, c) in m.iter().enumerate() {
                        let x = match c {
                            1 => json!({"value": i}),
                            2 => json!({"values": values(value_levels(t), &[json!(i), json!(null), json!(2)], &seps)}),
                            3 => json!({"value": 0}),
                            _ => continue,
                        };
                        mats.insert(names[i].into(), x);
                    }
                    if !mats.is_empty() {
                        g["material"] = Value::Object(mats);
                    }
                    let rs: Vec<usize> = seps.iter().map(|x| x + 1).collect();
                    let levels = TYPES.iter().find(|x| x.0 == t).unwrap().1;
                    let mut texs = serde_json::Map::new();
                    for (i, c) in tx.iter().enumerate() {
                        let leaf = match c {
                            1 => json!([i, 0, 1, 2]),
                            2 => json!([null]),
                            _ => continue,
                        };
                        texs.insert(
                            names[i].into(),
                            json!({"values": nest(levels - 1, &[leaf.clone(), json!([null]), leaf], &rs)}),
                        );
                    }
                    if !texs.is_empty() {
                        g["texture"] = Value::Object(texs);
                    }
                    let f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
                    round_trip(ctx, &base_meta(), &f)
                });
            }
        });
    });
    // definitions: every subset of the optional members of a material and of a texture
    let mopt = [
        ("ambientIntensity", json!(0.25)),
        ("diffuseColor", json!([0.1, 0.2, 0.3])),
        ("emissiveColor", json!([0.4, 0.5, 0.6])),
        ("specularColor", json!([0.7, 0.8, 0.9])),
        ("shininess", json!(0.0)),
        ("transparency", json!(1.0)),
        ("isSmooth", json!(false)),
    ];
    let appearance_case = |ctx: &mut Ctx, id: String, a: Value| {
        ctx.case(|| id, |ctx| {
            ctx.outcome("definitions");
            let mut v = 0;
            let g = geom("MultiSurface", surface_boundaries("MultiSurface", 1, &[], &mut v), None);
            let mut f = object_feature("f", json!({"type": "Building", "geometry": [g]}), v);
            f["appearance"] = a;
            round_trip(ctx, &base_meta(), &f)
        });
    };
    for set in 0..128u32 {
        let mut m = json!({"name": format!("m{set}")});
        for (i, (k, v)) in mopt.iter().enumerate() {
            if set >> i & 1 == 1 {
                m[*k] = v.clone();
            }
        }
        let mut inv = json!({"name": ""});
        for (i, (k, v)) in mopt.iter().enumerate() {
            if set >> i & 1 == 0 {
                inv[*k] = v.clone();
            }
        }
        appearance_case(ctx, format!("material-def:{set}"), json!({"materials": [m, inv]}));
    }
    for fmt in ["PNG", "JPG"] {
        for wrap in [None, Some("none"), Some("wrap"), Some("mirror"), Some("clamp"), Some("border")] {
            for ty in [None, Some("unknown"), Some("specific"), Some("typical")] {
                for border in [false, true] {
                    let mut x = json!({"type": fmt, "image": "a/b.png"});
                    if let Some(w) = wrap {
                        x["wrapMode"] = json!(w);
                    }
                    if let Some(t) = ty {
                        x["textureType"] = json!(t);
                    }
                    if border {
                        x["borderColor"] = json!([0.0, 0.25, 0.5, 1.0]);
                    }
                    let id = format!("texture-def:{x}");
                    appearance_case(ctx, id, json!({"textures": [{"type": "JPG", "image": "first"}, x]}));
                }
            }
        }
    }
    for set in 0..32u32 {
        let opt = [
            ("materials", json!([{"name": "m"}, {"name": "n", "isSmooth": true}])),
            ("textures", json!([{"type": "PNG", "image": "i"}])),
            ("vertices-texture", json!([[0.0, 1.0], [0.5, 0.25], [1e-9, -3.5]])),
            ("default-theme-texture", json!("dt")),
            ("default-theme-material", json!("dm")),
        ];
        for empty in [false, true] {
            let mut a = json!({});
            for (i, (k, v)) in opt.iter().enumerate() {
                if set >> i & 1 == 1 {
                    a[*k] = if empty && v.is_array() { json!([]) } else { v.clone() };
                }
            }
            appearance_case(ctx, format!("members:{set}:empty={empty}"), a);
        }
    }
}

pub const P03: Prop = Prop {
    id: "P03",
    level: "model_checking",
    run: run_appearance,
    case_secs: 30,
    required_outcomes: &[
        "material:MultiSurface", "material:Solid", "material:MultiSolid", "texture:MultiSurface",
        "texture:CompositeSolid", "themes", "definitions", "counts", "dressed", "long",
    ],
    assumptions: &["the values of a theme mirror the boundaries, as CityJSON requires"],
    bounds: |t| match t {
        Tier::Quick => json!({"surfaces": 4, "rings": 4, "choices_per_surface_or_ring": 3, "themes": 3, "dressed_geometries": "all pairs of 5 types x 8 sets of members, triples of 2 x 8", "long_lists": "up to 65537"}),
        Tier::Thorough => json!({"surfaces": 5, "rings": 5, "choices_per_surface_or_ring": 3, "themes": 3, "dressed_geometries": "all pairs of 5 types x 8 sets of members, triples of 3 x 8", "long_lists": "up to 65537"}),
    },
};
