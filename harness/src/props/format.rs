//! P30: files are in the published format, in both directions.
//!
//! While CONFORM is on, `data::write_fcb` compares each file the library writes with the
//! schema-level tree of its input, and hands out in its place a file of the same content
//! that was written here, by another way through the freedom the format leaves. The
//! explorations of the other properties then run on top of it.

use super::dataset::bbox_of;
use super::Prop;
use crate::core::*;
use crate::data::*;
use crate::wire::{decode, encode, norm, schema, Style};
use chrono::{DateTime, Utc};
use fcb_core::attribute::AttributeSchema;
use fcb_core::header_generated::ColumnType;
use fcb_core::{FixedStringKey, KeyType, Operator, SpatialQuery};
use ordered_float::OrderedFloat;
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::sync::Arc;

thread_local! {
    /// None: off. Some(k): on, the style of a file being the hash of its content plus k.
    static CONFORM: Cell<Option<Turn>> = const { Cell::new(None) };
}

#[derive(Clone, Copy)]
enum Turn {
    Rotate(u64),
    Fixed(Style),
}

const NONE: u32 = u32::MAX;

// ---------------------------------------------------------------- what the tree of an input is

fn xyz(v: &Value) -> Value {
    json!({"x": v[0], "y": v[1], "z": v[2]})
}

fn extent(v: &Value) -> Value {
    json!({"min": {"x": v[0], "y": v[1], "z": v[2]}, "max": {"x": v[3], "y": v[4], "z": v[5]}})
}

/// Copies members under their names in the schema.
fn members(from: &Value, to: &mut Map<String, Value>, names: &[(&str, &str)]) {
    for (a, b) in names {
        if let Some(v) = from.get(*a).filter(|v| !v.is_null()) {
            to.insert(b.to_string(), v.clone());
        }
    }
}

fn index(v: &Value) -> Value {
    if v.is_null() {
        json!(NONE)
    } else {
        v.clone()
    }
}

fn is_leaf(a: &[Value]) -> bool {
    a.iter().all(|v| !v.is_array())
}

fn depth(v: &Value) -> Option<usize> {
    let a = v.as_array()?;
    if is_leaf(a) {
        return (!a.is_empty()).then_some(1);
    }
    a.iter().filter_map(depth).max().map(|d| d + 1)
}

/// Nested lists as lists of lengths: of rings, of surfaces, of shells, of solids.
fn flatten(v: &Value, depth: usize, lengths: &mut [Vec<Value>; 4], leaves: &mut Vec<Value>) {
    let a = v.as_array().unwrap();
    if is_leaf(a) {
        leaves.extend(a.iter().map(index));
    } else {
        a.iter().for_each(|x| flatten(x, depth.saturating_sub(1), lengths, leaves));
    }
    if (1..=4).contains(&depth) {
        lengths[depth - 1].push(json!(a.len()));
    }
}

fn lengths_of(v: &Value, depth: usize, leaf: &str, into: &mut Map<String, Value>) {
    let (mut l, mut leaves) = (<[Vec<Value>; 4]>::default(), Vec::new());
    flatten(v, depth, &mut l, &mut leaves);
    for (name, l) in ["strings", "surfaces", "shells", "solids"].iter().zip(l) {
        into.insert(name.to_string(), Value::Array(l));
    }
    into.insert(leaf.into(), Value::Array(leaves));
}

fn leaves(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        _ => out.push(index(v)),
    }
}

fn material_tree(theme: &str, m: &Value) -> Option<Value> {
    let mut t = Map::new();
    t.insert("theme".into(), json!(theme));
    if let Some(v) = m.get("value").filter(|v| !v.is_null()) {
        t.insert("value".into(), v.clone());
        return Some(Value::Object(t));
    }
    let values = m.get("values").and_then(|v| v.as_array())?;
    let (mut solids, mut shells, mut leaves) = (vec![], vec![], vec![]);
    let mut solid = |a: &[Value]| {
        solids.push(json!(a.len()));
        for shell in a.iter().filter_map(|s| s.as_array()) {
            shells.push(json!(shell.len()));
            leaves.extend(shell.iter().map(index));
        }
    };
    if is_leaf(values) {
        leaves.extend(values.iter().map(index));
    } else if values.iter().any(|v| !is_leaf(v.as_array().unwrap())) {
        for s in values.iter().filter_map(|s| s.as_array()).filter(|s| !is_leaf(s)) {
            solid(s);
        }
    } else {
        solid(values);
    }
    t.insert("solids".into(), Value::Array(solids));
    t.insert("shells".into(), Value::Array(shells));
    t.insert("vertices".into(), Value::Array(leaves));
    Some(Value::Object(t))
}

fn by_theme(m: &Value, f: impl Fn(&str, &Value) -> Option<Value>) -> Value {
    let mut themes: Vec<(&String, &Value)> = m.as_object().unwrap().iter().collect();
    themes.sort_by_key(|t| t.0);
    Value::Array(themes.into_iter().filter_map(|(t, v)| f(t, v)).collect())
}

/// An enumeration's name, or that of everything else with the type as it stands.
fn named(t: &str, all: &str, extended: &str, unknown: &str, into: &mut Map<String, Value>) {
    let known = schema().enums[all].iter().any(|n| n == t) && t != extended;
    let name = if t.starts_with('+') {
        into.insert("extension_type".into(), json!(t));
        extended
    } else if known {
        t
    } else {
        unknown
    };
    into.insert("type".into(), json!(name));
}

fn geometry_tree(g: &Value) -> Value {
    let mut t = Map::new();
    let ty = g["type"].as_str().unwrap();
    t.insert("type".into(), json!(ty));
    members(g, &mut t, &[("lod", "lod")]);
    let of_type = match ty {
        "MultiPoint" => 1,
        "MultiLineString" => 2,
        "MultiSurface" | "CompositeSurface" => 3,
        "Solid" => 4,
        _ => 5,
    };
    let d = depth(&g["boundaries"]).unwrap_or(of_type);
    lengths_of(&g["boundaries"], d, "boundaries", &mut t);
    if let Some(s) = g.get("semantics").filter(|s| !s.is_null()) {
        let mut values = Vec::new();
        leaves(&s["values"], &mut values);
        t.insert("semantics".into(), Value::Array(values));
        let objects = s["surfaces"].as_array().unwrap().iter().map(|s| {
            let mut o = Map::new();
            named(s["type"].as_str().unwrap(), "SemanticSurfaceType", "ExtraSemanticSurface", "ExtraSemanticSurface", &mut o);
            members(s, &mut o, &[("children", "children"), ("parent", "parent")]);
            let mut attrs = s.as_object().unwrap().clone();
            attrs.retain(|k, v| !["type", "children", "parent"].contains(&k.as_str()) && !v.is_null());
            o.insert("attributes".into(), Value::Object(attrs));
            Value::Object(o)
        });
        t.insert("semantics_objects".into(), Value::Array(objects.collect()));
    }
    if let Some(m) = g.get("material").filter(|m| !m.is_null()) {
        t.insert("material".into(), by_theme(m, material_tree));
    }
    if let Some(m) = g.get("texture").filter(|m| !m.is_null()) {
        let texture = |theme: &str, v: &Value| {
            let mut o = Map::new();
            o.insert("theme".into(), json!(theme));
            lengths_of(&v["values"], depth(&v["values"]).unwrap_or(1), "vertices", &mut o);
            Some(Value::Object(o))
        };
        t.insert("texture".into(), by_theme(m, texture));
    }
    Value::Object(t)
}

fn appearance_tree(a: &Value) -> Value {
    let mut t = Map::new();
    if let Some(m) = a["materials"].as_array() {
        let list = m.iter().map(|m| {
            let mut o = Map::new();
            let names = [
                ("name", "name"),
                ("ambientIntensity", "ambient_intensity"),
                ("diffuseColor", "diffuse_color"),
                ("emissiveColor", "emissive_color"),
                ("specularColor", "specular_color"),
                ("shininess", "shininess"),
                ("transparency", "transparency"),
                ("isSmooth", "is_smooth"),
            ];
            members(m, &mut o, &names);
            Value::Object(o)
        });
        t.insert("materials".into(), Value::Array(list.collect()));
    }
    if let Some(x) = a["textures"].as_array() {
        let list = x.iter().map(|x| {
            let mut o = Map::new();
            members(x, &mut o, &[("type", "type"), ("image", "image"), ("borderColor", "border_color")]);
            for (from, to) in [("wrapMode", "wrap_mode"), ("textureType", "texture_type")] {
                if let Some(s) = x[from].as_str() {
                    o.insert(to.into(), json!(s[..1].to_uppercase() + &s[1..]));
                }
            }
            Value::Object(o)
        });
        t.insert("textures".into(), Value::Array(list.collect()));
    }
    if let Some(v) = a["vertices-texture"].as_array() {
        t.insert("vertices_texture".into(), v.iter().map(|v| json!({"u": v[0], "v": v[1]})).collect());
    }
    let themes = [("default-theme-texture", "default_theme_texture"), ("default-theme-material", "default_theme_material")];
    members(a, &mut t, &themes);
    Value::Object(t)
}

const MATRIX: [&str; 16] = [
    "m00", "m01", "m02", "m03", "m10", "m11", "m12", "m13", "m20", "m21", "m22", "m23", "m30", "m31", "m32", "m33",
];

fn object_tree(id: &str, o: &Value) -> Value {
    let mut t = Map::new();
    t.insert("id".into(), json!(id));
    named(o["type"].as_str().unwrap(), "CityObjectType", "ExtensionObject", "GenericCityObject", &mut t);
    if let Some(e) = o.get("geographicalExtent").filter(|e| !e.is_null()) {
        t.insert("geographical_extent".into(), extent(e));
    }
    if let Some(gs) = o["geometry"].as_array() {
        let (instances, others): (Vec<&Value>, Vec<&Value>) = gs.iter().partition(|g| g["type"] == "GeometryInstance");
        t.insert("geometry".into(), others.into_iter().map(geometry_tree).collect());
        let instances = instances.into_iter().map(|g| {
            let m: Map<String, Value> = MATRIX.iter().zip(g["transformationMatrix"].as_array().unwrap()).map(|(k, v)| (k.to_string(), v.clone())).collect();
            json!({"transformation": m, "template": g["template"], "boundaries": g["boundaries"]})
        });
        t.insert("geometry_instances".into(), instances.collect());
    }
    if let Some(a) = o["attributes"].as_object() {
        let mut a = a.clone();
        a.retain(|_, v| !v.is_null());
        t.insert("attributes".into(), Value::Object(a));
    }
    members(o, &mut t, &[("children", "children"), ("children_roles", "children_roles"), ("parents", "parents")]);
    Value::Object(t)
}

fn feature_tree(f: &Value) -> Value {
    let f = serde_json::to_value(parse_feature(f)).unwrap();
    let mut objects: Vec<(&String, &Value)> = f["CityObjects"].as_object().unwrap().iter().collect();
    objects.sort_by_key(|o| o.0);
    let mut t = Map::new();
    t.insert("id".into(), f["id"].clone());
    t.insert("objects".into(), objects.into_iter().map(|(id, o)| object_tree(id, o)).collect());
    t.insert("vertices".into(), f["vertices"].as_array().unwrap().iter().map(xyz).collect());
    if let Some(a) = f.get("appearance").filter(|a| !a.is_null()) {
        t.insert("appearance".into(), appearance_tree(a));
    }
    Value::Object(t)
}

/// Columns: (number, name, type)
type Columns = Vec<(u16, String, &'static str)>;

fn type_name(t: ColumnType) -> &'static str {
    match t {
        ColumnType::Byte => "Byte",
        ColumnType::UByte => "UByte",
        ColumnType::Bool => "Bool",
        ColumnType::Short => "Short",
        ColumnType::UShort => "UShort",
        ColumnType::Int => "Int",
        ColumnType::UInt => "UInt",
        ColumnType::Long => "Long",
        ColumnType::ULong => "ULong",
        ColumnType::Float => "Float",
        ColumnType::Double => "Double",
        ColumnType::String => "String",
        ColumnType::Json => "Json",
        ColumnType::DateTime => "DateTime",
        ColumnType::Binary => "Binary",
        _ => "",
    }
}

fn columns(s: &AttributeSchema) -> Columns {
    let mut c: Columns = s.iter().map(|(n, (i, t))| (*i, n.clone(), type_name(*t))).collect();
    c.sort();
    c
}

fn column_trees(c: &Columns, newer: bool) -> Value {
    let list = c.iter().map(|(i, n, t)| {
        let mut v = json!({"index": i, "name": n, "type": t});
        if newer {
            v["title"] = json!("T");
            v["description"] = json!("D");
            v["precision"] = json!(3);
            v["nullable"] = json!(false);
            v["unique"] = json!(true);
            v["metadata"] = json!("{}");
        }
        v
    });
    Value::Array(list.collect())
}

/// What the header says apart from the columns, the counts and the indices.
fn header_tree(meta: &Value, o: &Opts) -> Value {
    let meta = serde_json::to_value(parse_cj(meta)).unwrap();
    let mut t = Map::new();
    t.insert("version".into(), meta["version"].clone());
    t.insert(
        "transform".into(),
        json!({"scale": xyz(&meta["transform"]["scale"]), "translate": xyz(&meta["transform"]["translate"])}),
    );
    if let Some(a) = meta.get("appearance").filter(|a| !a.is_null()) {
        t.insert("appearance".into(), appearance_tree(a));
    }
    if let Some(g) = meta.get("geometry-templates").filter(|g| !g.is_null()) {
        t.insert("templates".into(), g["templates"].as_array().unwrap().iter().map(geometry_tree).collect());
        t.insert("templates_vertices".into(), g["vertices-templates"].as_array().unwrap().iter().map(xyz).collect());
    }
    if let Some(e) = meta.get("extensions").and_then(|e| e.as_object()) {
        let mut names: Vec<&String> = e.keys().collect();
        names.sort();
        let list = names.into_iter().map(|n| {
            let url = e[n]["url"].as_str().unwrap();
            let doc = super::model::extension_doc(url);
            let mut x = Map::new();
            let names = [
                ("name", "name"),
                ("description", "description"),
                ("url", "url"),
                ("version", "version"),
                ("versionCityJSON", "version_cityjson"),
            ];
            members(&doc, &mut x, &names);
            for (from, to) in [
                ("extraAttributes", "extra_attributes"),
                ("extraCityObjects", "extra_city_objects"),
                ("extraRootProperties", "extra_root_properties"),
                ("extraSemanticSurfaces", "extra_semantic_surfaces"),
            ] {
                x.insert(to.into(), json!(doc[from].to_string()));
            }
            Value::Object(x)
        });
        t.insert("extensions".into(), Value::Array(list.collect()));
    }
    let ex = o.extent.map(|e| json!(e)).or_else(|| meta["metadata"].get("geographicalExtent").filter(|e| !e.is_null()).cloned());
    if let Some(e) = ex {
        t.insert("geographical_extent".into(), extent(&e));
    }
    let m = &meta["metadata"];
    members(m, &mut t, &[("identifier", "identifier"), ("referenceDate", "reference_date"), ("title", "title")]);
    if let Some(url) = m["referenceSystem"].as_str() {
        let parts: Vec<&str> = url.rsplit('/').collect();
        let (code, version, authority) = (parts[0], parts[1], parts[2]);
        let number = code.parse::<i32>().unwrap_or(0);
        let mut r = json!({"authority": authority, "version": version.parse::<i32>().unwrap_or(0), "code": number});
        if number.to_string() != code {
            r["code_string"] = json!(code);
        }
        t.insert("reference_system".into(), r);
    }
    let names = [
        ("contactName", "poc_contact_name"),
        ("contactType", "poc_contact_type"),
        ("role", "poc_role"),
        ("phone", "poc_phone"),
        ("emailAddress", "poc_email"),
        ("website", "poc_website"),
    ];
    members(&m["pointOfContact"], &mut t, &names);
    let address = &m["pointOfContact"]["address"];
    if !address.is_null() {
        t.insert("poc_address_thoroughfare_number".into(), json!(address["thoroughfareNumber"].to_string()));
        let names = [
            ("thoroughfareName", "poc_address_thoroughfare_name"),
            ("locality", "poc_address_locality"),
            ("postalCode", "poc_address_postcode"),
            ("country", "poc_address_country"),
        ];
        members(address, &mut t, &names);
    }
    Value::Object(t)
}

// ---------------------------------------------------------------- attributes

fn fits(t: &str, v: &Value) -> bool {
    let int = |min: i128, max: i128| {
        let i = v.as_i64().map(i128::from).or(v.as_u64().map(i128::from));
        i.is_some_and(|i| min <= i && i <= max)
    };
    match t {
        "Bool" => v.is_boolean(),
        "Byte" => int(-128, 127),
        "UByte" => int(0, 255),
        "Short" => int(-32768, 32767),
        "UShort" => int(0, 65535),
        "Int" => int(-(1 << 31), (1 << 31) - 1),
        "UInt" => int(0, (1 << 32) - 1),
        "Long" => int(i64::MIN.into(), i64::MAX.into()),
        "ULong" => int(0, u64::MAX.into()),
        "Float" => v.is_number(),
        "Double" => v.is_f64() || int(-(1 << 53), 1 << 53),
        "String" | "DateTime" | "Binary" => v.is_string(),
        "Json" => true,
        _ => false,
    }
}

fn number_bytes(t: &str, v: &Value) -> Option<Vec<u8>> {
    let i = || v.as_i64().map(i128::from).or(v.as_u64().map(i128::from)).unwrap();
    Some(match t {
        "Bool" => vec![v.as_bool().unwrap() as u8],
        "Byte" | "UByte" => vec![i() as u8],
        "Short" | "UShort" => (i() as u16).to_le_bytes().into(),
        "Int" | "UInt" => (i() as u32).to_le_bytes().into(),
        "Long" | "ULong" => (i() as u64).to_le_bytes().into(),
        "Float" => (v.as_f64().unwrap() as f32).to_le_bytes().into(),
        "Double" => v.as_f64().unwrap().to_le_bytes().into(),
        _ => return None,
    })
}

fn attr_bytes(a: &Map<String, Value>, cols: &Columns, backwards: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let mut put = |(i, n, t): &(u16, String, &'static str)| {
        let Some(v) = a.get(n) else { return };
        out.extend(i.to_le_bytes());
        match number_bytes(t, v) {
            Some(b) => out.extend(b),
            None => {
                let s = if *t == "Json" { v.to_string() } else { v.as_str().unwrap().to_string() };
                out.extend((s.len() as u32).to_le_bytes());
                out.extend(s.as_bytes());
            }
        }
    };
    if backwards {
        cols.iter().rev().for_each(&mut put);
    } else {
        cols.iter().for_each(&mut put);
    }
    out
}

fn read_attrs(b: &[u8], cols: &Columns) -> Result<Vec<(String, &'static str, Value)>, String> {
    let mut p = 0;
    let mut out: Vec<(String, &'static str, Value)> = Vec::new();
    let take = |p: &mut usize, n: usize| -> Result<Vec<u8>, String> {
        let s = b.get(*p..*p + n).ok_or("attributes end within a value")?;
        *p += n;
        Ok(s.to_vec())
    };
    while p < b.len() {
        let i = u16::from_le_bytes(take(&mut p, 2)?.try_into().unwrap());
        let (_, name, t) = cols.iter().find(|c| c.0 == i).ok_or_else(|| format!("an attribute of column {i}, which is not there"))?;
        let v = match *t {
            "Bool" => json!(take(&mut p, 1)?[0] != 0),
            "Byte" => json!(take(&mut p, 1)?[0] as i8),
            "UByte" => json!(take(&mut p, 1)?[0]),
            "Short" => json!(i16::from_le_bytes(take(&mut p, 2)?.try_into().unwrap())),
            "UShort" => json!(u16::from_le_bytes(take(&mut p, 2)?.try_into().unwrap())),
            "Int" => json!(i32::from_le_bytes(take(&mut p, 4)?.try_into().unwrap())),
            "UInt" => json!(u32::from_le_bytes(take(&mut p, 4)?.try_into().unwrap())),
            "Long" => json!(i64::from_le_bytes(take(&mut p, 8)?.try_into().unwrap())),
            "ULong" => json!(u64::from_le_bytes(take(&mut p, 8)?.try_into().unwrap())),
            "Float" => json!(f32::from_le_bytes(take(&mut p, 4)?.try_into().unwrap()) as f64),
            "Double" => json!(f64::from_le_bytes(take(&mut p, 8)?.try_into().unwrap())),
            _ => {
                let n = u32::from_le_bytes(take(&mut p, 4)?.try_into().unwrap()) as usize;
                let s = String::from_utf8(take(&mut p, n)?).map_err(|e| e.to_string())?;
                if *t == "Json" {
                    serde_json::from_str(&s).map_err(|e| format!("Json column {name}: {e}"))?
                } else {
                    json!(s)
                }
            }
        };
        if out.iter().any(|o| o.0 == *name) {
            return Err(format!("attribute {name} stands twice"));
        }
        out.push((name.clone(), t, v));
    }
    Ok(out)
}

/// Puts the attributes of a table read from a file in the place of their bytes.
fn name_attrs(t: &mut Value, want: Option<&Value>, cols: &Columns) -> Result<(), String> {
    let own = t.as_object_mut().unwrap().remove("columns");
    let own: Option<Columns> = own.filter(|c| c.as_array().is_some_and(|c| !c.is_empty())).map(|c| {
        let c = c.as_array().unwrap().iter();
        c.map(|c| {
            let t = c["type"].as_str().unwrap_or("Byte");
            let t = schema().enums["ColumnType"].iter().find(|n| *n == t).unwrap();
            (c["index"].as_u64().unwrap_or(0) as u16, c["name"].as_str().unwrap().to_string(), t.as_str())
        })
        .collect()
    });
    let Some(b) = t.get("attributes") else { return Ok(()) };
    let b: Vec<u8> = b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let mut m = Map::new();
    for (n, ty, v) in read_attrs(&b, own.as_ref().unwrap_or(cols))? {
        // a Float column holds the nearest single precision number
        let w = want.and_then(|w| w["attributes"].get(&n));
        let rounded = ty == "Float" && w.and_then(|w| w.as_f64()).is_some_and(|w| w as f32 as f64 == v.as_f64().unwrap_or(f64::NAN));
        m.insert(n.clone(), if rounded { w.unwrap().clone() } else { v });
    }
    t["attributes"] = Value::Object(m);
    Ok(())
}

fn name_geometries(gs: Option<&mut Value>, want: Option<&Value>, sem: &Columns) -> Result<(), String> {
    for (i, g) in gs.and_then(|g| g.as_array_mut()).into_iter().flatten().enumerate() {
        for m in ["material", "texture"] {
            if let Some(a) = g.get_mut(m).and_then(|a| a.as_array_mut()) {
                a.sort_by_key(|t| t["theme"].as_str().unwrap_or("").to_string());
            }
        }
        let want = want.map(|w| &w[i]["semantics_objects"]);
        for (k, s) in g.get_mut("semantics_objects").and_then(|s| s.as_array_mut()).into_iter().flatten().enumerate() {
            name_attrs(s, want.map(|w| &w[k]), sem)?;
        }
    }
    Ok(())
}

fn name_feature(t: &mut Value, want: &Value, cols: &Columns, sem: &Columns) -> Result<(), String> {
    if let Some(o) = t.get_mut("objects").and_then(|o| o.as_array_mut()) {
        o.sort_by_key(|o| o["id"].as_str().unwrap_or("").to_string());
        for (i, o) in o.iter_mut().enumerate() {
            let w = &want["objects"][i];
            name_attrs(o, Some(w), cols)?;
            name_geometries(o.get_mut("geometry"), Some(&w["geometry"]), sem)?;
        }
    }
    Ok(())
}

/// Columns of an object's own, for attributes the file's columns cannot hold (or by choice).
fn own_columns(a: &Map<String, Value>, cols: &Columns) -> Columns {
    let mut names: Vec<&String> = a.keys().collect();
    names.sort();
    let of = |n: &String, v: &Value| {
        let exact = v.as_f64().is_some_and(|x| v.is_f64() && f64::from(x as f32) == x);
        let declared = cols.iter().find(|c| c.1 == *n && fits(c.2, v) && (c.2 != "Float" || exact)).map(|c| c.2);
        declared.unwrap_or(match v {
            Value::Bool(_) => "Bool",
            Value::String(_) => "String",
            Value::Number(_) => ["Int", "Long", "ULong"].into_iter().find(|t| fits(t, v)).unwrap_or("Double"),
            _ => "Json",
        })
    };
    // any numbers do
    names.into_iter().enumerate().map(|(i, n)| (5 + 3 * i as u16, n.clone(), of(n, &a[n]))).collect()
}

/// The tree with attributes as bytes, ready to be written.
fn wire_attrs(t: &mut Value, cols: &Columns, may_own: bool, style: Style) {
    let Some(a) = t.get("attributes").and_then(|a| a.as_object()).cloned() else { return };
    let fit = a.iter().all(|(n, v)| cols.iter().any(|c| c.1 == *n && fits(c.2, v)));
    let own = may_own && (!fit || (style.own_columns() && !a.is_empty()));
    let bytes = if own {
        let own = own_columns(&a, cols);
        t["columns"] = column_trees(&own, style.newer());
        attr_bytes(&a, &own, style.reversed())
    } else {
        attr_bytes(&a, cols, style.reversed())
    };
    t["attributes"] = json!(bytes);
}

fn wire_geometries(gs: Option<&mut Value>, sem: &Columns, style: Style) {
    for g in gs.and_then(|g| g.as_array_mut()).into_iter().flatten() {
        for s in g.get_mut("semantics_objects").and_then(|s| s.as_array_mut()).into_iter().flatten() {
            wire_attrs(s, sem, false, style);
        }
    }
}

fn wire_feature(t: &Value, cols: &Columns, sem: &Columns, style: Style) -> Vec<u8> {
    let mut t = t.clone();
    for o in t["objects"].as_array_mut().unwrap() {
        wire_attrs(o, cols, true, style);
        wire_geometries(o.get_mut("geometry"), sem, style);
    }
    encode("CityFeature", &t, style)
}

// ---------------------------------------------------------------- indices

/// Key of a value, as a number to order it by and as bytes.
fn key_of(t: &str, v: &Value) -> Option<(Vec<u8>, Vec<u8>)> {
    if v.is_null() || !fits(t, v) {
        return None;
    }
    // bytes that order as the values do
    let flip = |b: u64| if b >> 63 == 1 { !b } else { b | 1 << 63 };
    let order = match t {
        "Json" | "Binary" | "" => return None,
        "Bool" => vec![v.as_bool().unwrap() as u8],
        "Float" => flip((v.as_f64().unwrap() as f32 as f64 + 0.0).to_bits()).to_be_bytes().into(),
        "Double" => flip((v.as_f64().unwrap() + 0.0).to_bits()).to_be_bytes().into(),
        "String" => {
            let mut b = v.as_str().unwrap().as_bytes().to_vec();
            b.resize(50, 0);
            return Some((b.clone(), b));
        }
        "DateTime" => {
            let d = DateTime::parse_from_rfc3339(v.as_str().unwrap()).ok()?.to_utc();
            return Some(date_key(d));
        }
        _ => {
            let i = v.as_i64().map(i128::from).or(v.as_u64().map(i128::from)).unwrap();
            (i + (1 << 100)).to_be_bytes().into()
        }
    };
    Some((order, number_bytes(t, v)?))
}

fn date_key(d: DateTime<Utc>) -> (Vec<u8>, Vec<u8>) {
    let (s, n) = (d.timestamp(), d.timestamp_subsec_nanos());
    let mut order = ((s as i128 + (1 << 100)) as u128).to_be_bytes().to_vec();
    order.extend(n.to_be_bytes());
    let mut b = s.to_le_bytes().to_vec();
    b.extend(n.to_le_bytes());
    (order, b)
}

fn largest_key(t: &str) -> Vec<u8> {
    match t {
        "Bool" => vec![1],
        "Byte" => vec![0x7f],
        "UByte" => vec![0xff],
        "Short" => i16::MAX.to_le_bytes().into(),
        "UShort" => u16::MAX.to_le_bytes().into(),
        "Int" => i32::MAX.to_le_bytes().into(),
        "UInt" => u32::MAX.to_le_bytes().into(),
        "Long" => i64::MAX.to_le_bytes().into(),
        "ULong" => u64::MAX.to_le_bytes().into(),
        "Float" => f32::INFINITY.to_le_bytes().into(),
        "Double" => f64::INFINITY.to_le_bytes().into(),
        "String" => vec![0xff; 50],
        _ => date_key(DateTime::<Utc>::MAX_UTC).1,
    }
}

/// An attribute index: (its bytes, number of distinct keys). None if there is no key.
fn btree(t: &str, values: &[(&Value, u64)], bf: usize) -> Option<(Vec<u8>, usize)> {
    let mut keyed: Vec<(Vec<u8>, Vec<u8>, u64)> = values.iter().filter_map(|(v, o)| key_of(t, v).map(|(a, b)| (a, b, *o))).collect();
    keyed.sort_by(|a, b| (&a.0, a.2).cmp(&(&b.0, b.2)));
    let mut payload = Vec::new();
    let mut items: Vec<(Vec<u8>, u64)> = Vec::new();
    for group in keyed.chunk_by(|a, b| a.0 == b.0) {
        let to = if group.len() == 1 {
            group[0].2
        } else {
            let at = payload.len() as u64;
            payload.extend((group.len() as u32).to_le_bytes());
            group.iter().for_each(|g| payload.extend(g.2.to_le_bytes()));
            1 << 63 | at
        };
        items.push((group[0].1.clone(), to));
    }
    if items.is_empty() {
        return None;
    }
    let unique = items.len();
    let mut sizes = vec![unique];
    loop {
        sizes.push(sizes.last().unwrap().div_ceil(bf));
        if *sizes.last().unwrap() < bf {
            break;
        }
    }
    // levels from the leaves up: (smallest key of a leaf below, key, offset)
    type Item = (Vec<u8>, Vec<u8>, u64);
    let mut levels: Vec<Vec<Item>> = vec![items.into_iter().map(|(k, o)| (k.clone(), k, o)).collect()];
    for l in 1..sizes.len() {
        let start: usize = sizes[l..].iter().sum();
        let below = &levels[l - 1];
        let nodes: Vec<usize> = (0..below.len()).step_by(bf - 1).collect();
        let mut level = Vec::new();
        for (i, first) in nodes.iter().enumerate() {
            // the last child of a full node is reached from its left sibling
            if i % bf == bf - 1 || level.len() == sizes[l] {
                continue;
            }
            let key = nodes.get(i + 1).map_or_else(|| largest_key(t), |next| below[*next].0.clone());
            level.push((below[*first].0.clone(), key, (start + first) as u64));
        }
        levels.push(level);
    }
    let mut out = Vec::new();
    for (_, k, o) in levels.iter().rev().flatten() {
        out.extend(k);
        out.extend(o.to_le_bytes());
    }
    out.extend(payload);
    Some((out, unique))
}

/// The sections of the attribute indices and what the header tells of them.
fn attr_sections(feats: &[(&Value, u64)], cols: &Columns, o: &Opts) -> (Vec<u8>, Vec<Value>) {
    let mut asked: Vec<(u16, &str, usize, &'static str)> = o
        .attrs
        .iter()
        .filter_map(|(n, bf)| cols.iter().find(|c| c.1 == *n).map(|c| (c.0, n.as_str(), bf.unwrap_or(16).max(2) as usize, c.2)))
        .collect();
    asked.sort_by_key(|a| a.0);
    let (mut bytes, mut infos) = (Vec::new(), Vec::new());
    for (index, name, bf, t) in asked {
        let values: Vec<(&Value, u64)> = feats
            .iter()
            .flat_map(|(f, at)| f["objects"].as_array().unwrap().iter().filter_map(move |o| o.get("attributes").and_then(|a| a.get(name)).map(|v| (v, *at))))
            .collect();
        if let Some((b, n)) = btree(t, &values, bf) {
            infos.push(json!({"index": index, "length": b.len(), "branching_factor": bf, "num_unique_items": n}));
            bytes.extend(b);
        }
    }
    (bytes, infos)
}

fn rtree(boxes: &[([f64; 4], u64)], node: usize) -> Vec<u8> {
    if boxes.is_empty() {
        return vec![];
    }
    let mut sizes = vec![boxes.len()];
    while sizes.len() < 2 || *sizes.last().unwrap() > 1 {
        sizes.push(sizes.last().unwrap().div_ceil(node));
    }
    let mut levels = vec![boxes.to_vec()];
    for l in 1..sizes.len() {
        let below: usize = sizes[l..].iter().sum();
        let up = levels[l - 1].chunks(node).enumerate().map(|(i, c)| {
            let m = c.iter().fold(c[0].0, |a, (b, _)| [a[0].min(b[0]), a[1].min(b[1]), a[2].max(b[2]), a[3].max(b[3])]);
            (m, (below + i * node) as u64)
        });
        let up = up.collect();
        levels.push(up);
    }
    let mut out = Vec::new();
    for (b, o) in levels.iter().rev().flatten() {
        b.iter().for_each(|v| out.extend(v.to_le_bytes()));
        out.extend(o.to_le_bytes());
    }
    out
}

// ---------------------------------------------------------------- whole files

struct Parts {
    header: Value,
    cols: Columns,
    sem: Columns,
    trees: Vec<Value>,
}

fn parts(meta: &Value, feats: &[Value], o: &Opts) -> Parts {
    let parsed: Vec<_> = feats.iter().map(parse_feature).collect();
    let (a, s) = schemas_of(&parsed);
    let cols = if o.no_schema { vec![] } else { columns(&o.schema.clone().unwrap_or(a)) };
    let sem = columns(&o.sem_schema.clone().unwrap_or(s).unwrap_or_default());
    Parts { header: header_tree(meta, o), cols, sem, trees: feats.iter().map(feature_tree).collect() }
}

/// Compares a file with what its input is in the format. Gives the order of the features.
fn conforms(data: &[u8], p: &Parts, o: &Opts) -> Result<Vec<usize>, String> {
    let u32_at = |p: usize| -> Result<usize, String> {
        let b = data.get(p..p + 4).ok_or_else(|| format!("the file ends at {} of {}", data.len(), p + 4))?;
        Ok(u32::from_le_bytes(b.try_into().unwrap()) as usize)
    };
    if data.get(..8) != Some(&b"fcb\x01fcb\0"[..]) {
        return Err("magic bytes".into());
    }
    let header_end = 12 + u32_at(8)?;
    let mut h = decode("Header", data.get(8..header_end).ok_or("the header ends outside the file")?).map_err(|e| format!("header: {e}"))?;
    name_geometries(h.get_mut("templates"), Some(&p.header["templates"]), &p.sem)?;
    if let Some(e) = h.get_mut("extensions").and_then(|e| e.as_array_mut()) {
        e.sort_by_key(|e| e["name"].as_str().unwrap_or("").to_string());
    }
    let n = p.trees.len();
    let node = if o.index { 16 } else { 0 };
    let nodes = if o.index && n > 0 {
        let mut sizes = vec![n];
        while sizes.len() < 2 || *sizes.last().unwrap() > 1 {
            sizes.push(sizes.last().unwrap().div_ceil(node));
        }
        sizes.iter().sum()
    } else {
        0
    };
    let attrs_start = header_end + 40 * nodes;
    let lens: usize = h.get("attribute_index").and_then(|a| a.as_array()).into_iter().flatten().map(|a| a["length"].as_u64().unwrap() as usize).sum();
    let start = attrs_start + lens;
    let mut at = start;
    let mut order = Vec::new();
    let mut offsets = Vec::new();
    let wanted: Vec<Value> = p.trees.iter().map(|t| norm("CityFeature", t)).collect::<Result<_, _>>()?;
    let mut by_id: std::collections::HashMap<String, Vec<usize>> = Default::default();
    for (i, w) in wanted.iter().enumerate() {
        by_id.entry(w["id"].to_string()).or_default().push(i);
    }
    while at < data.len() {
        let end = at + 4 + u32_at(at)?;
        let raw = decode("CityFeature", data.get(at..end).ok_or("a feature ends outside the file")?)
            .map_err(|e| format!("feature {}: {e}", order.len()))?;
        let mut why = String::from("no such feature was given");
        let mut found = None;
        let candidates = by_id.entry(raw["id"].to_string()).or_default();
        for i in candidates.iter().copied() {
            let w = &wanted[i];
            let mut t = raw.clone();
            name_feature(&mut t, &p.trees[i], &p.cols, &p.sem)?;
            match diff(w, &norm("CityFeature", &t)?) {
                None => {
                    found = Some(i);
                    break;
                }
                Some(d) => why = d,
            }
        }
        candidates.retain(|i| Some(*i) != found);
        order.push(found.ok_or_else(|| format!("in the file, feature {} {why}", raw["id"]))?);
        offsets.push((at - start) as u64);
        at = end;
    }
    if order.len() != n {
        return Err(format!("{} features in the file of {n} given", order.len()));
    }
    let in_order: Vec<(&Value, u64)> = order.iter().map(|i| &p.trees[*i]).zip(offsets.iter().copied()).collect();
    let (section, infos) = attr_sections(&in_order, &p.cols, o);
    let mut want = p.header.clone();
    want["columns"] = column_trees(&p.cols, false);
    want["semantic_columns"] = column_trees(&p.sem, false);
    want["features_count"] = json!(n);
    want["index_node_size"] = json!(node);
    want["attribute_index"] = json!(infos);
    if let Some(d) = diff(&unquoted(norm("Header", &want)?), &unquoted(norm("Header", &h)?)) {
        return Err(format!("in the file, header {d}"));
    }
    if data[attrs_start..start] != section {
        let k = data[attrs_start..start].iter().zip(&section).position(|(a, b)| a != b);
        return Err(format!("in the file, the attribute indices differ from byte {k:?} of {}", section.len()));
    }
    Ok(order)
}

/// JSON in strings as JSON: its members may stand in any order.
fn unquoted(mut h: Value) -> Value {
    for e in h.get_mut("extensions").and_then(|e| e.as_array_mut()).into_iter().flatten() {
        for (k, v) in e.as_object_mut().unwrap() {
            if k.starts_with("extra_") {
                *v = v.as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_else(|| json!("no JSON"));
            }
        }
    }
    h
}

/// The same content, written here.
fn other_file(meta: &Value, feats: &[Value], p: &Parts, order: &[usize], o: &Opts, style: Style) -> Vec<u8> {
    let mut section = Vec::new();
    let mut offsets = Vec::new();
    for i in order {
        offsets.push(section.len() as u64);
        section.extend(wire_feature(&p.trees[*i], &p.cols, &p.sem, style));
    }
    let in_order: Vec<(&Value, u64)> = order.iter().map(|i| &p.trees[*i]).zip(offsets.iter().copied()).collect();
    let (indices, infos) = attr_sections(&in_order, &p.cols, o);
    let mut h = p.header.clone();
    wire_geometries(h.get_mut("templates"), &p.sem, style);
    h["columns"] = column_trees(&p.cols, style.newer());
    h["semantic_columns"] = column_trees(&p.sem, style.newer());
    h["features_count"] = json!(order.len());
    h["index_node_size"] = json!(if o.index { 16 } else { 0 });
    if !infos.is_empty() || style.explicit() {
        h["attribute_index"] = json!(infos);
    }
    let boxes: Vec<([f64; 4], u64)> = order.iter().map(|i| bbox_of(meta, &feats[*i])).zip(offsets).collect();
    let mut out = b"fcb\x01fcb\0".to_vec();
    out.extend(encode("Header", &h, style));
    if o.index {
        out.extend(rtree(&boxes, 16));
    }
    out.extend(indices);
    out.extend(section);
    out
}

/// Called by `write_fcb` for every file the library wrote.
pub fn exchange(data: Vec<u8>, meta: &Value, feats: &[Value], o: &Opts) -> Result<Vec<u8>, String> {
    let Some(turn) = CONFORM.get() else {
        return Ok(data);
    };
    let p = parts(meta, feats, o);
    let order = conforms(&data, &p, o)?;
    let style = match turn {
        Turn::Fixed(s) => s,
        Turn::Rotate(k) => {
            let h = hash_of(&(meta.to_string(), feats.iter().map(|f| f.to_string()).collect::<Vec<_>>()));
            Style((h.wrapping_add(k) % u64::from(Style::N)) as u16)
        }
    };
    Ok(other_file(meta, feats, &p, &order, o, style))
}

// ---------------------------------------------------------------- exploration

fn rich() -> (Value, Vec<Value>, Opts) {
    let mut meta = base_meta();
    meta["transform"] = json!({"scale": [0.5, 0.25, 2.0], "translate": [10.0, -20.0, 3.5]});
    let surfaces = |k: u64| {
        json!([{"type": "RoofSurface", "parent": 1, "slope": 30.5 + k as f64, "ok": true},
               {"type": "WallSurface", "children": [0, 2], "note": "\u{e9}"},
               {"type": "+Thermal", "parent": 1}, {"type": "Window", "ok": false}])
    };
    let multi = |k: u64| {
        json!({"type": "MultiSurface", "lod": "2.2", "boundaries": [[[0, 1, 2, 3], [1, 2, 3]], [[3, 2, 1]], [[0, 2, 3]]],
            "semantics": {"surfaces": surfaces(k), "values": [2, null, 0]},
            "material": {"summer": {"values": [0, null, 1]}, "winter": {"value": k}},
            "texture": {"summer": {"values": [[[0, 1, 2, 3, 4], [null]], [[1, 4, 3, 2]], [[null]]]}}})
    };
    let solid = |k: u64| {
        json!({"type": "Solid", "lod": "3", "boundaries": [[[[0, 1, 2]], [[1, 2, 3]]], [[[0, 1, 3], [1, 2, 3]]]],
            "semantics": {"surfaces": surfaces(k), "values": [[0, 3], [null]]},
            "material": {"t": {"values": [[1, 0], [null]]}},
            "texture": {"t": {"values": [[[[1, 0, 1, 2]], [[null]]], [[[0, 4, 3, 2], [null]]]]}}})
    };
    let solids = |t: &str| {
        json!({"type": t, "boundaries": [[[[[0, 1, 2]], [[1, 2, 3]]]], [[[[0, 1, 3]]], [[[3, 1, 0], [0, 1, 2]]]]],
            "material": {"a": {"values": [[[1, 0]], [[null], [0]]]}}})
    };
    meta["appearance"] = json!({
        "materials": [{"name": "m0"}, {"name": "m1", "ambientIntensity": 0.25, "diffuseColor": [0.1, 0.2, 0.3],
            "emissiveColor": [0.4, 0.5, 0.6], "specularColor": [0.7, 0.8, 0.9], "shininess": 0.0, "transparency": 1.0, "isSmooth": false}],
        "textures": [{"type": "PNG", "image": "a.png"}, {"type": "JPG", "image": "b.jpg", "wrapMode": "none", "textureType": "unknown",
            "borderColor": [0.0, 0.25, 0.5, 1.0]}, {"type": "JPG", "image": "", "wrapMode": "border", "textureType": "typical"}],
        "vertices-texture": [[0.0, 0.5], [1.0, 0.25]], "default-theme-texture": "summer", "default-theme-material": "winter"});
    meta["geometry-templates"] = json!({"templates": [multi(1), {"type": "MultiLineString", "lod": "1", "boundaries": [[0, 1], [1, 2, 0]]}],
        "vertices-templates": [[0.0, 0.5, -1.5], [1e300, 2.0, 3.0], [0.1, 0.2, 0.3], [1.0, 1.0, 1.0]]});
    meta["metadata"] = json!({
        "geographicalExtent": [1.5, -2.0, 0.0, 84757.1, 446701.0, 17.25], "identifier": "i", "referenceDate": "2024-02-29", "title": "T",
        "referenceSystem": "https://www.opengis.net/def/crs/EPSG/0/7415",
        "pointOfContact": {"contactName": "C", "contactType": "organization", "role": "author", "phone": "+1", "emailAddress": "a@b",
            "website": "https://w", "address": {"thoroughfareNumber": 12, "thoroughfareName": "St", "locality": "L", "postalCode": "1234AB", "country": "NL"}}});
    let geometries = [
        json!([multi(0), solid(1)]),
        json!([solids("MultiSolid"), {"type": "GeometryInstance", "template": 1, "boundaries": [3],
            "transformationMatrix": [1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5, 10.5, 11.5, 12.5, 0.0, -0.5, 0.25, 1.0]}, solids("CompositeSolid")]),
        json!([{"type": "MultiPoint", "lod": "0", "boundaries": [3, 1]}, {"type": "CompositeSurface", "lod": "1.3", "boundaries": [[[3, 1, 0]]]}]),
        json!([]),
    ];
    let feats: Vec<Value> = (0..9u64)
        .map(|k| {
            let id = format!("f{k}");
            let mut a = Map::new();
            let i = k as i64;
            for (t, v) in [
                ("Byte", json!(i - 4)), ("UByte", json!(k * 30)), ("Bool", json!(k % 3 == 0)), ("Short", json!(i * 300 - 900)),
                ("UShort", json!(k * 7000)), ("Int", json!((i - 4) * 500_000_000)), ("UInt", json!(k * 500_000_000)),
                ("Long", json!((i - 4) * 2_000_000_000_000_000_000)), ("ULong", json!(k * 2_000_000_000_000_000_000)),
                ("Float", json!(i as f64 * 0.5 - 1.0)), ("Double", json!(0.1 * (i - 3) as f64)), ("String", json!(format!("s{}", k % 4))),
                ("Json", json!({"k": [k, null]})), ("DateTime", json!(format!("19{}0-02-28T23:59:59.5-05:30", k + 1))), ("Binary", json!("AQID")),
            ] {
                if k != 7 && !(k == 5 && t == "String") {
                    a.insert(t.into(), v);
                }
            }
            if k == 3 {
                // no column of the file holds these
                a.insert("UByte".into(), json!("many"));
                a.insert("extra".into(), json!(1.5));
            }
            let mut part = json!({"type": (["BuildingPart", "+Annex", "GenericCityObject"][k as usize % 3]), "parents": [id.clone()],
                "geometry": geometries[(k as usize + 1) % 4].clone()});
            if k % 2 == 0 {
                part["geographicalExtent"] = json!([0.0, 1.0, 2.0, 3.0, 4.0, k]);
                part["attributes"] = json!({"String": "part", "Int": 9});
            }
            let mut root = json!({"type": super::model::OBJECT_TYPES[k as usize * 3], "attributes": a, "children": [format!("{id}-p")],
                "geometry": geometries[k as usize % 4].clone()});
            if k == 2 {
                root["children_roles"] = json!(["r"]);
            }
            let p = k as i64 * 40;
            let mut f = feature(&id, json!({id.clone(): root, format!("{id}-p"): part}),
                json!([[p, -p, 1], [p + 10, 5, -2], [p, 2147483647i64 - p, 0], [p - 2147483648i64, 1, 2147483647]]));
            if k % 3 == 1 {
                f["vertices"] = json!([[p, p, 0], [p + 8, p, 1], [p + 8, p + 8, 2], [p, p + 8, 3]]);
                f["appearance"] = meta["appearance"].clone();
            }
            f
        })
        .collect();
    let mut schema = AttributeSchema::new();
    let mut o = Opts::plain(true);
    o.extent = None;
    for (i, t) in super::model::COLUMN_TYPES.iter().enumerate() {
        let name = type_name(*t);
        schema.insert(name.into(), (2 * i as u16 + 1, *t));
        o = o.attr(name, [None, Some(2), Some(3)][i % 3]);
    }
    o.schema = Some(schema);
    (meta, feats, o)
}

fn key_type(t: &str, v: &Value) -> Option<KeyType> {
    let i = v.as_i64();
    Some(match t {
        "Byte" => KeyType::Int8(i? as i8),
        "UByte" => KeyType::UInt8(i? as u8),
        "Bool" => KeyType::Bool(v.as_bool()?),
        "Short" => KeyType::Int16(i? as i16),
        "UShort" => KeyType::UInt16(i? as u16),
        "Int" => KeyType::Int32(i? as i32),
        "UInt" => KeyType::UInt32(i? as u32),
        "Long" => KeyType::Int64(i?),
        "ULong" => KeyType::UInt64(v.as_u64()?),
        "Float" => KeyType::Float32(OrderedFloat(v.as_f64()? as f32)),
        "Double" => KeyType::Float64(OrderedFloat(v.as_f64()?)),
        "String" => KeyType::StringKey50(FixedStringKey::from_str(v.as_str()?)),
        "DateTime" => KeyType::DateTime(DateTime::parse_from_rfc3339(v.as_str()?).ok()?.to_utc()),
        _ => return None,
    })
}

/// Everything that can be asked of the file in every mode.
fn ask_everything(ctx: &mut Ctx, data: &Arc<Vec<u8>>, meta: &Value, feats: &[Value], turn: usize) -> Result<(), String> {
    let ids_of = |sel: &Sel, mode: Mode| -> Result<Vec<String>, String> {
        let got = read_mode(data, mode, sel).map_err(|e| format!("{mode:?}: {e}"))?;
        for g in &got.feats {
            let f = feats.iter().find(|f| f["id"] == g["id"]).ok_or_else(|| format!("{mode:?}: feature {}", g["id"]))?;
            same_feature(f, g).map_err(|e| format!("{mode:?}: feature {} {e}", g["id"]))?;
        }
        let mut ids = got.ids();
        ids.sort();
        Ok(ids)
    };
    let all: Vec<String> = feats.iter().map(|f| f["id"].as_str().unwrap().to_string()).collect();
    for mode in MODES {
        if ids_of(&Sel::All, mode)? != all {
            return Err(format!("{mode:?}: not every feature, or one twice"));
        }
        let m = super::model::read_meta(data, mode)?;
        if let Some(d) = diff(&super::model::norm_meta(meta), &super::model::norm_meta(&m)) {
            return Err(format!("{mode:?}: metadata {d}"));
        }
        for f in feats {
            let b = bbox_of(meta, f);
            let want: Vec<String> = feats
                .iter()
                .filter(|g| {
                    let c = bbox_of(meta, g);
                    c[0] <= b[2] && b[0] <= c[2] && c[1] <= b[3] && b[1] <= c[3]
                })
                .map(|g| g["id"].as_str().unwrap().to_string())
                .collect();
            if ids_of(&Sel::Spatial(SpatialQuery::BBox(b[0], b[1], b[2], b[3])), mode)? != want {
                return Err(format!("{mode:?}: in the box of {} not {want:?}", f["id"]));
            }
            ctx.trans(1);
        }
        for t in super::model::COLUMN_TYPES.iter().map(|t| type_name(*t)) {
            let value = |f: &Value, t: &str| -> Vec<Value> {
                f["CityObjects"].as_object().unwrap().values().filter_map(|o| o["attributes"].get(t).cloned()).filter(|v| fits(t, v)).collect()
            };
            for (i, f) in feats.iter().enumerate() {
                for v in value(f, t) {
                    let Some(k) = key_type(t, &v) else { continue };
                    let (order, _) = key_of(t, &v).unwrap();
                    for (j, (op, keep)) in [
                        (Operator::Eq, Box::new(|o: &Vec<u8>| *o == order) as Box<dyn Fn(&Vec<u8>) -> bool>),
                        (Operator::Gt, Box::new(|o: &Vec<u8>| *o > order)),
                        (Operator::Le, Box::new(|o: &Vec<u8>| *o <= order)),
                    ]
                    .into_iter()
                    .enumerate()
                    {
                        // one operator per style, or all
                        if ctx.quick() && j != (turn + i) % 3 {
                            continue;
                        }
                        let want: Vec<String> = feats
                            .iter()
                            .filter(|g| value(g, t).iter().any(|w| keep(&key_of(t, w).unwrap().0)))
                            .map(|g| g["id"].as_str().unwrap().to_string())
                            .collect();
                        let got = ids_of(&Sel::Attr(vec![(t.to_string(), op, k.clone())]), mode)?;
                        if got != want {
                            return Err(format!("{mode:?}: {t} {op:?} {v}: {got:?}, expected {want:?}"));
                        }
                        ctx.trans(1);
                    }
                }
            }
        }
    }
    Ok(())
}

/// What the format has no room for (known findings of P04, P05 and P06).
const OUTSIDE: &[&str] = &[
    "semantic-values[10, 11]",
    "semantic-values[10, 12]",
    "semantic-values[10, 13]",
    "semantic-values[10, 4]",
    "semantic-values[10, 6]",
    "semantic-values[10, 8]",
    "semantic-values[7, 11]",
    "semantic-values[7, 12]",
    "semantic-values[7, 13]",
    "semantic-values[9, 11]",
    "semantic-values[9, 12]",
    "semantic-values[9, 13]",
    "semantic-foreign:",
    "object-member:address:",
    "object-member:+extra:",
    "crs:http://",
    "crs:https://www.opengis.net/def/crs/EPSG/1.3/",
    "crs:https://www.opengis.net/def/crs/EPSG/x/",
    "crs:https://www.opengis.net/def/crs/OGC/1.3/",
    "crs:https://www.opengis.net/def/crs/OGC/x/",
    "crs:https://www.opengis.net/def/crs//1.3/",
    "crs:https://www.opengis.net/def/crs//x/",
    "root-member:",
];

fn run(ctx: &mut Ctx) {
    // every way of writing one dataset that has something of everything
    for s in 0..Style::N {
        for index in [true, false] {
            ctx.case(|| format!("style:{s}:index={index}"), |ctx| {
                ctx.outcome("style");
                let (meta, feats, mut o) = rich();
                o.index = index;
                CONFORM.set(Some(Turn::Fixed(Style(s))));
                let r = write_fcb(&meta, &feats, &o);
                CONFORM.set(None);
                let data = Arc::new(r?);
                ctx.state(&*data);
                ctx.trace();
                if !index {
                    let got = read_seq(data.as_slice(), &Sel::All)?;
                    if got.feats.len() != feats.len() {
                        return Err(format!("{} features of {}", got.feats.len(), feats.len()));
                    }
                    for (f, g) in feats.iter().zip(&got.feats) {
                        same_feature(f, g)?;
                    }
                    return Ok(());
                }
                ask_everything(ctx, &data, &meta, &feats, s as usize)
            });
        }
    }
    // the explorations of the other properties, over files written here
    ctx.skip = OUTSIDE;
    let tier = ctx.tier;
    for round in 0..ctx.t(1, 4) {
        if round > 0 {
            ctx.tier = Tier::Quick;
        }
        CONFORM.set(Some(Turn::Rotate(67 * round)));
        for p in [
            &super::geometry::P01,
            &super::geometry::P02,
            &super::geometry::P03,
            &super::model::P04,
            &super::model::P05,
            &super::model::P06,
            &super::dataset::P07,
            &super::spatial::P09,
            &super::attrs::P14,
            &super::attrs::P15,
            &super::attrs::P16,
        ] {
            let t0 = std::time::Instant::now();
            (p.run)(ctx);
            if std::env::var_os("FCBMC_TIME").is_some() && ctx.tid == 0 {
                eprintln!("{} {:?}", p.id, t0.elapsed());
            }
        }
        CONFORM.set(None);
    }
    ctx.tier = tier;
    ctx.skip = &[];
}

pub const P30: Prop = Prop {
    id: "P30",
    level: "model_checking",
    run,
    case_secs: 60,
    required_outcomes: &[
        "style", "MultiPoint", "MultiLineString", "MultiSurface", "CompositeSurface", "Solid", "MultiSolid", "CompositeSolid",
        "values", "columns", "foreign-schema", "semantic-values", "address", "contact", "crs", "definitions", "all", "attr",
    ],
    assumptions: &[
        "the published format is the schema in src/fbs as it was at the pinned commit, kept in harness/fbs, the FlatBuffers encoding, and the layout of file, spatial index and attribute indices that the repository's documentation describes",
        "empty lists and scalars of the schema's default value may be written or left out; empty lists of lengths may be left out where the type of geometry has no use for them",
        "lists of structs and structs in tables need no alignment beyond four bytes (the library has never aligned them)",
        "the order of themes, objects, extensions and columns among themselves is free",
        "content the format has no room for is left to the known findings of P04, P05 and P06",
    ],
    bounds: |t| json!({
        "ways of writing (256 = 8 independent choices)": Style::N,
        "dataset written in every way": "9 features with 15 columns, all geometry types, templates, appearances, extensions of the schema; all modes; every column's every value asked for",
        "files": match t {
            Tier::Quick => "each file of the quick explorations of P01-P07, P09, P14-P16, one way of writing each",
            Tier::Thorough => "each file of the thorough explorations of P01-P07, P09, P14-P16, and three more ways of writing for each of the quick ones",
        },
    }),
};
