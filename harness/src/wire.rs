//! FlatBuffers as the published schema (a copy of src/fbs) describes them: a reader and a
//! writer of their own, driven by the schema text, sharing nothing with the generated code.

use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    U8,
    U16,
    U32,
    U64,
    I32,
    I64,
    F64,
    Bool,
    Str,
    Enum(String),
    Struct(String),
    Table(String),
    List(Box<Ty>),
}

pub struct Field {
    pub name: String,
    pub ty: Ty,
    /// of a scalar that is not optional
    pub default: Option<Value>,
    pub required: bool,
}

#[derive(Default)]
pub struct Schema {
    pub enums: HashMap<String, Vec<String>>,
    pub structs: HashMap<String, Vec<Field>>,
    pub tables: HashMap<String, Vec<Field>>,
}

pub fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        parse(&[
            include_str!("../fbs/geometry.fbs"),
            include_str!("../fbs/extension.fbs"),
            include_str!("../fbs/header.fbs"),
            include_str!("../fbs/feature.fbs"),
        ])
    })
}

fn parse(files: &[&str]) -> Schema {
    let mut text = String::new();
    for line in files.iter().flat_map(|f| f.lines()) {
        let line = line.split("//").next().unwrap().trim();
        if !line.starts_with("include") && !line.starts_with("root_type") && !line.starts_with("namespace") {
            text.push_str(line);
            text.push('\n');
        }
    }
    let mut decls: Vec<(String, String, String)> = Vec::new();
    for d in text.split('}') {
        let Some((head, body)) = d.split_once('{') else { continue };
        let mut w = head.split([' ', '\n', ':']).filter(|w| !w.is_empty());
        let kind = w.next().expect("kind of a declaration");
        decls.push((kind.into(), w.next().expect("its name").into(), body.into()));
    }
    let mut s = Schema::default();
    for (kind, name, body) in &decls {
        if kind == "enum" {
            let names = body.split(',').map(|n| n.trim().to_string()).filter(|n| !n.is_empty()).collect();
            s.enums.insert(name.clone(), names);
        }
    }
    let kind_of: HashMap<&str, &str> = decls.iter().map(|(k, n, _)| (n.as_str(), k.as_str())).collect();
    fn ty(t: &str, kind_of: &HashMap<&str, &str>) -> Ty {
        if let Some(inner) = t.strip_prefix('[') {
            return Ty::List(Box::new(ty(inner.trim_end_matches(']').trim(), kind_of)));
        }
        match t {
            "ubyte" => Ty::U8,
            "ushort" => Ty::U16,
            "uint" => Ty::U32,
            "ulong" => Ty::U64,
            "int" => Ty::I32,
            "long" => Ty::I64,
            "double" => Ty::F64,
            "bool" => Ty::Bool,
            "string" => Ty::Str,
            _ => match kind_of[t] {
                "enum" => Ty::Enum(t.into()),
                "struct" => Ty::Struct(t.into()),
                _ => Ty::Table(t.into()),
            },
        }
    }
    for (kind, name, body) in &decls {
        if kind == "enum" {
            continue;
        }
        let mut fields = Vec::new();
        for f in body.split(';') {
            let Some((n, rest)) = f.split_once(':') else { continue };
            let required = rest.contains("required");
            let rest = rest.split('(').next().unwrap();
            let (t, d) = match rest.split_once('=') {
                Some((t, d)) => (t.trim(), Some(d.trim())),
                None => (rest.trim(), None),
            };
            let t = ty(t, &kind_of);
            let default = match (&t, d) {
                (_, Some("null")) => None,
                (Ty::Bool, d) => Some(json!(d == Some("true"))),
                (Ty::Enum(e), None) => Some(json!(s.enums[e][0])),
                (Ty::Str | Ty::Struct(_) | Ty::Table(_) | Ty::List(_), _) => None,
                (Ty::F64, d) => Some(json!(d.map_or(0.0, |d| d.parse::<f64>().unwrap()))),
                (_, d) => Some(json!(d.map_or(0, |d| d.parse::<i64>().unwrap()))),
            };
            fields.push(Field { name: n.trim().into(), ty: t, default, required });
        }
        if kind == "struct" {
            s.structs.insert(name.clone(), fields);
        } else {
            s.tables.insert(name.clone(), fields);
        }
    }
    s
}

impl Schema {
    /// (size, alignment) of what stands inline
    fn size(&self, t: &Ty) -> (usize, usize) {
        match t {
            Ty::U8 | Ty::Bool | Ty::Enum(_) => (1, 1),
            Ty::U16 => (2, 2),
            Ty::U32 | Ty::I32 => (4, 4),
            Ty::U64 | Ty::I64 | Ty::F64 => (8, 8),
            Ty::Struct(n) => {
                let (mut at, mut align) = (0, 1);
                for f in &self.structs[n] {
                    let (s, a) = self.size(&f.ty);
                    at = up(at, a) + s;
                    align = align.max(a);
                }
                (up(at, align), align)
            }
            _ => (4, 4),
        }
    }
}

fn up(x: usize, a: usize) -> usize {
    x.div_ceil(a) * a
}

// ---------------------------------------------------------------- reading

struct Reader<'a> {
    s: &'static Schema,
    b: &'a [u8],
}

impl Reader<'_> {
    fn bytes<const N: usize>(&self, p: usize) -> Result<[u8; N], String> {
        // the library has never aligned lists of structs to more than four bytes
        if p % N.min(4) != 0 {
            return Err(format!("a value of {N} bytes at {p} is not aligned"));
        }
        let b = self.b.get(p..p + N).ok_or_else(|| format!("{N} bytes at {p} are outside the buffer"))?;
        Ok(b.try_into().unwrap())
    }
    fn u16(&self, p: usize) -> Result<usize, String> {
        Ok(u16::from_le_bytes(self.bytes(p)?) as usize)
    }
    fn u32(&self, p: usize) -> Result<usize, String> {
        Ok(u32::from_le_bytes(self.bytes(p)?) as usize)
    }
    fn inline(&self, t: &Ty, p: usize) -> Result<Value, String> {
        Ok(match t {
            Ty::U8 => json!(self.bytes::<1>(p)?[0]),
            Ty::U16 => json!(self.u16(p)?),
            Ty::U32 => json!(self.u32(p)?),
            Ty::U64 => json!(u64::from_le_bytes(self.bytes(p)?)),
            Ty::I32 => json!(i32::from_le_bytes(self.bytes(p)?)),
            Ty::I64 => json!(i64::from_le_bytes(self.bytes(p)?)),
            Ty::F64 => json!(f64::from_le_bytes(self.bytes(p)?)),
            Ty::Bool => match self.bytes::<1>(p)?[0] {
                0 => json!(false),
                1 => json!(true),
                v => return Err(format!("a boolean of value {v}")),
            },
            Ty::Enum(e) => {
                let v = self.bytes::<1>(p)?[0] as usize;
                json!(self.s.enums[e].get(v).ok_or_else(|| format!("no value {v} in enum {e}"))?)
            }
            Ty::Struct(n) => {
                let (mut at, mut m) = (0, Map::new());
                for f in &self.s.structs[n] {
                    let (s, a) = self.s.size(&f.ty);
                    at = up(at, a);
                    m.insert(f.name.clone(), self.inline(&f.ty, p + at)?);
                    at += s;
                }
                Value::Object(m)
            }
            Ty::Str => {
                let p = p + self.u32(p)?;
                let n = self.u32(p)?;
                let b = self.b.get(p + 4..p + 4 + n).ok_or("a string leaves the buffer")?;
                if self.b.get(p + 4 + n) != Some(&0) {
                    return Err("a string does not end with a zero".into());
                }
                json!(std::str::from_utf8(b).map_err(|e| e.to_string())?)
            }
            Ty::List(inner) => {
                let p = p + self.u32(p)?;
                let n = self.u32(p)?;
                let (size, align) = self.s.size(inner);
                if n > 0 && (p + 4) % align != 0 && !matches!(**inner, Ty::Struct(_)) {
                    return Err(format!("a list of {inner:?} at {p} is not aligned"));
                }
                if n * size > self.b.len() {
                    return Err(format!("a list of {n} leaves the buffer"));
                }
                Value::Array((0..n).map(|i| self.inline(inner, p + 4 + i * size)).collect::<Result<_, _>>()?)
            }
            Ty::Table(n) => self.table(n, p + self.u32(p)?)?,
        })
    }
    fn table(&self, name: &str, p: usize) -> Result<Value, String> {
        let soff = i32::from_le_bytes(self.bytes(p)?) as i64;
        let vt = p as i64 - soff;
        if vt < 0 {
            return Err("a vtable before the buffer".into());
        }
        let vt = vt as usize;
        let vsize = self.u16(vt)?;
        let tsize = self.u16(vt + 2)?;
        if vt + vsize > self.b.len() || p + tsize > self.b.len() {
            return Err("a table leaves the buffer".into());
        }
        let mut m = Map::new();
        for (k, f) in self.s.tables[name].iter().enumerate() {
            let slot = 4 + 2 * k;
            let at = if slot + 2 <= vsize { self.u16(vt + slot)? } else { 0 };
            if at == 0 {
                if f.required {
                    return Err(format!("{name} has no {}", f.name));
                }
                continue;
            }
            if at + self.s.size(&f.ty).0 > tsize {
                return Err(format!("{} is outside its table {name}", f.name));
            }
            if (p + at) % self.s.size(&f.ty).1 != 0 && !matches!(f.ty, Ty::Struct(_)) {
                return Err(format!("{name}.{} is not aligned", f.name));
            }
            let v = self.inline(&f.ty, p + at).map_err(|e| format!("{name}.{}: {e}", f.name))?;
            m.insert(f.name.clone(), v);
        }
        Ok(Value::Object(m))
    }
}

/// The tree of a size-prefixed buffer.
pub fn decode(root: &str, b: &[u8]) -> Result<Value, String> {
    let r = Reader { s: schema(), b };
    if r.u32(0)? + 4 != b.len() {
        return Err(format!("the size prefix says {} of {} bytes", r.u32(0)?, b.len() - 4));
    }
    r.table(root, 4 + r.u32(4)?)
}

/// Without what says nothing: empty lists, and scalars of the value they have anyway.
pub fn norm(table: &str, tree: &Value) -> Result<Value, String> {
    let fields = &schema().tables[table];
    let mut m = Map::new();
    for (k, v) in tree.as_object().ok_or_else(|| format!("{table} is no table: {tree}"))? {
        let f = fields.iter().find(|f| f.name == *k).ok_or_else(|| format!("{table} has no member {k}"))?;
        if Some(v) == f.default.as_ref() {
            continue;
        }
        let v = match (&f.ty, v) {
            (Ty::List(_), Value::Array(a)) if a.is_empty() => continue,
            (Ty::List(inner), Value::Array(a)) => match &**inner {
                Ty::Table(t) => Value::Array(a.iter().map(|x| norm(t, x)).collect::<Result<_, _>>()?),
                _ => v.clone(),
            },
            // attributes by name
            (Ty::List(_), Value::Object(o)) if o.is_empty() => continue,
            (Ty::Table(t), v) => norm(t, v)?,
            (_, v) => v.clone(),
        };
        m.insert(k.clone(), v);
    }
    Ok(Value::Object(m))
}

// ---------------------------------------------------------------- writing

/// Choices the format leaves to whoever writes it.
#[derive(Clone, Copy, Debug)]
pub struct Style(pub u16);

impl Style {
    pub const N: u16 = 256;
    fn bit(self, k: u16) -> bool {
        self.0 >> k & 1 == 1
    }
    /// scalars of the value they have anyway are written
    pub fn explicit(self) -> bool {
        self.bit(0)
    }
    /// empty lists of lengths are left out
    pub fn no_empties(self) -> bool {
        self.bit(1)
    }
    pub fn vtable_after(self) -> bool {
        self.bit(2)
    }
    pub fn share_vtables(self) -> bool {
        self.bit(3)
    }
    /// members of a later version of the schema follow the known ones
    pub fn newer(self) -> bool {
        self.bit(4)
    }
    /// what a table refers to follows it from last to first
    pub fn reversed(self) -> bool {
        self.bit(5)
    }
    /// members stand in the order of the schema, not by size; and the buffer is padded to 8 bytes
    pub fn declared(self) -> bool {
        self.bit(6)
    }
    /// every object brings the columns of its attributes
    pub fn own_columns(self) -> bool {
        self.bit(7)
    }
}

struct Builder {
    s: &'static Schema,
    b: Vec<u8>,
    style: Style,
    vtables: HashMap<Vec<u8>, usize>,
}

/// Lists of lengths, which the geometry of shallower types has no use for.
const LENGTHS: [&str; 5] = ["solids", "shells", "surfaces", "strings", "vertices"];

impl Builder {
    fn pad(&mut self, align: usize, ahead: usize) {
        while (self.b.len() + ahead) % align != 0 {
            self.b.push(0);
        }
    }
    fn patch(&mut self, at: usize, to: usize) {
        let v = (to - at) as u32;
        self.b[at..at + 4].copy_from_slice(&v.to_le_bytes());
    }
    fn scalar(&self, t: &Ty, v: &Value, out: &mut Vec<u8>) {
        let int = || v.as_i64().map(|x| x as u64).or(v.as_u64()).unwrap_or_else(|| panic!("{t:?} from {v}"));
        match t {
            Ty::U8 => out.push(int() as u8),
            Ty::Bool => out.push(v.as_bool().unwrap() as u8),
            Ty::Enum(e) => {
                let k = self.s.enums[e].iter().position(|n| Some(n.as_str()) == v.as_str());
                out.push(k.unwrap_or_else(|| panic!("{v} in {e}")) as u8)
            }
            Ty::U16 => out.extend((int() as u16).to_le_bytes()),
            Ty::U32 => out.extend((int() as u32).to_le_bytes()),
            Ty::I32 => out.extend((int() as i32).to_le_bytes()),
            Ty::U64 => out.extend(int().to_le_bytes()),
            Ty::I64 => out.extend(int().to_le_bytes()),
            Ty::F64 => out.extend(v.as_f64().unwrap_or(f64::NAN).to_le_bytes()),
            Ty::Struct(n) => {
                let start = out.len();
                let (size, _) = self.s.size(t);
                for f in &self.s.structs[n] {
                    let a = self.s.size(&f.ty).1;
                    while (out.len() - start) % a != 0 {
                        out.push(0);
                    }
                    self.scalar(&f.ty, &v[&f.name], out);
                }
                out.resize(start + size, 0);
            }
            _ => unreachable!(),
        }
    }
    fn string(&mut self, s: &str) -> usize {
        self.pad(4, 0);
        let at = self.b.len();
        self.b.extend((s.len() as u32).to_le_bytes());
        self.b.extend(s.as_bytes());
        self.b.push(0);
        at
    }
    fn child(&mut self, t: &Ty, v: &Value) -> usize {
        match t {
            Ty::Str => self.string(v.as_str().unwrap_or_else(|| panic!("string from {v}"))),
            Ty::Table(n) => self.table(n, v),
            Ty::List(inner) => {
                let a = v.as_array().unwrap_or_else(|| panic!("list from {v}"));
                let (_, align) = self.s.size(inner);
                self.pad(align.max(4), 4);
                let at = self.b.len();
                self.b.extend((a.len() as u32).to_le_bytes());
                if matches!(**inner, Ty::Str | Ty::Table(_) | Ty::List(_)) {
                    self.b.resize(at + 4 + 4 * a.len(), 0);
                    let order: Vec<usize> = if self.style.reversed() { (0..a.len()).rev().collect() } else { (0..a.len()).collect() };
                    for i in order {
                        let to = self.child(inner, &a[i]);
                        self.patch(at + 4 + 4 * i, to);
                    }
                } else {
                    let mut out = std::mem::take(&mut self.b);
                    a.iter().for_each(|x| self.scalar(inner, x, &mut out));
                    self.b = out;
                }
                at
            }
            _ => unreachable!(),
        }
    }
    fn table(&mut self, name: &str, tree: &Value) -> usize {
        let s = self.s;
        let fields = &s.tables[name];
        let tree = tree.as_object().unwrap_or_else(|| panic!("{name} from {tree}"));
        // (slot, size, alignment)
        let mut present: Vec<(usize, usize, usize)> = Vec::new();
        for (k, f) in fields.iter().enumerate() {
            let (size, align) = s.size(&f.ty);
            let write = match (tree.get(&f.name), &f.default) {
                (Some(v), Some(d)) => v != d || self.style.explicit(),
                (None, Some(_)) => self.style.explicit(),
                (Some(Value::Array(a)), _) if a.is_empty() && self.style.no_empties() => !LENGTHS.contains(&f.name.as_str()),
                (Some(_), None) => true,
                (None, None) => false,
            };
            if write {
                present.push((k, size, align));
            }
        }
        let nslots = if self.style.newer() { fields.len() + 2 } else { fields.len() };
        if self.style.newer() {
            present.push((fields.len(), 8, 8));
            present.push((fields.len() + 1, 4, 4));
        }
        let mut order = present.clone();
        if !self.style.declared() {
            order.sort_by_key(|p| std::cmp::Reverse(p.2));
        }
        let mut at = 4;
        let mut slots = vec![0usize; nslots];
        for (k, size, align) in &order {
            at = up(at, *align);
            slots[*k] = at;
            at += size;
        }
        let tsize = at;
        if !self.style.explicit() {
            while slots.last() == Some(&0) {
                slots.pop();
            }
        }
        let mut vt = Vec::new();
        vt.extend((4 + 2 * slots.len() as u16).to_le_bytes());
        vt.extend((tsize as u16).to_le_bytes());
        slots.iter().for_each(|s| vt.extend((*s as u16).to_le_bytes()));
        let found = self.vtables.get(&vt).copied().filter(|_| self.style.share_vtables());
        let mut vpos = found;
        if vpos.is_none() && !self.style.vtable_after() {
            self.pad(2, 0);
            vpos = Some(self.b.len());
            self.b.extend(&vt);
        }
        self.pad(8, 0);
        let at = self.b.len();
        self.b.resize(at + tsize, 0);
        if vpos.is_none() {
            self.pad(2, 0);
            vpos = Some(self.b.len());
            self.b.extend(&vt);
        }
        let vpos = vpos.unwrap();
        self.vtables.insert(vt, vpos);
        let soff = (at as i64 - vpos as i64) as i32;
        self.b[at..at + 4].copy_from_slice(&soff.to_le_bytes());
        let mut later = Vec::new();
        for (k, size, _) in &present {
            let p = at + slots[*k];
            let Some(f) = fields.get(*k) else {
                if *size == 8 {
                    self.b[p..p + 8].copy_from_slice(&0x0102_0304_0506_0708u64.to_le_bytes());
                } else {
                    later.push((p, &Ty::Str, json!("of a later version")));
                }
                continue;
            };
            match &f.ty {
                Ty::Str | Ty::Table(_) | Ty::List(_) => later.push((p, &f.ty, tree[&f.name].clone())),
                t => {
                    let mut out = Vec::new();
                    self.scalar(t, tree.get(&f.name).or(f.default.as_ref()).unwrap(), &mut out);
                    self.b[p..p + out.len()].copy_from_slice(&out);
                }
            }
        }
        if self.style.reversed() {
            later.reverse();
        }
        for (p, t, v) in later {
            let to = self.child(t, &v);
            self.patch(p, to);
        }
        at
    }
}

/// A size-prefixed buffer of the tree.
pub fn encode(root: &str, tree: &Value, style: Style) -> Vec<u8> {
    let mut b = Builder { s: schema(), b: vec![0; 8], style, vtables: HashMap::new() };
    let at = b.table(root, tree);
    b.patch(4, at);
    b.pad(if style.declared() { 8 } else { 4 }, 0);
    let n = (b.b.len() - 4) as u32;
    b.b[0..4].copy_from_slice(&n.to_le_bytes());
    b.b
}
