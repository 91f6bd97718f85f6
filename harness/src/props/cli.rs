//! P24, P25: the command line tool. The real binary is run as a process for every case.

use super::attrs::{ask, held, ids_where, in_file_order, key_of, satisfies};
use super::dataset::nth_feature;
use super::model::norm_meta;
use super::Prop;
use crate::core::{Ctx, Tier};
use crate::data::*;
use fcb_core::header_generated::ColumnType as C;
use fcb_core::Operator;
use serde_json::{json, Map, Value};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

const OPS: [Operator; 6] =
    [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Lt, Operator::Ge, Operator::Le];

/// A directory of its own for one case, removed afterwards.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!(
            "fcbmc-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        fs::create_dir(&d).expect("scratch directory");
        Scratch(d)
    }
    fn at(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    fn file(&self, name: &str, content: &[u8]) -> PathBuf {
        let p = self.at(name);
        fs::write(&p, content).expect("scratch file");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

enum To<'a> {
    Pipe,
    File(&'a Path),
    Closed,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}

impl Ran {
    /// Neither a signal nor a panic.
    fn orderly(&self) -> Result<(), String> {
        if self.signal.is_some() || self.code == Some(101) {
            return Err(format!("crashed ({:?}, signal {:?}): {}", self.code, self.signal, self.tail()));
        }
        Ok(())
    }
    fn succeeded(&self) -> Result<(), String> {
        self.orderly()?;
        if self.code != Some(0) {
            return Err(format!("ended with status {:?}: {}", self.code, self.tail()));
        }
        Ok(())
    }
    /// A failure status and a message, no crash.
    fn failed(&self) -> Result<(), String> {
        self.orderly()?;
        if self.code == Some(0) {
            return Err("ended with success".into());
        }
        if self.err.trim().is_empty() {
            return Err("failed without a message".into());
        }
        Ok(())
    }
    fn tail(&self) -> String {
        let n = self.err.chars().count();
        self.err.chars().skip(n.saturating_sub(200)).collect()
    }
}

fn tool() -> &'static str {
    static P: OnceLock<String> = OnceLock::new();
    P.get_or_init(|| std::env::var("FCB_CLI").expect("FCB_CLI names the binary under check"))
}

fn run(args: &[&str], input: Option<&[u8]>, to: To, limit: Option<u64>) -> Ran {
    let mut c = Command::new(tool());
    c.args(args).stderr(Stdio::piped());
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut keep = None;
    match to {
        To::Pipe => {
            c.stdout(Stdio::piped());
        }
        To::File(p) => {
            c.stdout(fs::OpenOptions::new().write(true).create(true).truncate(!p.starts_with("/dev")).open(p).expect("output"));
        }
        To::Closed => {
            let (r, w) = pipe();
            drop(r);
            keep = Some(w);
            c.stdout(keep.as_ref().unwrap().try_clone().unwrap());
        }
    }
    if let Some(l) = limit {
        unsafe {
            c.pre_exec(move || {
                let lim = libc::rlimit { rlim_cur: l, rlim_max: l };
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                if libc::setrlimit(libc::RLIMIT_FSIZE, &lim) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let mut child = c.spawn().expect("the command line tool starts");
    drop(keep);
    let mut feeder = None;
    if let Some(data) = input {
        let mut pipe = child.stdin.take().unwrap();
        if data.len() < 30_000 {
            let _ = pipe.write_all(data);
        } else {
            let data = data.to_vec();
            feeder = Some(std::thread::spawn(move || {
                let _ = pipe.write_all(&data);
            }));
        }
    }
    let mut err_pipe = child.stderr.take().unwrap();
    let mut out = Vec::new();
    // diagnostics are short: they fit into the pipe
    if let Some(mut p) = child.stdout.take() {
        let _ = p.read_to_end(&mut out);
    }
    let mut err = Vec::new();
    let _ = err_pipe.read_to_end(&mut err);
    let st = child.wait().expect("wait");
    if let Some(f) = feeder {
        let _ = f.join();
    }
    Ran {
        code: st.code(),
        signal: st.signal(),
        out,
        err: String::from_utf8_lossy(&err).into_owned(),
    }
}

fn pipe() -> (fs::File, fs::File) {
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    unsafe { (fs::File::from_raw_fd(fds[0]), fs::File::from_raw_fd(fds[1])) }
}

fn s(p: &Path) -> &str {
    p.to_str().unwrap()
}

/// The commands that read a file, on this content: success or failure, no crash, no endless output.
pub fn use_file(content: &[u8]) -> Result<[bool; 2], String> {
    let d = Scratch::new();
    let f = d.file("in.fcb", content);
    let info = run(&["info", "-i", s(&f)], None, To::Pipe, None);
    info.orderly().map_err(|e| format!("info {e}"))?;
    let deser = run(&["deser", "-i", s(&f), "-o", s(&d.at("out"))], None, To::Pipe, Some(4 << 20));
    deser.orderly().map_err(|e| format!("deser {e}"))?;
    for r in [&info, &deser] {
        if r.code != Some(0) && r.err.trim().is_empty() {
            return Err("failed without a message".into());
        }
    }
    Ok([info, deser].map(|r| r.code == Some(0)))
}

// ------------------------------------------------------------------ datasets

/// Whether the tool converts a text sequence, and what it made back again; or it must refuse.
pub fn convert_text(content: &[u8]) -> Result<bool, String> {
    let d = Scratch::new();
    let f = d.file("in.jsonl", content);
    let o = d.0.join("out.fcb");
    let ser = run(&["ser", "-i", s(&f), "-o", s(&o), "-A"], None, To::Pipe, None);
    let deser = match ser.code {
        Some(0) => Some(run(&["deser", "-i", s(&o), "-o", "-"], None, To::Pipe, None)),
        _ => None,
    };
    for r in std::iter::once(&ser).chain(&deser) {
        r.orderly()?;
    }
    Ok(ser.code == Some(0))
}

#[derive(Clone)]
pub struct Data {
    pub meta: Value,
    pub feats: Vec<Value>,
}

impl Data {
    fn text(&self) -> Vec<u8> {
        let mut t = self.meta.to_string();
        t.push('\n');
        for f in &self.feats {
            t.push_str(&f.to_string());
            t.push('\n');
        }
        t.into_bytes()
    }
    fn place(&self, v: &Value) -> [f64; 3] {
        let t = &self.meta["transform"];
        [0, 1, 2].map(|i| {
            v[i].as_i64().unwrap() as f64 * t["scale"][i].as_f64().unwrap() + t["translate"][i].as_f64().unwrap()
        })
    }
    fn vertices<'a>(&'a self, f: &'a Value) -> impl Iterator<Item = [f64; 3]> + 'a {
        f["vertices"].as_array().unwrap().iter().map(|v| self.place(v))
    }
    fn extent(&self, feats: &[Value]) -> [f64; 6] {
        let mut e = [f64::MAX, f64::MAX, f64::MAX, f64::MIN, f64::MIN, f64::MIN];
        for f in feats {
            for v in self.vertices(f) {
                for i in 0..3 {
                    e[i] = e[i].min(v[i]);
                    e[i + 3] = e[i + 3].max(v[i]);
                }
            }
        }
        if e[0] == f64::MAX {
            [0.0; 6]
        } else {
            e
        }
    }
}

pub fn rich() -> Data {
    let mut meta = base_meta();
    meta["transform"] = json!({"scale": [0.5, 0.25, 1.0], "translate": [-10.0, 100.0, 3.0]});
    meta["metadata"] = json!({
        "geographicalExtent": [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], "identifier": "id-1", "title": "T \u{1F600}",
        "referenceDate": "2024-02-29", "referenceSystem": "https://www.opengis.net/def/crs/EPSG/0/7415",
        "pointOfContact": {"contactName": "C \u{e9}", "emailAddress": "a@b"}});
    meta["geometry-templates"] = json!({
        "templates": [{"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2]]]}],
        "vertices-templates": [[0.0, 0.5, 1.0], [1e-3, 2.0, -3.0], [4.0, 5.0, 6.0]]});
    meta["appearance"] = json!({
        "materials": [{"name": "m", "isSmooth": true}],
        "textures": [{"type": "PNG", "image": "i.png"}],
        "vertices-texture": [[0.0, 0.5]]});
    let feats = vec![
        feature("a", json!({
            "a": {"type": "Building", "children": ["a-1"],
                "attributes": {"i": 1, "s": "x,\u{e9}\"y", "b": true, "d": 0.5, "t": "2024-02-29T12:00:00Z", "j": {"k": [1, null, "z"]}},
                "geometry": [{"type": "Solid", "lod": "2.2", "boundaries": [[[[0, 1, 2]], [[2, 1, 0]]]],
                    "semantics": {"surfaces": [{"type": "RoofSurface", "slope": 1.5}, {"type": "+Extra", "parent": 0}], "values": [[0, 1]]},
                    "material": {"th": {"values": [[0, null]]}},
                    "texture": {"th": {"values": [[[[0, 0, 0, 0]], [[null]]]]}}}]},
            "a-1": {"type": "BuildingPart", "parents": ["a"], "attributes": {"i": -7, "s": ""}}}),
            json!([[0, 0, 0], [4, 0, 1], [4, 4, 2]])),
        feature("b", json!({
            "b": {"type": "+Thing", "attributes": {"i": null, "d": 2, "u": "only here"},
                "geometry": [{"type": "GeometryInstance", "template": 0, "boundaries": [0],
                    "transformationMatrix": [1.0, 0.0, 0.0, 5.0, 0.0, 1.0, 0.0, 0.5, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0]}]}}),
            json!([[-3, 8, 1]])),
        feature("c", json!({"c": {"type": "CityObjectGroup"}}), json!([])),
        feature("d", json!({
            "d": {"type": "Road", "attributes": {"i": 1, "b": false, "d": -1e300, "s": "z".repeat(60)},
                "geometry": [{"type": "MultiPoint", "lod": "0", "boundaries": [0, 1]},
                             {"type": "MultiLineString", "lod": "0", "boundaries": [[0, 1], [1, 0]]}]}}),
            json!([[9, 9, 9], [-9, -9, -9]])),
    ];
    Data { meta, feats }
}

fn grid(n: usize) -> Data {
    let mut meta = base_meta();
    meta["transform"] = json!({"scale": [0.5, 0.5, 0.5], "translate": [1.0, 2.0, 0.0]});
    let feats = (0..n)
        .map(|k| {
            let mut f = point_feature(&format!("f{k}"), (k * 7 % 10) as i64 - 4, (k * 3 % 7) as i64, Value::Null);
            let id = format!("f{k}");
            f["CityObjects"][&id]["attributes"] = json!({"i": k as i64 / 2, "s": (["", "a", "ab"][k % 3]), "b": k % 4 == 1});
            f
        })
        .collect();
    Data { meta, feats }
}

fn sets() -> Vec<Data> {
    vec![
        Data { meta: base_meta(), feats: vec![] },
        Data { meta: base_meta(), feats: vec![nth_feature(0, 3)] },
        rich(),
        Data { meta: rich().meta, feats: (0..5).map(|k| nth_feature(k, k)).collect() },
        grid(40),
    ]
}

/// Checks decoded text against what was given.
fn text_back(ctx: &mut Ctx, d: &Data, feats: &[Value], ge: bool, sorted: bool, text: &[u8]) -> Result<(), String> {
    let text = std::str::from_utf8(text).map_err(|_| "the decoded text is not UTF-8")?;
    let mut lines = text.split_terminator('\n');
    let meta: Value = serde_json::from_str(lines.next().unwrap_or(""))
        .map_err(|e| format!("the first line is not the metadata: {e}"))?;
    let mut want = norm_meta(&d.meta);
    if ge {
        want["metadata"]["geographicalExtent"] = json!(d.extent(feats));
    }
    if let Some(d) = diff(&want, &norm_meta(&meta)) {
        return Err(format!("metadata {d}"));
    }
    ctx.trans(1);
    let got: Vec<Value> = lines
        .map(|l| serde_json::from_str(l).map_err(|e| format!("line {}: {e}", short(&json!(l)))))
        .collect::<Result<_, _>>()?;
    if got.len() != feats.len() {
        return Err(format!("{} features given, {} decoded", feats.len(), got.len()));
    }
    for (k, w) in feats.iter().enumerate() {
        let f = if sorted {
            let mut same = got.iter().filter(|f| f["id"] == w["id"]);
            let f = same.next().ok_or(format!("feature {} is gone", w["id"]))?;
            if same.next().is_some() {
                return Err(format!("feature {} comes twice", w["id"]));
            }
            f
        } else {
            &got[k]
        };
        same_feature(w, f).map_err(|e| format!("feature {} {e}", w["id"]))?;
        ctx.trans(1);
    }
    Ok(())
}

/// One way of saying yes, no or nothing about an option.
const SWITCH: [Option<&str>; 3] = [None, Some("true"), Some("false")];

fn ser_args(index: usize, bf: Option<&'static str>, sp: usize, ge: usize) -> Vec<&'static str> {
    let mut a = vec![];
    if let Some(v) = SWITCH[sp] {
        a.extend(["-s", v]);
    }
    if let Some(v) = SWITCH[ge] {
        a.extend(["--ge", v]);
    }
    match index {
        0 => {}
        1 => a.extend(["-A", "true"]),
        2 => a.extend(["-a", "i"]),
        3 => a.extend(["--attr-index", "s,i"]),
        4 => a.extend(["-a", " i , s ,", "--index-all-attributes", "false"]),
        _ => a.extend(["-A"]),
    }
    if let Some(b) = bf {
        a.extend(["--attr-branching-factor", b]);
    }
    a
}

fn run_round_trip(ctx: &mut Ctx) {
    let sets = sets();
    let bfs: &[Option<&str>] = ctx.t(
        &[None, Some("2"), Some("65535")],
        &[None, Some("0"), Some("1"), Some("2"), Some("3"), Some("16"), Some("256"), Some("65535")],
    );
    for (di, d) in sets.iter().enumerate() {
        for index in 0..6 {
            for bf in bfs {
                for sp in 0..3 {
                    for ge in 0..3 {
                        ctx.case(|| format!("options:{di}:{:?}", ser_args(index, *bf, sp, ge)), |ctx| {
                            ctx.outcome("options");
                            let dir = Scratch::new();
                            let (i, o, t) = (dir.file("in", &d.text()), dir.at("out.fcb"), dir.at("back"));
                            let mut a = vec!["ser", "-i", s(&i), "-o", s(&o)];
                            a.extend(ser_args(index, *bf, sp, ge));
                            let r = run(&a, None, To::Pipe, None);
                            r.succeeded().map_err(|e| format!("ser {e}"))?;
                            if !r.out.is_empty() {
                                return Err("ser to a file printed on standard output".into());
                            }
                            let r = run(&["deser", "-i", s(&o), "-o", s(&t)], None, To::Pipe, None);
                            r.succeeded().map_err(|e| format!("deser {e}"))?;
                            if !r.out.is_empty() {
                                return Err("deser to a file printed on standard output".into());
                            }
                            ctx.state(&fs::read(&o).unwrap());
                            text_back(ctx, d, &d.feats, ge != 2, sp != 2, &fs::read(&t).unwrap())?;
                            ctx.trace();
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // every choice of channels
    for (di, d) in sets.iter().enumerate() {
        for (oi, opts) in [vec![], ser_args(1, Some("2"), 1, 2), ser_args(3, None, 2, 1)].into_iter().enumerate() {
            for w in 0..16u32 {
                ctx.case(|| format!("channels:{di}:{oi}:{w}"), |ctx| {
                    ctx.outcome("channels");
                    let dir = Scratch::new();
                    let (i, o, t) = (dir.file("in", &d.text()), dir.at("out.fcb"), dir.at("back"));
                    let convert = |cmd: &str, from: &Path, to: &Path, stdin: bool, stdout: bool, more: &[&str]| {
                        let data = fs::read(from).unwrap();
                        let mut a = vec![cmd, "-i", if stdin { "-" } else { s(from) }, "-o", if stdout { "-" } else { s(to) }];
                        a.extend(more);
                        let r = run(&a, stdin.then_some(&data[..]), To::Pipe, None);
                        r.succeeded().map_err(|e| format!("{cmd} {e}"))?;
                        if stdout {
                            Ok(r.out)
                        } else if r.out.is_empty() {
                            fs::read(to).map_err(|e| e.to_string())
                        } else {
                            Err(format!("{cmd} to a file printed on standard output"))
                        }
                    };
                    let fcb = convert("ser", &i, &o, w & 1 != 0, w & 2 != 0, &opts)?;
                    fs::write(&o, &fcb).unwrap();
                    let text = convert("deser", &o, &t, w & 4 != 0, w & 8 != 0, &[])?;
                    text_back(ctx, d, &d.feats, oi != 1, oi != 2, &text)?;
                    // what was read back gives the same again
                    let second = dir.file("second", &text);
                    let o2 = dir.at("second.fcb");
                    let fcb2 = convert("ser", &second, &o2, w & 1 != 0, w & 2 != 0, &opts)?;
                    fs::write(&o2, &fcb2).unwrap();
                    let text2 = convert("deser", &o2, &t, w & 4 != 0, w & 8 != 0, &[])?;
                    text_back(ctx, d, &d.feats, oi != 1, oi != 2, &text2)?;
                    ctx.trace();
                    Ok(())
                });
            }
        }
    }
    // attributes, semantic attributes and wider values that turn up late
    for n in ctx.t(vec![2usize, 999, 1000, 1001, 1100], vec![1, 2, 3, 10, 99, 100, 101, 500, 999, 1000, 1001, 1002, 1100, 2049, 5000]) {
        for what in 0..6 {
            for index in [0, 1] {
                ctx.case(|| format!("late:{n}:{what}:{index}"), |ctx| {
                    ctx.outcome("late");
                    let mut d = Data { meta: base_meta(), feats: (0..n).map(|k| point_feature(&format!("f{k}"), k as i64 % 50, k as i64 / 50, json!({"v": k as i64}))).collect() };
                    let id = format!("f{}", n - 1);
                    let o = &mut d.feats[n - 1]["CityObjects"][&id];
                    match what {
                        0 => o["attributes"]["late"] = json!("only here"),
                        1 => o["attributes"]["v"] = json!(0.5),
                        2 => o["attributes"]["v"] = json!("text"),
                        3 => o["attributes"]["v"] = json!(u64::MAX),
                        4 => o["attributes"]["v"] = json!({"a": [1, 2]}),
                        _ => {
                            o["geometry"] = json!([{"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 0, 0]]],
                                "semantics": {"surfaces": [{"type": "RoofSurface", "slope": 1.5, "name": "late"}], "values": [0]}}]);
                        }
                    }
                    let dir = Scratch::new();
                    let (i, o) = (dir.file("in", &d.text()), dir.at("out.fcb"));
                    let mut a = vec!["ser", "-i", s(&i), "-o", s(&o)];
                    a.extend(ser_args(index, None, 0, 0));
                    run(&a, None, To::Pipe, None).succeeded().map_err(|e| format!("ser {e}"))?;
                    let r = run(&["deser", "-i", s(&o), "-o", "-"], None, To::Pipe, None);
                    r.succeeded().map_err(|e| format!("deser {e}"))?;
                    text_back(ctx, &d, &d.feats, true, true, &r.out)?;
                    ctx.trace();
                    Ok(())
                });
            }
        }
    }
    // the other formats hold the same document
    for (di, d) in sets.iter().enumerate() {
        for bson in [false, true] {
            for w in 0..4u32 {
                ctx.case(|| format!("{}:{di}:{w}", if bson { "bson" } else { "cbor" }), |ctx| {
                    ctx.outcome("other format");
                    let mut doc = d.meta.clone();
                    let mut vs = vec![];
                    for f in &d.feats {
                        for (k, v) in f["CityObjects"].as_object().unwrap() {
                            doc["CityObjects"][k] = v.clone();
                        }
                        vs.extend(f["vertices"].as_array().unwrap().iter().cloned());
                    }
                    doc["vertices"] = json!(vs);
                    let dir = Scratch::new();
                    let text = doc.to_string().into_bytes();
                    let (i, o) = (dir.file("in", &text), dir.at("out"));
                    let (stdin, stdout) = (w & 1 != 0, w & 2 != 0);
                    let a = [if bson { "bson" } else { "cbor" }, "-i", if stdin { "-" } else { s(&i) }, "-o", if stdout { "-" } else { s(&o) }];
                    let r = run(&a, stdin.then_some(&text[..]), To::Pipe, None);
                    r.succeeded()?;
                    let bytes = if stdout { r.out } else { fs::read(&o).unwrap() };
                    let back: Value = if bson {
                        let b = bson::Document::from_reader(&bytes[..]).map_err(|e| format!("the output is no BSON: {e}"))?;
                        bson::from_document(b).map_err(|e| e.to_string())?
                    } else {
                        serde_cbor::from_slice(&bytes).map_err(|e| format!("the output is no CBOR: {e}"))?
                    };
                    let (want, back) = if bson { (norm_meta(&doc), norm_meta(&back)) } else { (doc, back) };
                    if let Some(d) = diff(&want, &back) {
                        return Err(d);
                    }
                    ctx.trace();
                    Ok(())
                });
            }
        }
    }
}

// ------------------------------------------------------------------------ P25

fn attribute_data() -> (Data, Vec<(&'static str, C, Vec<Value>)>) {
    let cols = vec![
        ("i", C::Long, vec![json!(-1), json!(0), json!(3)]),
        ("s", C::String, vec![json!(""), json!("a"), json!("ab")]),
        ("b", C::Bool, vec![json!(false), json!(true)]),
        ("d", C::Double, vec![json!(-0.5), json!(0.25), json!(1e9)]),
    ];
    let mut d = grid(0);
    for k in 0..18usize {
        let mut a = Map::new();
        for (c, (name, _, vs)) in cols.iter().enumerate() {
            if (k + c) % 5 != 4 {
                a.insert(name.to_string(), vs[(k / (c + 1)) % vs.len()].clone());
            }
        }
        d.feats.push(super::attrs::attr_feature(k, &[a]));
    }
    (d, cols)
}

/// The lines of the summary that say something about the file.
fn summary(out: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(out).lines().map(|l| l.trim().to_string()).filter(|l| !l.starts_with("File size")).collect()
}

fn run_options(ctx: &mut Ctx) {
    // boxes
    let mut d = Data { meta: base_meta(), feats: vec![] };
    d.meta["transform"] = json!({"scale": [0.5, 0.5, 1.0], "translate": [10.0, -2.0, 0.0]});
    for (k, b) in [[0, 0, 0, 0], [1, 0, 1, 0], [2, 2, 2, 2], [0, 0, 2, 2], [1, 1, 2, 1], [-1, 2, 0, 3], [3, 3, 3, 3]].iter().enumerate() {
        d.feats.push(box_feature(&format!("f{k}"), *b));
    }
    d.feats.push(feature("empty", json!({"empty": {"type": "CityObjectGroup"}}), json!([])));
    let ticks: Vec<f64> = ctx.t((-1..=3).map(f64::from).collect(), (-4..=8).map(|i| f64::from(i) / 2.0).collect());
    let n = ticks.len();
    for w in 0..n.pow(4) {
        let t = [w % n, w / n % n, w / n / n % n, w / n / n / n];
        let b = [ticks[t[0]] * 0.5 + 10.0, ticks[t[1]] * 0.5 - 2.0, ticks[t[2]] * 0.5 + 10.0, ticks[t[3]] * 0.5 - 2.0];
        if (t[0] > t[2] || t[1] > t[3]) && w % 7 != 0 {
            continue;
        }
        ctx.case(|| format!("bbox:{b:?}"), |ctx| {
            let dir = Scratch::new();
            let (i, o) = (dir.file("in", &d.text()), dir.at("out.fcb"));
            let text = format!("{},{}, {},{}", b[0], b[1], b[2], b[3]);
            let sp = ["-s", ["true", "false"][w % 2]];
            let r = run(&["ser", "-i", s(&i), "-o", s(&o), sp[0], sp[1], &format!("--bbox={text}")], None, To::Pipe, None);
            if b[0] > b[2] || b[1] > b[3] {
                ctx.outcome("box refused");
                return r.failed();
            }
            r.succeeded()?;
            let data = Arc::new(fs::read(&o).unwrap());
            ctx.state(&*data);
            let got = read_mode(&data, Mode::Seek, &Sel::All)?;
            let ids = got.ids();
            let mut kept = vec![];
            for f in &d.feats {
                let inside = d.vertices(f).any(|v| v[0] >= b[0] && v[0] <= b[2] && v[1] >= b[1] && v[1] <= b[3]);
                let e = d.extent(std::slice::from_ref(f));
                let apart = d.vertices(f).next().is_none() || e[0] > b[2] || e[3] < b[0] || e[1] > b[3] || e[4] < b[1];
                let has = ids.iter().any(|i| f["id"] == **i);
                ctx.outcome(if inside { "inside" } else if apart { "apart" } else { "crossing" });
                ctx.trans(1);
                if inside && !has {
                    return Err(format!("feature {} with a vertex in the box is missing", f["id"]));
                }
                if apart && has {
                    return Err(format!("feature {} apart from the box is kept", f["id"]));
                }
                if has {
                    kept.push(f.clone());
                    let g = got.feats.iter().find(|g| g["id"] == f["id"]).unwrap();
                    same_feature(f, g)?;
                }
            }
            if kept.len() != ids.len() {
                return Err(format!("features kept: {ids:?}"));
            }
            // the summary is that of what was kept
            let r = run(&["info", "-i", s(&o)], None, To::Pipe, None);
            r.succeeded()?;
            let lines = summary(&r.out);
            let e = d.extent(&kept);
            for l in [
                format!("Features count: {}", kept.len()),
                format!("Min: [{}, {}, {}]", e[0], e[1], e[2]),
                format!("Max: [{}, {}, {}]", e[3], e[4], e[5]),
            ] {
                if !lines.contains(&l) {
                    return Err(format!("the summary does not say {l:?}: {lines:?}"));
                }
            }
            ctx.trace();
            Ok(())
        });
    }
    for b in ["", "1", "1,2,3", "1,2,3,4,5", "a,1,2,3", "1,2,3,", "1;2;3;4", "2,0,1,1", "0,2,1,1"] {
        ctx.case(|| format!("bad-bbox:{b}"), |ctx| {
            ctx.outcome("box refused");
            let dir = Scratch::new();
            let (i, o) = (dir.file("in", &d.text()), dir.at("out.fcb"));
            run(&["ser", "-i", s(&i), "-o", s(&o), &format!("--bbox={b}")], None, To::Pipe, None).failed()
        });
    }

    // attribute options: what is named can be queried, and is listed
    let (ad, cols) = attribute_data();
    let bfs: &[Option<&str>] = ctx.t(&[None, Some("2"), Some("65535")], &[None, Some("1"), Some("2"), Some("3"), Some("16"), Some("17"), Some("256"), Some("65535")]);
    for set in 0..=(1 << cols.len()) {
        for bf in bfs {
            for sp in ["true", "false"] {
                for style in 0..2 {
                    ctx.case(|| format!("attributes:{set:05b}:{bf:?}:{sp}:{style}"), |ctx| {
                        ctx.outcome("attributes");
                        let all = set == 1 << cols.len();
                        let mut names: Vec<&str> = cols.iter().enumerate().filter(|(c, _)| all || set >> c & 1 == 1).map(|(_, c)| c.0).collect();
                        if style == 1 {
                            names.reverse();
                        }
                        let dir = Scratch::new();
                        let (i, o) = (dir.file("in", &ad.text()), dir.at("out.fcb"));
                        let list = names.join(if style == 0 { "," } else { " , " });
                        let mut a = vec!["ser", "-i", s(&i), "-o", s(&o), "-s", sp];
                        if all {
                            a.extend(if style == 0 { vec!["-A", "true"] } else { vec!["--index-all-attributes"] });
                        } else {
                            a.extend(["-a", &list]);
                        }
                        if let Some(b) = bf {
                            a.extend(["--attr-branching-factor", b]);
                        }
                        run(&a, None, To::Pipe, None).succeeded()?;
                        let data = Arc::new(fs::read(&o).unwrap());
                        ctx.state(&*data);
                        let order = in_file_order(&data, &ad.feats)?;
                        for (name, t, vs) in &cols {
                            for v in vs {
                                let key = held(*t, v).unwrap();
                                for op in OPS {
                                    let q = vec![(name.to_string(), op, key_of(*t, &key))];
                                    if names.contains(name) {
                                        let want = ids_where(&order, |f| satisfies(f, name, *t, op, &key));
                                        ask(ctx, &data, &q, &want)?;
                                    } else {
                                        super::attrs::refused(ctx, &data, &q)?;
                                    }
                                }
                            }
                        }
                        let r = run(&["info", "-i", s(&o)], None, To::Pipe, None);
                        r.succeeded()?;
                        let lines = summary(&r.out);
                        let line = lines.iter().find_map(|l| l.strip_prefix("attr_index: ")).ok_or("the summary lists no attributes")?;
                        let mut listed: Vec<String> = serde_json::from_str(line).map_err(|e| format!("{line}: {e}"))?;
                        listed.sort();
                        names.sort();
                        if listed != names {
                            return Err(format!("indexed {names:?}, the summary lists {listed:?}"));
                        }
                        ctx.trace();
                        Ok(())
                    });
                }
            }
        }
    }
    // an attribute that turns up late is indexed like any other
    for n in ctx.t(vec![2usize, 1000, 1001], vec![1, 2, 100, 999, 1000, 1001, 1002, 2000]) {
        for what in 0..2 {
            ctx.case(|| format!("late:{n}:{what}"), |ctx| {
                ctx.outcome("late");
                let mut d = Data { meta: base_meta(), feats: (0..n).map(|k| point_feature(&format!("f{k}"), k as i64 % 50, k as i64 / 50, json!({"v": k as i64}))).collect() };
                let id = format!("f{}", n - 1);
                let (name, t, v) = if what == 0 { ("late", C::String, json!("x")) } else { ("v", C::Double, json!(0.5)) };
                d.feats[n - 1]["CityObjects"][&id]["attributes"][name] = v.clone();
                let dir = Scratch::new();
                let (i, o) = (dir.file("in", &d.text()), dir.at("out.fcb"));
                run(&["ser", "-i", s(&i), "-o", s(&o), "-a", name], None, To::Pipe, None).succeeded()?;
                let data = Arc::new(fs::read(&o).unwrap());
                let key = held(t, &v).unwrap();
                let q = vec![(name.to_string(), Operator::Eq, key_of(t, &key))];
                ask(ctx, &data, &q, &[id])?;
                ctx.trace();
                Ok(())
            });
        }
    }
    // title, version and extent in the summary
    for (di, d) in sets().into_iter().enumerate() {
        for (gi, ge) in SWITCH.iter().enumerate() {
            ctx.case(|| format!("summary:{di}:{ge:?}"), |ctx| {
                ctx.outcome("summary");
                let dir = Scratch::new();
                let (i, o) = (dir.file("in", &d.text()), dir.at("out.fcb"));
                let mut a = vec!["ser", "-i", s(&i), "-o", s(&o)];
                if let Some(g) = ge {
                    a.extend(["-g", g]);
                }
                run(&a, None, To::Pipe, None).succeeded()?;
                let r = run(&["info", "-i", s(&o)], None, To::Pipe, None);
                r.succeeded()?;
                let lines = summary(&r.out);
                let mut want = vec![
                    format!("Version: {}", d.meta["version"].as_str().unwrap()),
                    format!("Features count: {}", d.feats.len()),
                    "attr_index: []".to_string(),
                ];
                if let Some(t) = d.meta["metadata"]["title"].as_str() {
                    want.push(format!("Title: {t}"));
                } else if lines.iter().any(|l| l.starts_with("Title")) {
                    return Err("a title that was not given".into());
                }
                let e: Option<Vec<f64>> = if gi != 2 {
                    Some(d.extent(&d.feats).to_vec())
                } else {
                    d.meta["metadata"]["geographicalExtent"].as_array().map(|a| a.iter().map(|v| v.as_f64().unwrap()).collect())
                };
                match e {
                    Some(e) => {
                        want.push(format!("Min: [{}, {}, {}]", e[0], e[1], e[2]));
                        want.push(format!("Max: [{}, {}, {}]", e[3], e[4], e[5]));
                    }
                    None if lines.iter().any(|l| l.starts_with("Min")) => return Err("an extent that was not given".into()),
                    None => {}
                }
                for l in want {
                    if !lines.contains(&l) {
                        return Err(format!("the summary does not say {l:?}: {lines:?}"));
                    }
                }
                ctx.trace();
                Ok(())
            });
        }
    }

    // every prefix of the text: complete lines or a failure
    let small = Data { meta: base_meta(), feats: vec![point_feature("a", 1, 2, json!({"i": 1, "s": "x"})), point_feature("b", -1, 0, json!({"i": 2})), nth_feature(2, 3)] };
    let text = small.text();
    for k in 0..=text.len() {
        for stdin in [false, true] {
            ctx.case(|| format!("text-prefix:{k}:{stdin}"), |ctx| {
                let dir = Scratch::new();
                let (i, o) = (dir.file("in", &text[..k]), dir.at("out.fcb"));
                let r = run(&["ser", "-i", if stdin { "-" } else { s(&i) }, "-o", s(&o)], stdin.then_some(&text[..k]), To::Pipe, None);
                let whole = k > 0 && (text[k - 1] == b'\n' || text.get(k) == Some(&b'\n'));
                if !whole {
                    ctx.outcome("cut text");
                    return r.failed();
                }
                ctx.outcome("whole lines");
                r.succeeded()?;
                let n = text[..k].iter().filter(|b| **b == b'\n').count() - usize::from(text[k - 1] == b'\n');
                let r = run(&["deser", "-i", s(&o), "-o", "-"], None, To::Pipe, None);
                r.succeeded()?;
                text_back(ctx, &small, &small.feats[..n], true, true, &r.out)?;
                ctx.trace();
                Ok(())
            });
        }
    }
    // every line replaced by something else
    let lines: Vec<String> = String::from_utf8(text.clone()).unwrap().lines().map(String::from).collect();
    let junk = |at: usize, kind: usize| -> Vec<u8> {
        let l = &lines[at];
        match kind {
            0 => b"x".to_vec(),
            1 => b"{".to_vec(),
            2 => b"{}".to_vec(),
            3 => b"[]".to_vec(),
            4 => b"null".to_vec(),
            5 => b"17".to_vec(),
            6 => format!("{l}x").into_bytes(),
            7 => format!("{l}{l}").into_bytes(),
            8 => if at == 0 { lines[1].clone() } else { lines[0].clone() }.into_bytes(),
            9 => l.replacen("\"vertices\"", "\"vortices\"", 1).into_bytes(),
            10 => l.replacen("\"CityObjects\"", "\"Objects\"", 1).into_bytes(),
            11 => l.replace("[[", "[[\"a\",").into_bytes(),
            12 => [l.as_bytes(), b"\xff"].concat(),
            13 => l.replacen("\"type\"", "\"tope\"", 1).into_bytes(),
            14 => l.replacen("[-1,0,0]", "[2147483648,0,0]", 1).into_bytes(),
            15 => l.replacen("[-1,0,0]", "[0,-2147483649,0]", 1).into_bytes(),
            _ => l.replacen("[-1,0,0]", "[0,0,1e99]", 1).into_bytes(),
        }
    };
    for at in 0..lines.len() {
        for kind in 0..17 {
            let j = junk(at, kind);
            if j == lines[at].as_bytes() {
                continue;
            }
            // the text itself decides whether the line still is what it should be
            if (14..=15).contains(&kind) {
            } else if at == 0 && serde_json::from_slice::<cjseq::CityJSON>(&j).is_ok() {
                continue;
            } else if at > 0 && serde_json::from_slice::<cjseq::CityJSONFeature>(&j).is_ok() {
                continue;
            }
            for stdin in [false, true] {
                ctx.case(|| format!("line:{at}:{kind}:{stdin}"), |ctx| {
                    ctx.outcome("bad line");
                    let mut t: Vec<u8> = vec![];
                    for (k, l) in lines.iter().enumerate() {
                        t.extend(if k == at { &j[..] } else { l.as_bytes() });
                        t.push(b'\n');
                    }
                    let dir = Scratch::new();
                    let (i, o) = (dir.file("in", &t), dir.at("out.fcb"));
                    let r = run(&["ser", "-i", if stdin { "-" } else { s(&i) }, "-o", s(&o)], stdin.then_some(&t[..]), To::Pipe, None);
                    ctx.trace();
                    r.failed()
                });
            }
        }
    }
    // every prefix of a file
    for (oi, opts) in [vec![], ser_args(1, Some("2"), 1, 2), ser_args(0, None, 2, 0)].into_iter().enumerate() {
        static FILES: [OnceLock<Vec<u8>>; 3] = [const { OnceLock::new() }; 3];
        let make = || {
            let dir = Scratch::new();
            let (i, o) = (dir.file("in", &text), dir.at("out.fcb"));
            let mut a = vec!["ser", "-i", s(&i), "-o", s(&o)];
            a.extend(&opts);
            run(&a, None, To::Pipe, None);
            fs::read(&o).unwrap_or_default()
        };
        let file = FILES[oi].get_or_init(make);
        for k in 0..=file.len() {
            let both = !ctx.quick() || oi == 1;
            for stdin in [false, true] {
                if !both && stdin != (k % 2 == 0) {
                    continue;
                }
                ctx.case(|| format!("file-prefix:{oi}:{k}:{stdin}"), |ctx| {
                    let dir = Scratch::new();
                    let i = dir.file("in", &file[..k]);
                    let r = run(&["deser", "-i", if stdin { "-" } else { s(&i) }, "-o", "-"], stdin.then_some(&file[..k]), To::Pipe, None);
                    if k == file.len() {
                        ctx.outcome("whole file");
                        r.succeeded()?;
                        return text_back(ctx, &small, &small.feats, oi != 1, oi != 2, &r.out);
                    }
                    ctx.outcome("cut file");
                    r.failed()?;
                    // the summary of a cut file is a failure or that of the whole one
                    if !stdin {
                        let info = run(&["info", "-i", s(&i)], None, To::Pipe, None);
                        info.orderly()?;
                        if info.code == Some(0) {
                            let whole = dir.file("whole", file);
                            let want = run(&["info", "-i", s(&whole)], None, To::Pipe, None);
                            if summary(&info.out) != summary(&want.out) {
                                return Err("the summary of a cut file differs from that of the whole one".into());
                            }
                        } else {
                            info.failed()?;
                        }
                    }
                    ctx.trace();
                    Ok(())
                });
            }
        }
    }
    // what cannot be opened
    for cmd in ["ser", "deser", "cbor", "bson", "info"] {
        for what in 0..7 {
            ctx.case(|| format!("unusable:{cmd}:{what}"), |ctx| {
                ctx.outcome("unusable");
                let dir = Scratch::new();
                let good = dir.file("good", &text);
                let fcb = dir.at("good.fcb");
                run(&["ser", "-i", s(&good), "-o", s(&fcb)], None, To::Pipe, None).succeeded()?;
                let doc = dir.file("doc", small.meta.to_string().as_bytes());
                let input = match cmd {
                    "ser" => &good,
                    "deser" | "info" => &fcb,
                    _ => &doc,
                };
                let out = dir.at("out");
                let missing = dir.at("no/such");
                let empty = dir.file("empty", b"");
                let (i, o, to) = match what {
                    0 => (s(&missing), s(&out), To::Pipe),
                    1 => (s(&dir.0), s(&out), To::Pipe),
                    2 => (s(&empty), s(&out), To::Pipe),
                    3 => (s(input), s(&missing), To::Pipe),
                    4 => (s(input), s(&dir.0), To::Pipe),
                    5 => (s(input), "-", To::File(Path::new("/dev/full"))),
                    _ => (s(input), "-", To::Closed),
                };
                let r = if cmd == "info" {
                    if what == 3 || what == 4 {
                        return Ok(());
                    }
                    run(&["info", "-i", i], None, to, None)
                } else {
                    run(&[cmd, "-i", i, "-o", o], None, to, None)
                };
                ctx.trace();
                r.failed()
            });
        }
    }
    // an output with room for only so many bytes
    for cmd in ["ser", "deser", "cbor", "bson"] {
        for stdout in [false, true] {
            let dir = Scratch::new();
            let good = dir.file("good", &text);
            let fcb = dir.at("good.fcb");
            run(&["ser", "-i", s(&good), "-o", s(&fcb), "-A"], None, To::Pipe, None);
            let doc = dir.file("doc", grid(3).meta.to_string().as_bytes());
            let (input, more): (&Path, &[&str]) = match cmd {
                "ser" => (&good, &["-A", "true"]),
                "deser" => (&fcb, &[]),
                _ => (&doc, &[]),
            };
            let whole = dir.at("whole");
            let mut a = vec![cmd, "-i", s(input), "-o", s(&whole)];
            a.extend(more);
            run(&a, None, To::Pipe, None);
            let want = fs::read(&whole).unwrap_or_default();
            for room in 0..=want.len() + 1 {
                ctx.case(|| format!("room:{cmd}:{stdout}:{room}"), |ctx| {
                    let out = dir.at(&format!("out{room}"));
                    let mut a = vec![cmd, "-i", s(input), "-o", if stdout { "-" } else { s(&out) }];
                    a.extend(more);
                    let r = run(&a, None, if stdout { To::File(&out) } else { To::Pipe }, Some(room as u64));
                    let got = fs::read(&out).unwrap_or_default();
                    let _ = fs::remove_file(&out);
                    ctx.trace();
                    if room < want.len() {
                        ctx.outcome("no room");
                        return r.failed();
                    }
                    r.orderly()?;
                    // temporary files need room as well
                    if r.code == Some(0) {
                        ctx.outcome("room");
                        if got != want {
                            return Err("success, but the output differs".into());
                        }
                        return Ok(());
                    }
                    ctx.outcome("no room");
                    r.failed()
                });
            }
        }
    }
}

pub const P24: Prop = Prop {
    id: "P24",
    level: "model_checking",
    run: run_round_trip,
    case_secs: 120,
    required_outcomes: &["options", "channels", "late", "other format"],
    assumptions: &["feature order is free where a spatial index is written"],
    bounds: |t| match t {
        Tier::Quick => json!({"datasets": 5, "options": "6 attribute x 3 branching x 3 spatial x 3 extent choices", "channels": "all 16", "late_features": "2..1100"}),
        Tier::Thorough => json!({"datasets": 5, "options": "6 attribute x 8 branching x 3 spatial x 3 extent choices", "channels": "all 16", "late_features": "1..5000"}),
    },
};

pub const P25: Prop = Prop {
    id: "P25",
    level: "model_checking",
    run: run_options,
    case_secs: 120,
    required_outcomes: &[
        "inside", "apart", "crossing", "box refused", "attributes", "summary", "cut text", "whole lines",
        "bad line", "cut file", "whole file", "unusable", "no room", "room",
    ],
    assumptions: &["whether a feature without a vertex in the box but with a bounding rectangle that meets it is kept is open"],
    bounds: |t| match t {
        Tier::Quick => json!({"boxes": "all of a 5x5 grid", "attribute_sets": 17, "prefixes": "every byte of 1 text and 3 files", "room": "every byte of 4 outputs, file and standard output"}),
        Tier::Thorough => json!({"boxes": "all of a 13x13 grid", "attribute_sets": 17, "prefixes": "every byte of 1 text and 3 files", "room": "every byte of 4 outputs, file and standard output"}),
    },
};
