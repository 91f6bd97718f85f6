//! P31 what reading a local file touches, and what is held in memory meanwhile.

use super::corrupt::measured;
use super::dataset::layout;
use super::remote::{file, sized};
use super::Prop;
use crate::core::{Ctx, Tier};
use crate::data::*;
use fcb_core::packed_rtree::Query;
use fcb_core::{FcbReader, FixedStringKey, KeyType, Operator};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::Arc;

type Touched = Rc<RefCell<Vec<(usize, usize)>>>;

/// A file that records which bytes of it are read.
struct Watched {
    data: Arc<Vec<u8>>,
    at: usize,
    log: Touched,
}

impl Watched {
    fn new(data: &Arc<Vec<u8>>) -> (Watched, Touched) {
        let log = Touched::default();
        (Watched { data: data.clone(), at: 0, log: log.clone() }, log)
    }
}

impl Read for Watched {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len().saturating_sub(self.at));
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        if n > 0 {
            let mut log = self.log.borrow_mut();
            match log.last_mut() {
                Some(l) if l.1 == self.at => l.1 += n,
                _ => log.push((self.at, self.at + n)),
            }
        }
        self.at += n;
        Ok(n)
    }
}

impl Seek for Watched {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.data.len() as i64 + d,
            SeekFrom::Current(d) => self.at as i64 + d,
        };
        self.at = usize::try_from(p).map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?;
        Ok(p as u64)
    }
}

/// Only the reading half.
struct Forward(Watched);
impl Read for Forward {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.read(buf)
    }
}

/// What was read since the last call.
fn taken(log: &Touched) -> Vec<(usize, usize)> {
    std::mem::take(&mut *log.borrow_mut())
}

fn inside(r: &[(usize, usize)], s: usize, e: usize) -> usize {
    r.iter().map(|(a, b)| b.min(&e).saturating_sub(*a.max(&s))).sum()
}

/// The bytes of `r` outside of the allowed pieces.
fn outside(r: &[(usize, usize)], allowed: &[(usize, usize)]) -> Option<(usize, usize)> {
    r.iter().copied().find(|(a, b)| {
        let mut at = *a;
        while at < *b {
            match allowed.iter().find(|(s, e)| *s <= at && at < *e) {
                Some((_, e)) => at = *e,
                None => return true,
            }
        }
        false
    })
}

fn f64_at(d: &[u8], p: usize) -> f64 {
    f64::from_le_bytes(d[p..p + 8].try_into().unwrap())
}

/// The groups of nodes of the spatial index that a query has to look at.
fn nodes_on_the_way(data: &[u8], start: usize, n: usize, node: usize, q: &Query) -> Vec<(usize, usize)> {
    let mut sizes = vec![n];
    while sizes.len() < 2 || *sizes.last().unwrap() > 1 {
        sizes.push(sizes.last().unwrap().div_ceil(node));
    }
    // (first, past the last) of each level, leaves first
    let total: usize = sizes.iter().sum();
    let mut bounds = Vec::new();
    let mut end = total;
    for s in &sizes {
        bounds.push((end - s, end));
        end -= s;
    }
    let boxed = |i: usize| {
        let p = start + 40 * i;
        ([f64_at(data, p), f64_at(data, p + 8), f64_at(data, p + 16), f64_at(data, p + 24)], u64::from_le_bytes(data[p + 32..p + 40].try_into().unwrap()) as usize)
    };
    // how near the nearest centre is
    let best = |x: f64, y: f64| {
        (bounds[0].0..bounds[0].1)
            .map(|i| {
                let b = boxed(i).0;
                let (cx, cy) = ((b[0] + b[2]) / 2.0, (b[1] + b[3]) / 2.0);
                (cx - x).powi(2) + (cy - y).powi(2)
            })
            .fold(f64::INFINITY, f64::min)
    };
    let near = match q {
        Query::PointNearest(x, y) => best(*x, *y),
        _ => 0.0,
    };
    let wanted = |b: [f64; 4]| match q {
        Query::BBox(x0, y0, x1, y1) => b[0] <= *x1 && *x0 <= b[2] && b[1] <= *y1 && *y0 <= b[3],
        Query::PointIntersects(x, y) => b[0] <= *x && *x <= b[2] && b[1] <= *y && *y <= b[3],
        Query::PointNearest(x, y) => {
            let (dx, dy) = ((b[0] - x).max(x - b[2]).max(0.0), (b[1] - y).max(y - b[3]).max(0.0));
            dx * dx + dy * dy <= near * (1.0 + 1e-9)
        }
    };
    let mut out = Vec::new();
    let mut level = vec![0usize];
    for l in (0..sizes.len()).rev() {
        let mut next = Vec::new();
        for g in level {
            let e = (g + node).min(bounds[l].1);
            out.push((start + 40 * g, start + 40 * e));
            if l > 0 {
                next.extend((g..e).map(boxed).filter(|b| wanted(b.0)).map(|b| b.1));
            }
        }
        level = next;
    }
    out
}

/// The most that a condition on an attribute may read of its index: the ways down to both ends
/// of the range and to the key that a strict comparison leaves out again, the leaves in between
/// with two nodes at either end, and the features that share a key.
fn attribute_bytes(values: &[u64], op: Operator, v: u64, bf: usize, key: usize) -> usize {
    let mut keys = values.to_vec();
    keys.sort();
    keys.dedup();
    let shared = |k: u64| match values.iter().filter(|x| **x == k).count() {
        0 | 1 => 0,
        n => 4 + 8 * n,
    };
    let reached: Vec<u64> = keys
        .iter()
        .copied()
        .filter(|k| match op {
            Operator::Eq => *k == v,
            Operator::Ne => true,
            Operator::Gt | Operator::Ge => *k >= v,
            Operator::Lt | Operator::Le => *k <= v,
        })
        .collect();
    let mut levels = 1;
    let mut n = keys.len();
    while n >= bf || levels == 1 {
        n = n.div_ceil(bf);
        levels += 1;
    }
    let node = (bf - 1) * (key + 8);
    let (ways, again) = match op {
        Operator::Eq => (1, 0),
        Operator::Ge | Operator::Le => (2, 0),
        Operator::Ne | Operator::Gt | Operator::Lt => (3, shared(v)),
    };
    let leaves = if op == Operator::Eq { 0 } else { reached.len() * (key + 8) + 4 * node };
    ways * levels * node + leaves + reached.into_iter().map(shared).sum::<usize>() + again
}

struct Probe {
    data: Arc<Vec<u8>>,
    sel: Sel,
    /// what may be read of the indices: pieces, and how many bytes in all
    pieces: Vec<(usize, usize)>,
    most: usize,
}

macro_rules! walk {
    ($p:expr, $log:expr, $rd:expr, $select:expr, $forward:expr, $ctx:expr) => {{
        let l = layout(&$p.data)?;
        let all = read_seek(io::Cursor::new($p.data.as_slice()), &Sel::All)?.ids();
        let reader = $rd.map_err(|e| format!("open: {e}"))?;
        let r = taken(&$log);
        if let Some(x) = outside(&r, &[(0, l.header_end)]) {
            return Err(format!("opening reads {x:?}, the header ends at {}", l.header_end));
        }
        let mut it = $select(reader).map_err(|e| format!("select: {e}"))?;
        let r = taken(&$log);
        // the size of the first feature tells whether there is one
        let first = (l.attrs_end, l.attrs_end + 4);
        let mut pos = 0;
        if $forward {
            if let Some(x) = outside(&r, &[(l.header_end, first.1)]) {
                return Err(format!("selecting reads {x:?}, the features begin at {}", l.attrs_end));
            }
        } else {
            let mut allowed = $p.pieces.clone();
            allowed.push(first);
            if let Some(x) = outside(&r, &allowed) {
                return Err(format!("selecting reads {x:?}, of use are {allowed:?}"));
            }
            let n = inside(&r, l.header_end, l.attrs_end);
            if n > $p.most {
                return Err(format!("selecting reads {n} bytes of the indices, {} would do", $p.most));
            }
        }
        if let Some((_, e)) = r.last() {
            pos = pos.max(*e);
        }
        let mut delivered = 0;
        loop {
            let more = it.next().map_err(|e| format!("next: {e}"))?.is_some();
            let r = taken(&$log);
            if !more {
                if let Some(x) = r.first() {
                    return Err(format!("after the last feature {x:?} is read"));
                }
                break;
            }
            let f = it.cur_cj_feature().map_err(|e| format!("decode: {e}"))?;
            let k = all.iter().position(|i| *i == f.id).ok_or("an unknown feature")?;
            let (s, e) = l.feats[k];
            if $forward {
                if let Some(x) = r.iter().find(|x| x.0 < pos) {
                    return Err(format!("{x:?} is read again"));
                }
                if let Some(x) = r.iter().find(|x| x.1 > e) {
                    return Err(format!("{x:?} is read for a feature at {s}..{e}"));
                }
            } else {
                if let Some(x) = outside(&r, &[(s, e)]) {
                    return Err(format!("{x:?} is read for a feature at {s}..{e}"));
                }
                if inside(&r, s, e) > e - s {
                    return Err(format!("{} bytes are read of a feature of {}", inside(&r, s, e), e - s));
                }
            }
            if let Some((_, e)) = r.last() {
                pos = pos.max(*e);
            }
            delivered += 1;
            $ctx.trans(1);
        }
        delivered
    }};
}

fn touch(ctx: &mut Ctx, p: &Probe) -> Result<(), String> {
    let kind = match p.sel {
        Sel::All => "all",
        Sel::Spatial(_) => "spatial",
        Sel::Attr(_) => "attr",
    };
    let (w, log) = Watched::new(&p.data);
    let n = walk!(p, log, FcbReader::open(w), |r: FcbReader<Watched>| match &p.sel {
        Sel::All => r.select_all(),
        Sel::Spatial(q) => r.select_query(*q),
        Sel::Attr(q) => r.select_attr_query(q.clone()).map_err(Into::into),
    }, false, ctx);
    let (w, log) = Watched::new(&p.data);
    let m = walk!(p, log, FcbReader::open(Forward(w)), |r: FcbReader<Forward>| match &p.sel {
        Sel::All => r.select_all_seq(),
        Sel::Spatial(q) => r.select_query_seq(*q),
        Sel::Attr(q) => r.select_attr_query_seq(q.clone()).map_err(Into::into),
    }, true, ctx);
    if n != m {
        return Err(format!("{n} features, {m} forward only"));
    }
    ctx.outcome(if n == 0 { "nothing" } else { kind });
    ctx.trace();
    Ok(())
}

fn bytes_of_key(name: &str) -> usize {
    match name {
        "m" => 4,
        "n" => 2,
        _ => 50,
    }
}

/// One file and everything asked of it.
fn probes(n: usize, size: usize, modulus: usize, index: bool, attrs: &[&str]) -> Result<Vec<Probe>, String> {
    let feats: Vec<Value> = (0..n).map(|k| sized(k, size, k % modulus == 0)).collect();
    let data = file(&feats, index, attrs)?;
    let l = layout(&data)?;
    let mut out = vec![Probe { data: data.clone(), sel: Sel::All, pieces: vec![], most: 0 }];
    if index {
        let far = 10.0 * (n - 1) as f64;
        for q in [
            Query::BBox(-1e9, 4.0, 1e9, 4.5),
            Query::BBox(-1e9, -1e9, 1e9, 1e9),
            Query::BBox(95.0, -1.0, 165.0, 1.0),
            Query::BBox(far - 1.0, -1.0, far + 9.0, 1.0),
            Query::BBox(1e6, 1e6, 2e6, 2e6),
            Query::PointIntersects(0.0, 0.0),
            Query::PointIntersects(far, 0.0),
            Query::PointIntersects(5.0, 0.0),
            Query::PointNearest(57.0, 3.0),
            Query::PointNearest(far / 2.0, -3.0),
            Query::PointNearest(1e7, 1e7),
        ] {
            let pieces = nodes_on_the_way(&data, l.header_end, n, l.node, &q);
            let most = pieces.iter().map(|(a, b)| b - a).sum();
            out.push(Probe { data: data.clone(), sel: Sel::Spatial(q), pieces, most });
        }
    }
    if !attrs.is_empty() {
        let h = fcb_core::size_prefixed_root_as_header(&data[8..l.header_end]).unwrap();
        let mut at = l.rtree_end;
        let mut sections = Vec::new();
        for i in h.attribute_index().unwrap().iter() {
            let name = h.columns().unwrap().iter().find(|c| c.index() == i.index()).unwrap().name().to_string();
            sections.push((name, (at, at + i.length() as usize)));
            at += i.length() as usize;
        }
        // strings sort as "n0", "n1", "n10", ...: their ranks stand for them
        let mut names: Vec<String> = (0..n).map(|k| format!("n{k}")).collect();
        names.sort();
        let rank = |k: usize| names.iter().position(|x| *x == format!("n{k}")).unwrap() as u64;
        let values = |name: &str| -> Vec<u64> {
            (0..n)
                .map(|k| match name {
                    "m" => (k % modulus == 0) as u64,
                    "n" => k as u64,
                    _ => rank(k),
                })
                .collect()
        };
        let cond = |name: &str, op: Operator, k: usize| {
            let (key, v) = match name {
                "m" => (KeyType::UInt32(k as u32), k as u64),
                "n" => (KeyType::Int16(k as i16), k as u64),
                _ => (KeyType::StringKey50(FixedStringKey::from_str(&format!("n{k}"))), rank(k)),
            };
            ((name.to_string(), op, key), attribute_bytes(&values(name), op, v, 4, bytes_of_key(name)))
        };
        let ops = [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Ge, Operator::Lt, Operator::Le];
        let mut asked: Vec<Vec<((String, Operator, KeyType), usize)>> = Vec::new();
        for name in attrs {
            let mut points = if *name == "m" { vec![0, 1] } else { vec![0, n / 3, n / 2, n - 1] };
            points.dedup();
            for k in points {
                for op in ops {
                    asked.push(vec![cond(name, op, k)]);
                }
            }
        }
        if attrs.len() > 1 {
            for k in [0, n / 3, n - 1] {
                asked.push(vec![cond("n", Operator::Ge, k), cond("s", Operator::Eq, k)]);
                asked.push(vec![cond("m", Operator::Eq, 1), cond("n", Operator::Le, k)]);
                asked.push(vec![cond("n", Operator::Ge, k), cond("n", Operator::Le, k + 2)]);
                asked.push(vec![cond("s", Operator::Ne, k), cond("m", Operator::Eq, 0), cond("n", Operator::Lt, k)]);
            }
        }
        for a in asked {
            let pieces = sections.iter().filter(|s| a.iter().any(|c| c.0 .0 == s.0)).map(|s| s.1).collect();
            let most = a.iter().map(|c| c.1).sum();
            out.push(Probe { data: data.clone(), sel: Sel::Attr(a.into_iter().map(|c| c.0).collect()), pieces, most });
        }
    }
    Ok(out)
}

fn run(ctx: &mut Ctx) {
    let mut ns: Vec<usize> = (1..=ctx.t(20, 70)).collect();
    ns.extend(ctx.t(vec![63, 64, 65, 255, 256, 257, 258, 300, 1000], vec![255, 256, 257, 258, 300, 511, 513, 1000, 4095, 4096, 4097, 5000]));
    for n in ns {
        for size in [0usize, 900] {
            for modulus in [1usize, 2, 7, 1_000_000] {
                for (index, attrs) in [(true, &[][..]), (false, &["m", "n", "s"][..]), (true, &["n", "s", "m"]), (true, &["s"])] {
                    ctx.case(|| format!("touched:{n}:{size}:{modulus}:{index}:{}", attrs.len()), |ctx| {
                        for p in probes(n, size, modulus, index, attrs)? {
                            ctx.state(&(n, size, modulus, index, attrs.len(), format!("{:?}", p.sel)));
                            touch(ctx, &p).map_err(|e| format!("{:?}: {e}", p.sel))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    memory(ctx);
}

/// Features of 20 KB and more: what is held must not grow with their number.
fn memory(ctx: &mut Ctx) {
    for n in ctx.t(vec![50usize, 400], vec![50, 400, 3000]) {
        for sel in 0..6usize {
            for mode in [Mode::Seek, Mode::Seq] {
                ctx.case(|| format!("held:{n}:{sel}:{mode:?}"), |ctx| {
                    ctx.outcome("held");
                    ctx.trace();
                    let (size, large) = (20_000, 300_000);
                    let feats: Vec<Value> = (0..n).map(|k| sized(k, if k == n / 2 { large } else { size }, k % 2 == 0)).collect();
                    let data = file(&feats, true, &["n", "m"])?;
                    drop(feats);
                    let sel = match sel {
                        0 => Sel::All,
                        1 => Sel::Spatial(Query::BBox(-1e9, -1e9, 1e9, 1e9)),
                        2 => Sel::Spatial(Query::BBox(-1e9, 4.0, 1e9, 4.5)),
                        3 => Sel::Attr(vec![("n".into(), Operator::Ge, KeyType::Int16(0))]),
                        4 => Sel::Attr(vec![("m".into(), Operator::Eq, KeyType::UInt32(0))]),
                        _ => Sel::Spatial(Query::PointNearest(0.0, 0.0)),
                    };
                    let (r, peak) = measured(|| -> Result<usize, String> {
                        let mut seen = 0;
                        macro_rules! go {
                            ($it:expr) => {{
                                let mut it = $it.map_err(|e| format!("select: {e}"))?;
                                while it.next().map_err(|e| format!("next: {e}"))?.is_some() {
                                    seen += it.cur_feature().id().len();
                                }
                            }};
                        }
                        let src = io::Cursor::new(data.as_slice());
                        let rd = FcbReader::open(src).map_err(|e| e.to_string())?;
                        match (mode, &sel) {
                            (Mode::Seek, Sel::All) => go!(rd.select_all()),
                            (Mode::Seek, Sel::Spatial(q)) => go!(rd.select_query(*q)),
                            (Mode::Seek, Sel::Attr(q)) => go!(rd.select_attr_query(q.clone())),
                            (_, Sel::All) => go!(rd.select_all_seq()),
                            (_, Sel::Spatial(q)) => go!(rd.select_query_seq(*q)),
                            (_, Sel::Attr(q)) => go!(rd.select_attr_query_seq(q.clone())),
                        }
                        Ok(seen)
                    });
                    r?;
                    let l = layout(&data)?;
                    // the header, twice the largest feature, and some copies of the indices and results
                    let most = l.header_end + 2 * (large + 2000) + 6 * (l.attrs_end - l.header_end) + 200 * n + 65536;
                    ctx.state(&(n, peak));
                    ctx.trans(n as u64);
                    if std::env::var_os("FCBMC_PEAK").is_some() {
                        eprintln!("held {n} {sel:?} {mode:?}: {peak} of {most}, file {}", data.len());
                    }
                    if peak as usize > most {
                        return Err(format!("{sel:?} {mode:?}: {peak} bytes held while reading {} bytes of {n} features", data.len()));
                    }
                    Ok(())
                });
            }
        }
    }
}

pub const P31: Prop = Prop {
    id: "P31",
    level: "model_checking",
    run,
    case_secs: 120,
    required_outcomes: &["all", "spatial", "attr", "nothing", "held"],
    assumptions: &[
        "whole nodes of an index are read at once; a range of an attribute is found by going down to both of its ends",
        "the size of the first feature may be read when selecting",
    ],
    bounds: |t| match t {
        Tier::Quick => json!({"features": "1..20, 63..65, 255..258, 300, 1000", "selections": "12 spatial, 6 operators x 4 keys x 3 attributes, pairs and triples", "held": "400 features of 20 KB, one of 300 KB"}),
        Tier::Thorough => json!({"features": "1..70, 255..258, 300, 511, 513, 1000, 4095..4097, 5000", "selections": "12 spatial, 6 operators x 4 keys x 3 attributes, pairs and triples", "held": "3000 features of 20 KB, one of 300 KB"}),
    },
};
