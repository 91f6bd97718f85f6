//! P18 how bytes are delivered, P20 truncated files, P22 failing outputs.

use super::attrs::{attr_feature, schema};
use super::dataset::nth_feature;
use super::Prop;
use crate::core::{guarded, Ctx, Tier};
use crate::data::*;
use crate::webmock::{block_on, Fault, Web};
use fcb_core::header_generated::ColumnType as C;
use fcb_core::packed_rtree::Query;
use fcb_core::{FcbReader, FixedStringKey, HttpFcbReader, KeyType, Operator};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::io::{self, BufWriter, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

/// How far an iteration came and how it ended.
#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub feats: Vec<Value>,
    pub count: Option<usize>,
    /// Ok at the end, else where it failed and how
    pub end: Result<(), String>,
}

macro_rules! run_local {
    ($it:expr) => {{
        match $it {
            Err(e) => Run { feats: vec![], count: None, end: Err(format!("select: {e}")) },
            Ok(mut it) => {
                let count = it.features_count();
                let mut feats = Vec::new();
                let end = loop {
                    match it.next() {
                        Ok(Some(f)) => match f.cur_cj_feature() {
                            Ok(f) => feats.push(serde_json::to_value(&f).unwrap()),
                            Err(e) => break Err(format!("decode: {e}")),
                        },
                        Ok(None) => break Ok(()),
                        Err(e) => break Err(format!("next: {e}")),
                    }
                    if feats.len() > 5000 {
                        break Err("endless iteration".into());
                    }
                };
                if end.is_err() {
                    // after a failure there is nothing more, or another failure
                    for _ in 0..3 {
                        if let Ok(Some(_)) = it.next() {
                            feats.push(json!("a feature after a failure"));
                        }
                    }
                }
                Run { feats, count, end }
            }
        }
    }};
}

pub fn run_seek<R: Read + Seek>(r: R, sel: &Sel) -> Run {
    match FcbReader::open(r) {
        Err(e) => Run { feats: vec![], count: None, end: Err(format!("open: {e}")) },
        Ok(rd) => match sel {
            Sel::All => run_local!(rd.select_all()),
            Sel::Spatial(q) => run_local!(rd.select_query(*q)),
            Sel::Attr(q) => run_local!(rd.select_attr_query(q.clone())),
        },
    }
}

pub fn run_seq<R: Read>(r: R, sel: &Sel) -> Run {
    match FcbReader::open(r) {
        Err(e) => Run { feats: vec![], count: None, end: Err(format!("open: {e}")) },
        Ok(rd) => match sel {
            Sel::All => run_local!(rd.select_all_seq()),
            Sel::Spatial(q) => run_local!(rd.select_query_seq(*q)),
            Sel::Attr(q) => run_local!(rd.select_attr_query_seq(q.clone())),
        },
    }
}

pub fn run_http(data: Arc<Vec<u8>>, sel: &Sel) -> Run {
    let (web, _) = Web::new(data, Fault::None, 0);
    block_on(async {
        let fail = |what: &str, e: String| Run { feats: vec![], count: None, end: Err(format!("{what}: {e}")) };
        let rd = match HttpFcbReader::new(AsyncBufferedHttpRangeClient::with(web, "http://mock/f.fcb")).await {
            Ok(rd) => rd,
            Err(e) => return fail("open", e.to_string()),
        };
        let it = match sel {
            Sel::All => rd.select_all().await,
            Sel::Spatial(q) => rd.select_query(*q).await,
            Sel::Attr(q) => rd.select_attr_query(q).await,
        };
        let mut it = match it {
            Ok(it) => it,
            Err(e) => return fail("select", e.to_string()),
        };
        let count = it.features_count();
        let mut feats = Vec::new();
        let end = loop {
            match it.next().await {
                Ok(Some(_)) => match it.cur_cj_feature() {
                    Ok(f) => feats.push(serde_json::to_value(&f).unwrap()),
                    Err(e) => break Err(format!("decode: {e}")),
                },
                Ok(None) => break Ok(()),
                Err(e) => break Err(format!("next: {e}")),
            }
            if feats.len() > 5000 {
                break Err("endless iteration".into());
            }
        };
        Run { feats, count, end }
    })
}

fn words_of(k: usize) -> Map<String, Value> {
    let mut m = Map::new();
    if k % 3 != 2 {
        m.insert("i".into(), json!(k as i64 / 2 - 1));
    }
    m.insert("s".into(), json!(["", "a", "ab", "b"][k % 4]));
    m.insert("d".into(), json!(0.5 * k as f64));
    m
}

/// Files with every combination of sections.
pub fn file_of(n: usize, sections: usize) -> Result<Arc<Vec<u8>>, String> {
    let feats: Vec<Value> = (0..n)
        .map(|k| if sections >= 2 { attr_feature(k, &[words_of(k)]) } else { nth_feature(k, k % 3) })
        .collect();
    let mut o = Opts::plain(sections % 2 == 1);
    if sections >= 2 {
        o.schema = Some(schema(&[("s", C::String), ("i", C::Int), ("d", C::Double)]));
        o = match sections / 2 {
            1 => o.attr("i", Some(2)),
            _ => o.attr("d", None).attr("i", Some(3)).attr("s", Some(2)),
        };
    }
    Ok(Arc::new(write_fcb(&base_meta(), &feats, &o)?))
}
pub const SECTIONS: usize = 6;

pub fn selections(n: usize, sections: usize) -> Vec<Sel> {
    let mut out = vec![Sel::All];
    if n == 0 {
        return out;
    }
    if sections % 2 == 1 {
        out.push(Sel::Spatial(Query::BBox(-1e9, -1e9, 1e9, 1e9)));
        out.push(Sel::Spatial(Query::BBox(0.5, -10.0, 2.5, 1.0)));
        out.push(Sel::Spatial(Query::BBox(1e6, 1e6, 2e6, 2e6)));
        out.push(Sel::Spatial(Query::PointIntersects(2.0, 1.0)));
        out.push(Sel::Spatial(Query::PointNearest(1.0, 0.5)));
    }
    let int = |op, v| ("i".to_string(), op, KeyType::Int32(v));
    if sections >= 2 {
        out.push(Sel::Attr(vec![int(Operator::Eq, 0)]));
        out.push(Sel::Attr(vec![int(Operator::Ne, 0)]));
        out.push(Sel::Attr(vec![int(Operator::Ge, -1)]));
        out.push(Sel::Attr(vec![int(Operator::Lt, -5)]));
    }
    if sections >= 4 {
        let s = |op, v: &str| ("s".to_string(), op, KeyType::StringKey50(FixedStringKey::from_str(v)));
        out.push(Sel::Attr(vec![s(Operator::Gt, "")]));
        out.push(Sel::Attr(vec![s(Operator::Le, "ab"), int(Operator::Ge, 0)]));
        out.push(Sel::Attr(vec![(
            "d".into(),
            Operator::Gt,
            KeyType::Float64(fcb_core::Float(0.5)),
        )]));
    }
    out
}

// ---------------------------------------------------------------- delivery

#[derive(Clone, Copy, Debug)]
enum Act {
    Short(usize),
    Fail(ErrorKind),
}

/// Delivers `data` in fragments; deviates at given calls.
struct Script<'a> {
    data: &'a [u8],
    pos: u64,
    /// fragment sizes, used in turn
    sizes: &'a [usize],
    acts: &'a [(usize, Act)],
    /// every how many reads one is interrupted
    interrupted: usize,
    k: usize,
    calls: &'a Cell<usize>,
    hit: &'a Cell<usize>,
    pending: bool,
}

impl<'a> Script<'a> {
    fn new(data: &'a [u8], sizes: &'a [usize], acts: &'a [(usize, Act)], calls: &'a Cell<usize>, hit: &'a Cell<usize>) -> Self {
        calls.set(0);
        hit.set(0);
        Script { data, pos: 0, sizes, acts, interrupted: 0, k: 0, calls, hit, pending: false }
    }
    fn act(&mut self) -> Option<Act> {
        let k = self.k;
        self.k += 1;
        self.calls.set(self.k);
        self.acts.iter().find(|a| a.0 == k).map(|a| a.1)
    }
}

impl Read for Script<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let act = self.act();
        if self.interrupted > 0 && !self.pending && (self.k - 1) % self.interrupted == 0 {
            self.pending = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.pending = false;
        let mut n = match self.sizes {
            [] => usize::MAX,
            s => s[(self.k - 1) % s.len()],
        };
        match act {
            Some(Act::Fail(e)) => {
                if e != ErrorKind::Interrupted {
                    self.hit.set(self.hit.get() + 1);
                }
                return Err(e.into());
            }
            Some(Act::Short(s)) => n = n.min(s),
            None => {}
        }
        let rest = &self.data[(self.pos as usize).min(self.data.len())..];
        let n = n.min(buf.len()).min(rest.len());
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Script<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if let Some(Act::Fail(e)) = self.act() {
            if e != ErrorKind::Interrupted {
                self.hit.set(self.hit.get() + 1);
                return Err(e.into());
            }
        }
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        self.pos = u64::try_from(p).map_err(|_| io::Error::from(ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

fn local(mode: Mode, r: Script, sel: &Sel) -> Run {
    if mode == Mode::Seek {
        run_seek(r, sel)
    } else {
        run_seq(r, sel)
    }
}

fn prefix_of(want: &Run, got: &Run) -> bool {
    got.feats.len() <= want.feats.len() && got.feats[..] == want.feats[..got.feats.len()]
}

fn ids(r: &Run) -> Vec<String> {
    Got { feats: r.feats.clone(), count: None }.ids()
}

/// A run disturbed only in ways that lose nothing.
fn unharmed(want: &Run, got: &Run, what: impl Fn() -> String) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {:?} {:?}, got {:?} {:?} {:?}", what(), ids(want), want.count, ids(got), got.count, got.end))
    }
}

fn failed(want: &Run, got: &Run, what: impl Fn() -> String) -> Result<(), String> {
    if got.end.is_ok() {
        return Err(format!("{}: no error; delivered {:?} of {:?}", what(), ids(got), ids(want)));
    }
    if !prefix_of(want, got) {
        return Err(format!("{}: delivered {:?} of {:?}", what(), ids(got), ids(want)));
    }
    Ok(())
}

fn run_delivery(ctx: &mut Ctx) {
    let kinds = [
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
        ErrorKind::WouldBlock,
        ErrorKind::TimedOut,
        ErrorKind::PermissionDenied,
        ErrorKind::BrokenPipe,
    ];
    let ns = ctx.t(vec![0usize, 1, 2, 3, 5, 17, 20], vec![0, 1, 2, 3, 4, 5, 9, 16, 17, 20, 40, 257, 300]);
    for n in ns {
        for sections in 0..SECTIONS {
            for mode in [Mode::Seek, Mode::Seq] {
                for s in 0..selections(n, sections).len() {
                    ctx.case(|| format!("delivery:{n}:{sections}:{mode:?}:{s}"), |ctx| {
                        let data = file_of(n, sections)?;
                        let sel = &selections(n, sections)[s];
                        let (calls, hit) = (Cell::new(0), Cell::new(0));
                        let want = local(mode, Script::new(&data, &[], &[], &calls, &hit), sel);
                        want.end.clone().map_err(|e| format!("undisturbed: {e}"))?;
                        let reference = read_mode(&data, Mode::Http, sel)?;
                        if reference.feats != want.feats {
                            return Err("undisturbed result differs from the remote one".into());
                        }
                        let total = calls.get();
                        ctx.state(&(n, sections, mode, s, total));
                        ctx.trace();
                        // every fixed fragment size and every pair of alternating ones
                        let mut schedules: Vec<Vec<usize>> = (1..=64).map(|f| vec![f]).collect();
                        schedules.extend([100, 1000, 4095, 4096, 4097, 8191, 8192, 8193].map(|f| vec![f]));
                        for a in 1..=ctx.t(6, 12) {
                            for b in 1..=ctx.t(6, 12) {
                                schedules.push(vec![a, b]);
                            }
                        }
                        schedules.extend([vec![1, 2, 3], vec![3, 1, 4, 1, 5], vec![4, 1_000_000], vec![1_000_000, 1]]);
                        for sizes in &schedules {
                            if n > 20 && sizes[0] < 8 && sizes.len() > 1 {
                                continue;
                            }
                            for interrupted in [0, 1, 3] {
                                let mut sc = Script::new(&data, sizes, &[], &calls, &hit);
                                sc.interrupted = interrupted;
                                let got = local(mode, sc, sel);
                                ctx.trans(got.feats.len() as u64 + 1);
                                ctx.outcome("fragments");
                                unharmed(&want, &got, || format!("{sel:?} fragments {sizes:?} interrupted {interrupted}"))?;
                            }
                        }
                        // one deviation at every call
                        for k in 0..total {
                            for act in [Act::Short(1), Act::Short(2), Act::Short(3), Act::Fail(ErrorKind::Interrupted)] {
                                let got = local(mode, Script::new(&data, &[], &[(k, act)], &calls, &hit), sel);
                                ctx.trans(1);
                                ctx.outcome("deviation");
                                unharmed(&want, &got, || format!("{sel:?} call {k} {act:?}"))?;
                            }
                            for e in kinds {
                                let got = local(mode, Script::new(&data, &[], &[(k, Act::Fail(e))], &calls, &hit), sel);
                                ctx.trans(1);
                                if hit.get() == 0 {
                                    unharmed(&want, &got, || format!("{sel:?} call {k} not reached"))?;
                                    continue;
                                }
                                ctx.outcome(if got.feats.is_empty() { "error before features" } else { "error after features" });
                                failed(&want, &got, || format!("{sel:?} call {k} fails with {e:?}"))?;
                            }
                        }
                        // an error wherever in a fragmented delivery
                        for sizes in [&[1usize][..], &[3], &[7, 2]] {
                            if n > ctx.t(3, 9) {
                                break;
                            }
                            local(mode, Script::new(&data, sizes, &[], &calls, &hit), sel);
                            for k in 0..calls.get() {
                                let acts = [(k, Act::Fail(ErrorKind::Other))];
                                let (c2, h2) = (Cell::new(0), Cell::new(0));
                                let got = local(mode, Script::new(&data, sizes, &acts, &c2, &h2), sel);
                                ctx.trans(1);
                                ctx.outcome(if got.feats.is_empty() { "error before features" } else { "error after features" });
                                failed(&want, &got, || format!("{sel:?} fragments {sizes:?} call {k} fails"))?;
                            }
                        }
                        // every pair of deviations
                        if total <= ctx.t(40, 90) {
                            let acts = [Act::Short(1), Act::Short(3), Act::Fail(ErrorKind::Interrupted), Act::Fail(ErrorKind::Other)];
                            for k in 0..total {
                                for a in &acts[..3] {
                                    for k2 in k + 1..=k + total {
                                        for b in &acts {
                                            let script = [(k, *a), (k2, *b)];
                                            let got = local(mode, Script::new(&data, &[], &script, &calls, &hit), sel);
                                            ctx.trans(1);
                                            ctx.outcome("pair");
                                            if hit.get() > 0 {
                                                failed(&want, &got, || format!("{sel:?} {script:?}"))?;
                                            } else {
                                                unharmed(&want, &got, || format!("{sel:?} {script:?}"))?;
                                                if calls.get() <= k2 {
                                                    break;
                                                }
                                            }
                                        }
                                        if calls.get() <= k2 && hit.get() == 0 {
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

pub const P18: Prop = Prop {
    id: "P18",
    level: "fault_enumeration",
    run: run_delivery,
    case_secs: 240,
    required_outcomes: &["fragments", "deviation", "pair", "error before", "error after"],
    assumptions: &["a reader that fails does not also deliver bytes in the same call"],
    bounds: |t| match t {
        Tier::Quick => json!({"features": [0, 1, 2, 3, 5, 17, 20], "sections": 6, "selections": 13, "fragment_sizes": "1..64, around 4096 and 8192, all pairs up to 6", "deviations": "one at every call; all pairs when at most 40 calls", "error_kinds": 6}),
        Tier::Thorough => json!({"features": "0..5, 9, 16, 17, 20, 40, 257, 300", "sections": 6, "selections": 13, "fragment_sizes": "1..64, around 4096 and 8192, all pairs up to 12", "deviations": "one at every call; all pairs when at most 90 calls", "error_kinds": 6}),
    },
};

// ---------------------------------------------------------------- truncation

fn run_truncation(ctx: &mut Ctx) {
    let ns = ctx.t(vec![0usize, 1, 2, 3, 17], vec![0, 1, 2, 3, 4, 5, 16, 17, 18, 33, 257]);
    for n in ns {
        for sections in 0..SECTIONS {
            for mode in MODES {
                for s in 0..selections(n, sections).len() {
                    for part in 0..8usize {
                        ctx.case(|| format!("truncated:{n}:{sections}:{mode:?}:{s}:{part}"), |ctx| {
                            let data = file_of(n, sections)?;
                            let sel = &selections(n, sections)[s];
                            let run = |d: &[u8]| match mode {
                                Mode::Seek => run_seek(io::Cursor::new(d), sel),
                                Mode::Seq => run_seq(d, sel),
                                Mode::Http => run_http(Arc::new(d.to_vec()), sel),
                            };
                            let want = run(&data);
                            want.end.clone().map_err(|e| format!("whole file: {e}"))?;
                            if want.feats != read_mode(&data, Mode::Seek, sel)?.feats {
                                return Err("whole file: another result".into());
                            }
                            ctx.trace();
                            let mut len = part;
                            while len < data.len() {
                                let got = guarded(|| run(&data[..len])).map_err(|e| format!("{sel:?} cut to {len} of {}: {e}", data.len()))?;
                                ctx.state(&(n, sections, mode, s, len));
                                ctx.trans(got.feats.len() as u64 + 1);
                                let what = || format!("{sel:?} cut to {len} of {}", data.len());
                                if got.end.is_ok() {
                                    ctx.outcome("complete without the tail");
                                    unharmed(&want, &got, what)?;
                                } else {
                                    ctx.outcome(if got.feats.is_empty() { "error" } else { "error after features" });
                                    failed(&want, &got, what)?;
                                }
                                len += 8;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}

pub const P20: Prop = Prop {
    id: "P20",
    level: "fault_enumeration",
    run: run_truncation,
    case_secs: 240,
    required_outcomes: &["complete without", "error", "error after"],
    assumptions: &["a truncated file is a prefix of the file"],
    bounds: |t| match t {
        Tier::Quick => json!({"features": [0, 1, 2, 3, 17], "sections": 6, "selections": 13, "prefixes": "every proper prefix", "modes": 3}),
        Tier::Thorough => json!({"features": [0, 1, 2, 3, 4, 5, 16, 17, 18, 33, 257], "sections": 6, "selections": 13, "prefixes": "every proper prefix", "modes": 3}),
    },
};

// ---------------------------------------------------------------- output

#[derive(Clone, Copy, Debug)]
enum Sink {
    /// accepts this many bytes, then fails
    Full(usize, ErrorKind),
    /// accepts this many bytes, then accepts nothing
    Zero(usize),
    Fragment(usize),
    /// this call is interrupted
    Interrupt(usize),
    /// this call accepts only so many bytes
    Short(usize, usize),
    /// this call fails, later ones work
    Once(usize, ErrorKind),
    /// flushing fails
    Flush,
}

struct Out<'a> {
    got: &'a mut Vec<u8>,
    sink: Sink,
    calls: &'a mut usize,
    hit: &'a mut bool,
}

impl Write for Out<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = *self.calls;
        *self.calls += 1;
        let n = match self.sink {
            Sink::Full(b, e) => {
                if buf.is_empty() {
                    0
                } else if self.got.len() >= b {
                    *self.hit = true;
                    return Err(e.into());
                } else {
                    buf.len().min(b - self.got.len())
                }
            }
            Sink::Zero(b) => {
                if !buf.is_empty() && self.got.len() >= b {
                    *self.hit = true;
                }
                buf.len().min(b - self.got.len())
            }
            Sink::Fragment(f) => buf.len().min(f),
            Sink::Interrupt(i) if i == k => return Err(ErrorKind::Interrupted.into()),
            Sink::Once(i, e) if i == k => {
                *self.hit = true;
                return Err(e.into());
            }
            Sink::Short(i, f) if i == k => buf.len().min(f),
            _ => buf.len(),
        };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Sink::Flush = self.sink {
            *self.hit = true;
            return Err(ErrorKind::Other.into());
        }
        Ok(())
    }
}

fn out_file(n: usize, sections: usize, to: impl Write) -> Result<(), String> {
    let feats: Vec<Value> = (0..n)
        .map(|k| if sections >= 2 { attr_feature(k, &[words_of(k)]) } else { nth_feature(k, k % 3) })
        .collect();
    let mut o = Opts::plain(sections % 2 == 1);
    if sections >= 2 {
        o.schema = Some(schema(&[("s", C::String), ("i", C::Int), ("d", C::Double)]));
        o = match sections / 2 {
            1 => o.attr("i", Some(2)),
            _ => o.attr("d", None).attr("i", Some(3)).attr("s", Some(2)),
        };
    }
    with_writer(&base_meta(), &feats, &o, |w| w.write(to))?.map_err(|e| format!("write: {e}"))
}

fn run_sinks(ctx: &mut Ctx) {
    for n in ctx.t(vec![0usize, 1, 3, 17], vec![0, 1, 2, 3, 5, 17, 40]) {
        for sections in 0..SECTIONS {
            for buffered in [0usize, 1, 64, 8192] {
                ctx.case(|| format!("sink:{n}:{sections}:{buffered}"), |ctx| {
                    let want = file_of(n, sections)?;
                    let attempt = |sink: Sink| -> (Result<(), String>, Vec<u8>, usize, bool) {
                        let (mut got, mut calls, mut hit) = (Vec::new(), 0, false);
                        let r = {
                            let out = Out { got: &mut got, sink, calls: &mut calls, hit: &mut hit };
                            if buffered > 0 {
                                out_file(n, sections, BufWriter::with_capacity(buffered, out))
                            } else {
                                out_file(n, sections, out)
                            }
                        };
                        (r, got, calls, hit)
                    };
                    let (r, got, calls, _) = attempt(Sink::Fragment(usize::MAX));
                    r?;
                    if got != *want {
                        return Err("undisturbed file differs".into());
                    }
                    ctx.state(&(n, sections, buffered));
                    ctx.trace();
                    let mut sinks: Vec<Sink> = Vec::new();
                    for b in 0..want.len() {
                        sinks.push(Sink::Full(b, [ErrorKind::Other, ErrorKind::StorageFull, ErrorKind::WouldBlock][b % 3]));
                        if buffered == 0 || b % 7 == 0 {
                            sinks.push(Sink::Zero(b));
                        }
                    }
                    for f in (1..=64).chain([100, 1000, 4096, 8191, 8192, 8193]) {
                        sinks.push(Sink::Fragment(f));
                    }
                    for k in 0..calls.min(400) {
                        sinks.push(Sink::Interrupt(k));
                        for s in [1, 2, 7, 39] {
                            sinks.push(Sink::Short(k, s));
                        }
                        sinks.push(Sink::Once(k, ErrorKind::Other));
                        sinks.push(Sink::Once(k, ErrorKind::BrokenPipe));
                    }
                    sinks.push(Sink::Flush);
                    for sink in sinks {
                        let (r, got, _, hit) = attempt(sink);
                        ctx.trans(1);
                        if hit {
                            ctx.outcome(match sink {
                                Sink::Flush => "flush refused",
                                Sink::Zero(_) => "accepts nothing",
                                _ => "refused",
                            });
                            if r.is_ok() {
                                return Err(format!("{sink:?}: success reported with {} of {} bytes", got.len(), want.len()));
                            }
                        } else {
                            ctx.outcome("fragments");
                            r.map_err(|e| format!("{sink:?}: {e}"))?;
                            if got != *want {
                                return Err(format!("{sink:?}: other bytes written"));
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // features that are refused, at every set of positions
    let bad = |k: usize| {
        let mut f = nth_feature(k, 4);
        f["vertices"] = json!([[0, 0, 0], [i64::from(i32::MAX) + 1, 0, 0]]);
        f
    };
    for n in 1..=ctx.t(4usize, 6) {
        for set in 1..(1usize << n) {
            for sections in [0usize, 1, 3, 5] {
                ctx.case(|| format!("refused:{n}:{set:b}:{sections}"), |ctx| {
                    let o = {
                        let mut o = Opts::plain(sections % 2 == 1);
                        o.schema = Some(schema(&[("i", C::Int)]));
                        if sections >= 2 {
                            o = o.attr("i", Some(2));
                        }
                        o
                    };
                    let good = |k: usize| {
                        let mut m = Map::new();
                        m.insert("i".into(), json!(k));
                        attr_feature(k, &[m])
                    };
                    let kept: Vec<Value> = (0..n).filter(|k| set >> k & 1 == 0).map(good).collect();
                    let want = write_fcb(&base_meta(), &kept, &Opts { count: Some(n as u64), ..o.clone() })?;
                    let all: Vec<_> = (0..n)
                        .map(|k| (set >> k & 1 == 1, parse_feature(&if set >> k & 1 == 1 { bad(k) } else { good(k) })))
                        .collect();
                    let mut got = Vec::new();
                    let none: Vec<Value> = vec![];
                    let opts = Opts { count: Some(n as u64), ..o };
                    // the writer outlives its features here
                    let r = with_writer_and(&base_meta(), &none, &opts, &all, &mut got)?;
                    ctx.trans(n as u64);
                    ctx.trace();
                    ctx.outcome("feature refused");
                    r?;
                    if got != want {
                        return Err("the file differs from one written without the refused features".into());
                    }
                    Ok(())
                });
            }
        }
    }
}

fn with_writer_and(
    meta: &Value,
    _none: &[Value],
    o: &Opts,
    all: &[(bool, cjseq::CityJSONFeature)],
    out: &mut Vec<u8>,
) -> Result<Result<(), String>, String> {
    let ho = fcb_core::header_writer::HeaderWriterOptions {
        write_index: o.index,
        feature_count: o.count.unwrap_or(0),
        index_node_size: 16,
        attribute_indices: if o.attrs.is_empty() { None } else { Some(o.attrs.clone()) },
        geographical_extent: None,
    };
    let mut w = fcb_core::FcbWriter::new(parse_cj(meta), Some(ho), o.schema.clone(), None).map_err(|e| e.to_string())?;
    for (bad, f) in all {
        match (bad, w.add_feature(f)) {
            (true, Ok(())) => return Ok(Err("a vertex the format cannot hold was accepted".into())),
            (false, Err(e)) => return Ok(Err(format!("refused: {e}"))),
            _ => {}
        }
    }
    w.write(out).map_err(|e| e.to_string())?;
    Ok(Ok(()))
}

pub const P22: Prop = Prop {
    id: "P22",
    level: "fault_enumeration",
    run: run_sinks,
    case_secs: 240,
    required_outcomes: &["refused", "accepts nothing", "fragments", "feature refused", "flush refused"],
    assumptions: &["the temporary file the writer keeps its features in works"],
    bounds: |t| match t {
        Tier::Quick => json!({"features": [0, 1, 3, 17], "sections": 6, "failing_byte": "every", "fragment_sizes": "1..64 and 6 larger", "deviating_call": "every of the first 400", "refused_features": "every set of up to 4", "buffering": [0, 1, 64, 8192]}),
        Tier::Thorough => json!({"features": [0, 1, 2, 3, 5, 17, 40], "sections": 6, "failing_byte": "every", "fragment_sizes": "1..64 and 6 larger", "deviating_call": "every of the first 400", "refused_features": "every set of up to 6", "buffering": [0, 1, 64, 8192]}),
    },
};
