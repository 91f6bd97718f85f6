//! P21 corrupt files: every bounded change of the bytes ends in a result or an
//! error, in bounded memory.

use super::attrs::{attr_feature, schema};
use super::cli::{rich, use_file};
use super::faults::{file_of, selections, SECTIONS};
use super::Prop;
use crate::core::{guarded, Ctx, Tier};
use crate::data::*;
use crate::webmock::{block_on, Fault, Web};
use fcb_core::header_generated::ColumnType as C;
use fcb_core::packed_rtree::Query;
use fcb_core::{deserializer, FcbReader, FixedStringKey, HttpFcbReader, KeyType, Operator};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::io::Cursor;
use std::sync::Arc;

// ------------------------------------------------------------------ memory

/// Counts what the current thread holds. While a limit is set, a request that
/// passes the hard limit fails, which ends the process: the supervisor then
/// names the case.
pub struct Counting;

thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMITED: Cell<bool> = const { Cell::new(false) };
}

const HARD: isize = 1 << 30;
const SOFT: isize = 64 << 20;

fn grown(n: isize) {
    let _ = HELD.try_with(|h| {
        h.set(h.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(h.get())));
    });
}

fn refused(n: usize) -> bool {
    LIMITED.try_with(|l| l.get()).unwrap_or(false) && HELD.try_with(|h| h.get()).unwrap_or(0) + n as isize > HARD
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        grown(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        grown(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grown(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refused(n - l.size()) {
            return std::ptr::null_mut();
        }
        grown(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Runs `f` and says how much memory it held beyond what was held before.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let before = HELD.with(|h| h.get());
    PEAK.with(|p| p.set(before));
    LIMITED.with(|l| l.set(true));
    let r = f();
    LIMITED.with(|l| l.set(false));
    (r, PEAK.with(|p| p.get()) - before)
}

// ---------------------------------------------------------------- exercise

/// How an attempt to use a file ended.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum End {
    Open,
    Select,
    Next,
    /// everything was delivered; some of it may have been refused by decoding
    Read,
    Decode,
    Endless,
}

fn poke_header(h: fcb_core::Header) -> usize {
    let mut n = deserializer::to_cj_metadata(&h).is_ok() as usize;
    n += h.title().map_or(0, |s| s.len());
    for c in h.columns().iter().flatten() {
        n += c.name().len() + c.index() as usize + c.description().map_or(0, |d| d.len());
    }
    for c in h.semantic_columns().iter().flatten() {
        n += c.name().len();
    }
    for a in h.attribute_index().iter().flatten() {
        n += a.length() as usize;
    }
    n
}

/// More features than any of the files could hold.
const MANY: usize = 5000;

macro_rules! drain {
    ($it:expr) => {{
        match $it {
            Err(_) => End::Select,
            Ok(mut it) => {
                poke_header(it.header());
                let mut end = End::Read;
                let mut n = 0;
                loop {
                    let (lo, hi) = fallible_streaming_iterator::FallibleStreamingIterator::size_hint(&it);
                    assert!(hi.map_or(true, |hi| lo <= hi), "the size hint is {lo} to {hi:?}");
                    it.features_count();
                    match it.next() {
                        Ok(Some(f)) => {
                            if f.cur_cj_feature().is_err() {
                                end = End::Decode;
                            }
                            f.cur_feature().id();
                        }
                        Ok(None) => break end,
                        Err(_) => {
                            for _ in 0..2 {
                                assert!(!matches!(it.next(), Ok(Some(_))), "a feature after a failure");
                            }
                            break End::Next;
                        }
                    }
                    if let Some(b) = fallible_streaming_iterator::FallibleStreamingIterator::get(&it) {
                        if n == 0 {
                            let _ = b.meta();
                        }
                        let _ = b.cj_feature();
                    }
                    n += 1;
                    if n > MANY {
                        break End::Endless;
                    }
                }
            }
        }
    }};
}

fn exercise(data: &Arc<Vec<u8>>, mode: Mode, sel: &Sel) -> End {
    match mode {
        Mode::Seek => match FcbReader::open(Cursor::new(&data[..])) {
            Err(_) => End::Open,
            Ok(rd) => {
                poke_header(rd.header());
                match sel {
                    Sel::All => drain!(rd.select_all()),
                    Sel::Spatial(q) => drain!(rd.select_query(*q)),
                    Sel::Attr(q) => drain!(rd.select_attr_query(q.clone())),
                }
            }
        },
        Mode::Seq => match FcbReader::open(&data[..]) {
            Err(_) => End::Open,
            Ok(rd) => match sel {
                Sel::All => drain!(rd.select_all_seq()),
                Sel::Spatial(q) => drain!(rd.select_query_seq(*q)),
                Sel::Attr(q) => drain!(rd.select_attr_query_seq(q.clone())),
            },
        },
        Mode::Http => {
            let (web, _) = Web::new(data.clone(), Fault::None, 0);
            block_on(async {
                let rd = match HttpFcbReader::new(AsyncBufferedHttpRangeClient::with(web, "http://mock/f.fcb")).await {
                    Ok(rd) => rd,
                    Err(_) => return End::Open,
                };
                poke_header(rd.header());
                let it = match sel {
                    Sel::All => rd.select_all().await,
                    Sel::Spatial(q) => rd.select_query(*q).await,
                    Sel::Attr(q) => rd.select_attr_query(q).await,
                };
                let mut it = match it {
                    Ok(it) => it,
                    Err(_) => return End::Select,
                };
                it.features_count();
                let mut end = End::Read;
                let mut n = 0;
                loop {
                    match it.next().await {
                        Ok(Some(b)) => {
                            if n == 0 {
                                let _ = b.meta();
                            }
                            if b.cj_feature().is_err() || it.cur_cj_feature().is_err() {
                                end = End::Decode;
                            }
                        }
                        Ok(None) => return end,
                        Err(_) => {
                            // a client may ask again
                            for _ in 0..2 {
                                let _ = it.next().await;
                            }
                            return End::Next;
                        }
                    }
                    n += 1;
                    if n > MANY {
                        return End::Endless;
                    }
                }
            })
        }
    }
}

// ------------------------------------------------------------------- files

struct Base {
    name: &'static str,
    data: Arc<Vec<u8>>,
    sels: Vec<Sel>,
}

impl Base {
    fn header_end(&self) -> usize {
        12 + u32::from_le_bytes(self.data[8..12].try_into().unwrap()) as usize
    }
    /// Where the features begin, found from their size prefixes.
    fn features_begin(&self, n: usize) -> usize {
        let d = &self.data;
        let mut starts: Vec<usize> = (self.header_end()..=d.len())
            .filter(|s| {
                let mut p = *s;
                for _ in 0..n {
                    if p + 4 > d.len() {
                        return false;
                    }
                    let l = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
                    if l < 16 {
                        return false;
                    }
                    p = p.saturating_add(4).saturating_add(l);
                }
                p == d.len()
            })
            .collect();
        starts.pop().unwrap_or(self.header_end())
    }
}

fn spatial() -> Vec<Sel> {
    [
        Query::BBox(-1e9, -1e9, 1e9, 1e9),
        Query::BBox(0.5, -10.0, 2.5, 1.0),
        Query::PointIntersects(2.0, 1.0),
        Query::PointNearest(1.0, 0.5),
    ]
    .map(Sel::Spatial)
    .to_vec()
}

fn cond(name: &str, op: Operator, k: KeyType) -> Sel {
    Sel::Attr(vec![(name.to_string(), op, k)])
}

const NAMES: [&str; 12] = [
    "sections 0", "sections 1", "sections 2", "sections 3", "sections 4", "sections 5", "empty", "rich", "kinds", "deep",
    "deep attributes", "long",
];

fn base(k: usize) -> Result<Base, String> {
    let name = NAMES[k];
    let (data, sels) = match k {
        0..SECTIONS => (file_of(2, k)?, selections(2, k)),
        6 => (file_of(0, 0)?, vec![Sel::All, Sel::Spatial(Query::BBox(0.0, 0.0, 1.0, 1.0))]),
        7 => {
            let d = rich();
            let o = Opts::plain(true).attr("i", None);
            let mut sels = vec![Sel::All];
            sels.push(cond("i", Operator::Ge, KeyType::Int64(0)));
            (Arc::new(write_fcb(&d.meta, &d.feats, &o)?), sels)
        }
        8 => {
            // a column and an index of every type
            let date = |v: &str| {
                KeyType::DateTime(v.parse::<chrono::DateTime<chrono::Utc>>().unwrap())
            };
            let t = [
                ("bool", C::Bool, json!(true), KeyType::Bool(true)),
                ("byte", C::Byte, json!(-3), KeyType::Int8(-3)),
                ("ubyte", C::UByte, json!(3), KeyType::UInt8(3)),
                ("short", C::Short, json!(-300), KeyType::Int16(-300)),
                ("ushort", C::UShort, json!(300), KeyType::UInt16(300)),
                ("int", C::Int, json!(-70000), KeyType::Int32(-70000)),
                ("uint", C::UInt, json!(70000), KeyType::UInt32(70000)),
                ("long", C::Long, json!(-5_000_000_000i64), KeyType::Int64(-5_000_000_000)),
                ("ulong", C::ULong, json!(5_000_000_000u64), KeyType::UInt64(5_000_000_000)),
                ("float", C::Float, json!(0.5), KeyType::Float32(fcb_core::Float(0.5))),
                ("double", C::Double, json!(0.25), KeyType::Float64(fcb_core::Float(0.25))),
                ("string", C::String, json!("abc"), KeyType::StringKey50(FixedStringKey::from_str("abc"))),
                ("date", C::DateTime, json!("2024-02-29T12:00:00Z"), date("2024-02-29T12:00:00Z")),
                ("json", C::Json, json!({"a": [1]}), KeyType::Bool(true)),
            ];
            let attrs: serde_json::Map<String, Value> = t.iter().map(|x| (x.0.into(), x.2.clone())).collect();
            let feats = vec![attr_feature(0, &[attrs.clone()]), attr_feature(1, &[attrs.clone()])];
            let mut o = Opts::plain(false);
            o.schema = Some(schema(&t.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()));
            let mut sels = vec![Sel::All];
            for x in &t[..t.len() - 1] {
                o = o.attr(x.0, Some(2));
                sels.push(cond(x.0, Operator::Eq, x.3.clone()));
                sels.push(cond(x.0, Operator::Ne, x.3.clone()));
                sels.push(cond(x.0, Operator::Le, x.3.clone()));
            }
            (Arc::new(write_fcb(&base_meta(), &feats, &o)?), sels)
        }
        // three levels of the tree
        9 => (file_of(18, 1)?, { let mut s = spatial(); s.push(Sel::All); s }),
        10 => (file_of(18, 5)?, selections(18, 5)),
        _ => {
            // wide strings, long rings
            let mut f = box_feature("f", [0, 0, 4, 4]);
            f["CityObjects"]["f"]["attributes"] = json!({"s": "x".repeat(90)});
            (Arc::new(write_fcb(&base_meta(), &[f], &Opts::plain(true).attr("s", None))?),
             vec![Sel::All, cond("s", Operator::Gt, KeyType::StringKey50(FixedStringKey::from_str("a")))])
        }
    };
    Ok(Base { name, data, sels })
}

fn region(b: &Base, k: usize) -> std::ops::Range<usize> {
    match k {
        // only the index
        9 | 10 => b.header_end()..b.features_begin(18),
        _ => 0..b.data.len(),
    }
}

// --------------------------------------------------------------- mutations

fn put(d: &mut [u8], at: usize, v: &[u8]) {
    d[at..at + v.len()].copy_from_slice(v);
}

/// The new contents of the bytes at `at`.
fn values(d: &[u8], at: usize, all: bool) -> Vec<Vec<u8>> {
    let b = d[at];
    let mut out: BTreeSet<Vec<u8>> = BTreeSet::new();
    if all {
        out.extend((0..=255u8).map(|v| vec![v]));
    } else {
        out.extend([0, 1, 2, 0x7f, 0x80, 0xff, b ^ 1, b ^ 0x80, b.wrapping_add(1), b.wrapping_sub(1)].map(|v| vec![v]));
    }
    if at + 4 <= d.len() {
        let w = u32::from_le_bytes(d[at..at + 4].try_into().unwrap());
        out.extend(
            [0, 1, 2, 3, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0, w.wrapping_add(1), w.wrapping_sub(1), w.wrapping_neg()]
                .map(|v: u32| v.to_le_bytes().to_vec()),
        );
    }
    if at + 8 <= d.len() {
        let w = u64::from_le_bytes(d[at..at + 8].try_into().unwrap());
        out.extend(
            [0, 1, 1 << 32, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 40, u64::MAX, w.wrapping_add(1), w.wrapping_sub(1), f64::NAN.to_bits(), f64::INFINITY.to_bits(), (-1e300f64).to_bits()]
                .map(|v: u64| v.to_le_bytes().to_vec()),
        );
    }
    out.into_iter().filter(|v| d[at..at + v.len()] != v[..]).collect()
}

fn must_refuse(d: &[u8]) -> Option<&'static str> {
    if d[0..3] != b"fcb"[..] || d[4..7] != b"fcb"[..] || d[3] > 1 {
        return Some("wrong magic bytes");
    }
    let size = u32::from_le_bytes(d[8..12].try_into().unwrap()) as usize;
    if !(8..=512 << 20).contains(&size) {
        return Some("an impossible header size");
    }
    if size > d.len() - 12 {
        return Some("a header beyond the end");
    }
    None
}

/// One corrupted file, everything that can be done with it.
fn judge(ctx: &mut Ctx, d: &Arc<Vec<u8>>, sels: &[Sel], what: &dyn Fn() -> String) -> Result<(), String> {
    let bad = must_refuse(d);
    for mode in MODES {
        for sel in sels {
            let at = || format!("{} {mode:?} {sel:?}", what());
            let (r, peak) = measured(|| guarded(|| exercise(d, mode, sel)));
            let end = r.map_err(|e| format!("{}: {e}", at()))?;
            ctx.trans(1);
            if end == End::Endless {
                return Err(format!("{}: more than {MANY} features from {} bytes", at(), d.len()));
            }
            if peak > SOFT {
                return Err(format!("{}: held {peak} bytes for a file of {}", at(), d.len()));
            }
            if let (Some(bad), true) = (bad, end != End::Open) {
                return Err(format!("{}: {bad} not refused", at()));
            }
            ctx.outcome(match end {
                End::Open => "refused at opening",
                End::Select => "refused by the selection",
                End::Next => "refused while iterating",
                End::Decode => "refused by decoding",
                _ => "read",
            });
            if end == End::Open {
                // nothing else to do with it in this mode
                break;
            }
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx) {
    for k in 0..NAMES.len() {
        let b = match base(k) {
            Ok(b) => b,
            Err(e) => {
                ctx.case(|| format!("corrupt:{k}"), |_| Err(e));
                continue;
            }
        };
        // the file itself is fine
        ctx.case(|| format!("corrupt:{k}:whole"), |ctx| {
            for mode in MODES {
                for sel in &b.sels {
                    let end = exercise(&b.data, mode, sel);
                    let none = k == 6 && !matches!(sel, Sel::All);
                    if end != if none { End::Select } else { End::Read } {
                        return Err(format!("{} {mode:?} {sel:?} undamaged: {end:?}", b.name));
                    }
                }
            }
            ctx.trace();
            Ok(())
        });
        let all = !ctx.quick();
        for at in region(&b, k) {
            ctx.case(|| format!("corrupt:{k}:{at}"), |ctx| {
                for v in values(&b.data, at, all) {
                    let mut d = b.data.to_vec();
                    put(&mut d, at, &v);
                    ctx.state(&d[..]);
                    judge(ctx, &Arc::new(d), &b.sels, &|| format!("{} byte {at} of {} := {v:02x?}", b.name, b.data.len()))?;
                }
                ctx.trace();
                Ok(())
            });
        }
    }
}

/// Two words of a header at once: sizes and counts that only together mislead.
fn run_pairs(ctx: &mut Ctx) {
    let files: &[usize] = if ctx.quick() { &[5] } else { &[0, 1, 2, 3, 4, 5, 7] };
    let wanted: &[u32] = if ctx.quick() { &[0, u32::MAX] } else { &[0, 1, 2, 0x7fff_ffff, u32::MAX] };
    for &k in files {
        let Ok(b) = base(k) else { continue };
        let words: Vec<usize> = (8..b.header_end()).step_by(4).filter(|p| p + 4 <= b.header_end()).collect();
        for &first in &words {
            ctx.case(|| format!("corrupt:{k}:{first}:pairs"), |ctx| {
                for &second in words.iter().filter(|w| **w > first) {
                    for v in wanted {
                        for w in wanted {
                            let mut d = b.data.to_vec();
                            put(&mut d, first, &v.to_le_bytes());
                            put(&mut d, second, &w.to_le_bytes());
                            ctx.state(&d[..]);
                            judge(ctx, &Arc::new(d), &b.sels, &|| format!("{} words {first} and {second} := {v:#x} and {w:#x}", b.name))?;
                        }
                    }
                }
                ctx.trace();
                Ok(())
            });
        }
    }
}

/// The command line tool on damaged files.
fn run_tool(ctx: &mut Ctx) {
    for k in [5, 7] {
        let Ok(b) = base(k) else { continue };
        let end = if ctx.quick() { b.header_end() } else { b.data.len() };
        for at in 0..end {
            ctx.case(|| format!("corrupt:{k}:{at}:tool"), |ctx| {
                let mut all: Vec<Vec<u8>> = vec![vec![b.data[at] ^ 1], vec![0xff]];
                if at % 4 == 0 && at + 4 <= b.data.len() {
                    all.push(vec![0xff; 4]);
                    all.push(vec![0; 4]);
                }
                for v in all {
                    let mut d = b.data.to_vec();
                    put(&mut d, at, &v);
                    ctx.state(&(&d[..], "tool"));
                    let what = || format!("{} byte {at} of {} := {v:02x?}", b.name, b.data.len());
                    let ok = use_file(&d).map_err(|e| format!("{}: {e}", what()))?;
                    ctx.trans(2);
                    if let (Some(bad), true) = (must_refuse(&d), ok[0] || ok[1]) {
                        return Err(format!("{}: {bad} not refused by the tool", what()));
                    }
                    ctx.outcome(if ok[1] { "read by the tool" } else { "refused by the tool" });
                }
                ctx.trace();
                Ok(())
            });
        }
    }
}

fn run_all(ctx: &mut Ctx) {
    run(ctx);
    run_pairs(ctx);
    run_tool(ctx);
}

pub const P21: Prop = Prop {
    id: "P21",
    level: "fault_enumeration",
    run: run_all,
    case_secs: 240,
    required_outcomes: &["read by the tool", "refused by the tool", "refused at opening", "refused by the selection", "refused while iterating", "refused by decoding", "read"],
    assumptions: &["memory is bounded if no single use of a file of a few kilobytes holds more than 64 MB"],
    bounds: |t| json!({"files": NAMES.len(), "byte values": if t == Tier::Quick { "10 per position" } else { "all 256" }, "word values": 15, "wide values": 14, "pairs of header words": if t == Tier::Quick { "1 file, 2 values each" } else { "7 files, 5 values each" }, "files given to the tool": 2}),
};
