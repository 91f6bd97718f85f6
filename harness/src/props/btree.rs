//! P12 the attribute index in its four forms, P13 keys.

use super::Prop;
use crate::core::{guarded, Ctx, Tier};
use crate::shapes::odometer;
use crate::webmock::{block_on, Fault, Web};
use chrono::{DateTime, TimeZone, Utc};
use fcb_core::static_btree::{
    Entry, FixedStringKey, Float, HttpIndex, HttpMultiIndex, Key, KeyType, MemoryIndex,
    MemoryMultiIndex, MultiIndex, Operator, QueryCondition, SearchIndex, StreamIndex,
    StreamMultiIndex, Stree,
};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::json;
use std::fmt::Debug;
use std::io::{Cursor, Seek, SeekFrom};
use std::sync::Arc;

pub const OPS: [Operator; 6] =
    [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Lt, Operator::Ge, Operator::Le];

pub fn holds<T: PartialOrd>(op: Operator, v: &T, k: &T) -> bool {
    match op {
        Operator::Eq => v == k,
        Operator::Ne => v != k,
        Operator::Gt => v > k,
        Operator::Lt => v < k,
        Operator::Ge => v >= k,
        Operator::Le => v <= k,
    }
}

/// A key type of the index together with its place in queries.
pub trait TestKey: Key + Send + Sync + Hash2 + 'static {
    const NAME: &'static str;
    fn kt(&self) -> KeyType;
    fn mem(m: &mut MemoryMultiIndex, f: &str, i: MemoryIndex<Self>);
    fn stream(m: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64);
    fn http(m: &mut HttpMultiIndex<Web>, f: &str, i: HttpIndex<Self>);
}
/// Something to hash a key by.
pub trait Hash2 {
    fn bytes(&self) -> Vec<u8>;
}
impl<K: Key> Hash2 for K {
    fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        let _ = self.write_to(&mut v);
        v
    }
}

macro_rules! test_key {
    ($t:ty, $variant:ident, $mem:ident) => {
        impl TestKey for $t {
            const NAME: &'static str = stringify!($variant);
            fn kt(&self) -> KeyType {
                KeyType::$variant(self.clone())
            }
            fn mem(m: &mut MemoryMultiIndex, f: &str, i: MemoryIndex<Self>) {
                m.$mem(f.to_string(), i)
            }
            fn stream(m: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64) {
                m.$mem(f.to_string(), i, len)
            }
            fn http(m: &mut HttpMultiIndex<Web>, f: &str, i: HttpIndex<Self>) {
                m.add_index(f.to_string(), i)
            }
        }
    };
}
test_key!(i8, Int8, add_i8_index);
test_key!(u8, UInt8, add_u8_index);
test_key!(i16, Int16, add_i16_index);
test_key!(u16, UInt16, add_u16_index);
test_key!(i32, Int32, add_i32_index);
test_key!(u32, UInt32, add_u32_index);
test_key!(i64, Int64, add_i64_index);
test_key!(u64, UInt64, add_u64_index);
test_key!(Float<f32>, Float32, add_f32_index);
test_key!(Float<f64>, Float64, add_f64_index);
test_key!(bool, Bool, add_bool_index);
test_key!(DateTime<Utc>, DateTime, add_datetime_index);
test_key!(FixedStringKey<20>, StringKey20, add_string_index20);
test_key!(FixedStringKey<50>, StringKey50, add_string_index50);
test_key!(FixedStringKey<100>, StringKey100, add_string_index100);

type Web8 = AsyncBufferedHttpRangeClient<Web>;

fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v
}

/// One index in all its forms, and the list it stands for.
struct Forms<K: TestKey> {
    list: Vec<(K, u64)>,
    mem: MemoryIndex<K>,
    loaded: MemoryIndex<K>,
    /// where the index starts in `file`
    at: usize,
    file: Arc<Vec<u8>>,
    feature_begin: usize,
    stream: StreamIndex<K>,
    http: HttpIndex<K>,
    /// keys that separate two nodes
    internal: Vec<K>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Built,
    Loaded,
    Stream,
    Http,
}

impl<K: TestKey> Forms<K> {
    fn new(list: Vec<(K, u64)>, bf: u16, before: usize, after: usize, threshold: usize) -> Result<Forms<K>, String> {
        // entries in an order that is not the sorted one
        let mut entries: Vec<Entry<K>> =
            list.iter().map(|(k, o)| Entry { key: k.clone(), offset: *o }).collect();
        let n = entries.len();
        entries.rotate_left(n / 3);
        if n > 2 {
            entries.swap(0, n - 1);
        }
        let mem = guarded(|| MemoryIndex::<K>::build(&entries, bf))?.map_err(|e| format!("build: {e}"))?;
        let mut buf = Vec::new();
        let said = mem.serialize(&mut buf).map_err(|e| format!("serialize: {e}"))?;
        if said != buf.len() {
            return Err(format!("serialize says {said} bytes but wrote {}", buf.len()));
        }
        let num = mem.num_items();
        let mut distinct: Vec<&K> = list.iter().map(|e| &e.0).collect();
        distinct.sort();
        distinct.dedup();
        if num != distinct.len() {
            return Err(format!("{num} unique keys stored, expected {}", distinct.len()));
        }
        let stored_bf = mem.branching_factor();
        let loaded = MemoryIndex::<K>::from_buf(Cursor::new(&buf), num, stored_bf)
            .map_err(|e| format!("load: {e}"))?;
        let size = Stree::<K>::index_size(num, stored_bf, mem.payload_size());
        if size != buf.len() {
            return Err(format!("index size computed as {size}, {} written", buf.len()));
        }
        let mut file = vec![0xABu8; before];
        file.extend_from_slice(&buf);
        let feature_begin = file.len();
        file.extend(std::iter::repeat_n(0xCDu8, after));
        let internal =
            distinct.iter().skip(1).enumerate().filter(|(i, _)| (i + 1) % (stored_bf as usize - 1) == 0).map(|(_, k)| (*k).clone()).collect();
        Ok(Forms {
            internal,
            list,
            mem,
            loaded,
            at: before,
            feature_begin,
            stream: StreamIndex::new(num, stored_bf, before as u64, buf.len() as u64),
            http: HttpIndex::new(num, stored_bf, before, feature_begin, threshold),
            file: Arc::new(file),
        })
    }

    fn client(&self) -> Web8 {
        AsyncBufferedHttpRangeClient::with(Web::new(self.file.clone(), Fault::None, 0).0, "http://mock/i")
    }

    fn cursor(&self) -> Cursor<&[u8]> {
        let mut c = Cursor::new(self.file.as_slice());
        c.seek(SeekFrom::Start(self.at as u64)).unwrap();
        c
    }

    fn exact(&self, form: Form, key: &K) -> Result<Vec<u64>, String> {
        match form {
            Form::Built => self.mem.find_exact(key.clone()).map_err(|e| e.to_string()),
            Form::Loaded => self.loaded.find_exact(key.clone()).map_err(|e| e.to_string()),
            Form::Stream => self
                .stream
                .find_exact_with_reader(&mut self.cursor(), key.clone())
                .map_err(|e| e.to_string()),
            Form::Http => {
                block_on(async { self.http.find_exact(&mut self.client(), key.clone()).await })
                    .map_err(|e| e.to_string())
                    .map(|v| v.iter().map(|i| (i.range.start() - self.feature_begin) as u64).collect())
            }
        }
    }

    fn range(&self, form: Form, a: Option<&K>, b: Option<&K>) -> Result<Vec<u64>, String> {
        let (a, b) = (a.cloned(), b.cloned());
        match form {
            Form::Built => self.mem.find_range(a, b).map_err(|e| e.to_string()),
            Form::Loaded => self.loaded.find_range(a, b).map_err(|e| e.to_string()),
            Form::Stream => self
                .stream
                .find_range_with_reader(&mut self.cursor(), a, b)
                .map_err(|e| e.to_string()),
            Form::Http => block_on(async { self.http.find_range(&mut self.client(), a, b).await })
                .map_err(|e| e.to_string())
                .map(|v| v.iter().map(|i| (i.range.start() - self.feature_begin) as u64).collect()),
        }
    }

    fn want(&self, f: impl Fn(&K) -> bool) -> Vec<u64> {
        sorted(self.list.iter().filter(|e| f(&e.0)).map(|e| e.1).collect())
    }

    fn check_exact(&self, ctx: &mut Ctx, forms: &[Form], key: &K) -> Result<(), String> {
        let want = self.want(|k| k == key);
        ctx.outcome(match want.len() {
            0 => "exact-none",
            1 => "exact-one",
            _ => "exact-more",
        });
        for f in forms {
            ctx.trans(1);
            let got = sorted(self.exact(*f, key).map_err(|e| format!("{f:?} = {key:?}: {e}"))?);
            if got != want {
                return Err(format!("{f:?} = {key:?}: expected {want:?} got {got:?}"));
            }
        }
        Ok(())
    }

    fn check_range(&self, ctx: &mut Ctx, forms: &[Form], a: Option<&K>, b: Option<&K>) -> Result<(), String> {
        let want = self.want(|k| a.is_none_or(|a| k >= a) && b.is_none_or(|b| k <= b));
        ctx.outcome(if want.is_empty() {
            "range-none"
        } else if want.len() == self.list.len() {
            "range-all"
        } else {
            "range-some"
        });
        for f in forms {
            ctx.trans(1);
            let got =
                sorted(self.range(*f, a, b).map_err(|e| format!("{f:?} {a:?}..={b:?}: {e}"))?);
            if got != want {
                // the in-memory closed range leaves out an upper bound that separates two
                // nodes; "closed-memory" cases report that, here it is only told apart from
                // anything else
                if matches!(f, Form::Built | Form::Loaded) && self.short_by_upper(a, b, &got) {
                    ctx.outcome("upper-left-out");
                    continue;
                }
                return Err(format!("{f:?} {a:?}..={b:?}: expected {want:?} got {got:?}"));
            }
        }
        Ok(())
    }

    /// Is this the result of `a..=b` without the entries of `b`, a key separating two nodes?
    fn short_by_upper(&self, a: Option<&K>, b: Option<&K>, got: &[u64]) -> bool {
        match (a, b) {
            (Some(a), Some(b)) => {
                a < b && self.internal.contains(b) && got == self.want(|k| k >= a && k < b)
            }
            _ => false,
        }
    }

    /// Every comparison with this key through the multi-index of each form.
    fn check_ops(&self, ctx: &mut Ctx, key: &K) -> Result<(), String> {
        let mut mem = MemoryMultiIndex::new();
        K::mem(&mut mem, "f", self.loaded.clone());
        let mut stream = StreamMultiIndex::new();
        K::stream(&mut stream, "f", self.stream.clone(), (self.feature_begin - self.at) as u64);
        let mut http = HttpMultiIndex::new();
        K::http(&mut http, "f", self.http.clone());
        for op in OPS {
            let want = self.want(|k| holds(op, k, key));
            let cond = [QueryCondition { field: "f".into(), operator: op, key: key.kt() }];
            let got = [
                mem.query(&cond).map_err(|e| e.to_string()),
                stream.query(&mut self.cursor(), &cond).map_err(|e| e.to_string()),
                block_on(async { http.query(&mut self.client(), &cond).await })
                    .map_err(|e| e.to_string())
                    .map(|v| v.iter().map(|i| (i.range.start() - self.feature_begin) as u64).collect()),
            ];
            for (g, form) in got.into_iter().zip(["memory", "stream", "http"]) {
                ctx.trans(1);
                let got = sorted(g.map_err(|e| format!("{form} {op:?} {key:?}: {e}"))?);
                if got != want {
                    return Err(format!("{form} {op:?} {key:?}: expected {want:?} got {got:?}"));
                }
            }
            ctx.outcome(&format!("op-{op:?}"));
        }
        Ok(())
    }
}

/// keys with `mult(i)` offsets each
fn listed<K: TestKey>(keys: &[K], mult: impl Fn(usize) -> usize) -> Vec<(K, u64)> {
    let total: usize = (0..keys.len()).map(&mult).sum();
    // a permutation of the offsets
    let step = [7, 11, 13].into_iter().find(|s| total % s != 0).unwrap_or(1);
    let mut k = 0;
    let mut out = Vec::new();
    for (i, key) in keys.iter().enumerate() {
        for _ in 0..mult(i) {
            out.push((key.clone(), ((k * step) % total) as u64 * 16));
            k += 1;
        }
    }
    out
}

const LOCAL: [Form; 2] = [Form::Built, Form::Loaded];
const FILE: [Form; 3] = [Form::Built, Form::Loaded, Form::Stream];
const EVERY: [Form; 4] = [Form::Built, Form::Loaded, Form::Stream, Form::Http];

fn run_index(ctx: &mut Ctx) {
    let bfs = [0u16, 1, 2, 3, 4, 5, 6, 8, 16, 17, 255, 65535];
    // keys 10, 12, ..: every key and gap, every pair of them, every size
    for n in 1..=ctx.t(48usize, 90) {
        for bf in bfs {
            for mult in 0..4usize {
                let m = move |i: usize| match mult {
                    0 => 1,
                    1 => 2,
                    2 => 1 + i % 3,
                    _ => if i % 5 == 4 || i + 1 == n { 3 } else { 1 },
                };
                for ext in 0..2 {
                    if ext == 1 && mult == 1 {
                        continue;
                    }
                    ctx.case(|| format!("keys:{n}:{bf}:{mult}:{ext}"), |ctx| {
                        let mut keys: Vec<i32> = (0..n as i32).map(|i| 10 + 2 * i).collect();
                        if ext == 1 {
                            // the extreme values as keys
                            keys[n - 1] = i32::MAX;
                            if n > 1 {
                                keys[0] = i32::MIN;
                            }
                        }
                        let f = Forms::new(listed(&keys, m), bf, 16, 64, 1 << 20)?;
                        ctx.state(&(n, bf, mult, ext));
                        ctx.trace();
                        let mut probes: Vec<i32> = (8..12 + 2 * n as i32).collect();
                        probes.extend([i32::MIN, i32::MIN + 1, -1, i32::MAX - 1, i32::MAX]);
                        for p in &probes {
                            let forms: &[Form] = if n <= 20 || *p % 5 == 0 { &EVERY } else { &FILE };
                            f.check_exact(ctx, forms, p)?;
                            f.check_range(ctx, forms, Some(p), None)?;
                            f.check_range(ctx, forms, None, Some(p))?;
                        }
                        for (i, a) in probes.iter().enumerate() {
                            for (j, b) in probes.iter().enumerate() {
                                let forms: &[Form] = if n <= 6 || (i * 7 + j * 3) % 31 == 0 && n <= 24 {
                                    &EVERY
                                } else if n <= 16 || (i + j) % 5 == 0 {
                                    &FILE
                                } else {
                                    &LOCAL
                                };
                                f.check_range(ctx, forms, Some(a), Some(b))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // closed ranges of the in-memory index that end at a key separating two nodes
    for n in 1..=ctx.t(12usize, 20) {
        for bf in [2u16, 3, 4, 5, 16] {
            ctx.case(|| format!("closed-memory:{n}:{bf}"), |ctx| {
                let keys: Vec<i32> = (0..n as i32).map(|i| 10 + 2 * i).collect();
                let f = Forms::new(listed(&keys, |i| 1 + i % 3), bf, 8, 64, 0)?;
                ctx.state(&(n, bf, "closed-memory"));
                let mut short = None;
                for b in &f.internal {
                    for a in 9..*b {
                        let want = f.want(|k| *k >= a && k <= b);
                        for form in LOCAL {
                            ctx.trans(1);
                            let got = sorted(f.range(form, Some(&a), Some(b))?);
                            if got != want && f.short_by_upper(Some(&a), Some(b), &got) {
                                short.get_or_insert_with(|| format!("{form:?} {a}..={b}"));
                            } else if got != want {
                                return Err(format!("{form:?} {a}..={b}: expected {want:?} got {got:?}"));
                            }
                        }
                    }
                }
                short.map_or(Ok(()), |s| Err(format!("in-memory closed range leaves out its upper bound: {s}")))
            });
        }
    }
    // deeper trees around the sizes where a level is added
    for bf in [2u16, 3, 4, 5, 7, 16, 17] {
        let b = bf as usize;
        let mut sizes = Vec::new();
        for base in [b * b, b * b * b, b * b * b * b, (b - 1) * b, (b - 1) * b * b, (b - 1).pow(2), (b - 1).pow(3)] {
            sizes.extend([base.saturating_sub(1), base, base + 1, base + b - 1, base + b]);
        }
        sizes.sort();
        sizes.dedup();
        let top = ctx.t(700, 5000);
        for n in sizes.into_iter().filter(|n| *n > 48 && *n <= top) {
            ctx.case(|| format!("deep:{n}:{bf}"), |ctx| {
                let keys: Vec<i32> = (0..n as i32).map(|i| 2 * i).collect();
                let f = Forms::new(listed(&keys, |i| if i % 13 == 0 { 2 } else { 1 }), bf, 0, 64, 256)?;
                ctx.state(&(n, bf, "deep"));
                ctx.trace();
                for p in -1..=2 * n as i32 {
                    let forms: &[Form] = if p % 17 == 0 || n < 100 { &EVERY } else { &FILE };
                    f.check_exact(ctx, forms, &p)?;
                    // a window beginning here, of every width up to two nodes and some more
                    for w in (0..2 * b as i32 + 3).step_by(if n > 1000 { 5 } else { 1 }) {
                        let forms: &[Form] = if (p + w) % 37 == 0 { &EVERY } else { &LOCAL };
                        f.check_range(ctx, forms, Some(&p), Some(&(p + w)))?;
                    }
                    if p % 3 == 0 {
                        f.check_range(ctx, &LOCAL, Some(&p), None)?;
                        f.check_range(ctx, &LOCAL, None, Some(&p))?;
                    }
                }
                Ok(())
            });
        }
    }
    // every comparison operator
    for n in 1..=ctx.t(20usize, 40) {
        for bf in [2u16, 3, 4, 5, 16] {
            for mult in 0..2usize {
                ctx.case(|| format!("ops:{n}:{bf}:{mult}"), |ctx| {
                    let keys: Vec<i32> = (0..n as i32).map(|i| 10 + 2 * i).collect();
                    let f = Forms::new(listed(&keys, |i| 1 + (i % 3) * mult), bf, 8, 1024, 0)?;
                    ctx.state(&(n, bf, mult, "ops"));
                    ctx.trace();
                    for p in 9..11 + 2 * n as i32 {
                        f.check_ops(ctx, &p)?;
                    }
                    Ok(())
                });
            }
        }
    }
    // more keys, or more features of one key, than 16 bits count
    for (n, m0, m1) in [
        (65_535usize, 1usize, 1usize),
        (65_536, 1, 1),
        (70_000, 1, 1),
        (40_000, 1, 3),
        (1, 65_535, 1),
        (1, 65_536, 1),
        (3, 70_000, 65_537),
        (2, 131_072, 1),
    ] {
        for bf in ctx.t(vec![2u16, 16], vec![2, 3, 16, 256, 65535]) {
            ctx.case(|| format!("large:{n}:{m0}:{m1}:{bf}"), |ctx| {
                let keys: Vec<u32> = (0..n as u32).map(|i| 1 + 2 * i).collect();
                let f = Forms::new(listed(&keys, |i| if i % 2 == 0 { m0 } else { m1 }), bf, 16, 64, 1 << 20)?;
                ctx.state(&(n, m0, m1, bf, "large"));
                ctx.trace();
                let top = 2 * n as u32;
                let mut probes = vec![0, 1, 2, 3, 4, 5, top / 2, top / 2 + 1, top - 1, top, u32::MAX];
                probes.extend([65_535u32, 65_536, 65_537, 131_071].into_iter().filter(|p| *p < top));
                for p in &probes {
                    f.check_exact(ctx, &EVERY, p)?;
                    f.check_range(ctx, &EVERY, Some(p), None)?;
                    f.check_range(ctx, &EVERY, None, Some(p))?;
                    for w in [0u32, 1, 5, 40] {
                        f.check_range(ctx, &EVERY, Some(p), Some(&p.saturating_add(w)))?;
                    }
                }
                Ok(())
            });
        }
    }
    // where the index lies in the file, how much follows, how requests are merged
    for before in [0usize, 1, 500, 5000] {
        for after in [1usize, 64, 2000, 40_000] {
            for threshold in [0usize, 64, 1 << 20] {
                for (n, mult) in [(1usize, 1usize), (1, 5), (7, 1), (40, 3), (300, 4), (60, 400), (2, 6000)] {
                    ctx.case(|| format!("place:{before}:{after}:{threshold}:{n}:{mult}"), |ctx| {
                        let keys: Vec<i32> = (0..n as i32).map(|i| 2 * i).collect();
                        let f = Forms::new(listed(&keys, |i| if i % 2 == 0 { mult } else { 1 }), 4, before, after, threshold)?;
                        ctx.state(&(before, after, threshold, n, mult));
                        ctx.trace();
                        let top = 2 * n as i32;
                        for p in [-1, 0, 1, 2, top / 2, top - 2, top - 1] {
                            f.check_exact(ctx, &EVERY, &p)?;
                            for q in [0, 1, top / 2, top - 2, top] {
                                f.check_range(ctx, &EVERY, Some(&p), Some(&q))?;
                            }
                            f.check_range(ctx, &EVERY, Some(&p), None)?;
                            f.check_range(ctx, &EVERY, None, Some(&p))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // several indices one after another, every ordered pair of conditions
    for n in 1..=ctx.t(6usize, 9) {
        for bf in [2u16, 3, 16] {
            ctx.case(|| format!("conjunction:{n}:{bf}"), |ctx| conjunction(ctx, n, bf));
        }
    }
    // every other key type, every choice of keys from its universe
    typed::<i8>(ctx, &[i8::MIN, -2, -1, 0, 1, 2, i8::MAX]);
    typed::<u8>(ctx, &[0, 1, 2, 127, 128, 254, u8::MAX]);
    typed::<i16>(ctx, &[i16::MIN, -256, -1, 0, 1, 255, i16::MAX]);
    typed::<u16>(ctx, &[0, 1, 255, 256, 32767, 32768, u16::MAX]);
    typed::<i32>(ctx, &[i32::MIN, -65536, -1, 0, 1, 256, i32::MAX]);
    typed::<u32>(ctx, &[0, 1, 255, 256, 1 << 24, 1 << 31, u32::MAX]);
    typed::<i64>(ctx, &[i64::MIN, -(1 << 32), -1, 0, 1, 1 << 32, i64::MAX]);
    typed::<u64>(ctx, &[0, 1, 256, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX]);
    typed::<Float<f32>>(
        ctx,
        &[f32::NEG_INFINITY, f32::MIN, -1.5, 0.0, f32::MIN_POSITIVE, 1.5, f32::INFINITY].map(Float),
    );
    typed::<Float<f64>>(ctx, &[f64::MIN, -1e100, -1.5, 0.0, 5e-324, 1.5, f64::MAX].map(Float));
    typed::<bool>(ctx, &[false, true]);
    typed::<DateTime<Utc>>(ctx, &dates());
    let s = ["", "\u{1}", "A", "Aa", "B", "a", "\u{e9}"];
    typed::<FixedStringKey<20>>(ctx, &s.map(FixedStringKey::from_str));
    typed::<FixedStringKey<50>>(ctx, &s.map(FixedStringKey::from_str));
    typed::<FixedStringKey<100>>(ctx, &s.map(FixedStringKey::from_str));
}

pub fn dates() -> [DateTime<Utc>; 7] {
    [
        Utc.with_ymd_and_hms(1, 1, 1, 0, 0, 0).unwrap(),
        Utc.with_ymd_and_hms(1899, 12, 31, 23, 59, 59).unwrap(),
        Utc.timestamp_opt(-1, 999_999_999).unwrap(),
        Utc.timestamp_opt(0, 0).unwrap(),
        Utc.timestamp_opt(0, 1).unwrap(),
        Utc.with_ymd_and_hms(2024, 2, 29, 12, 0, 0).unwrap(),
        Utc.with_ymd_and_hms(9999, 12, 31, 23, 59, 59).unwrap(),
    ]
}

fn typed<K: TestKey>(ctx: &mut Ctx, universe: &[K]) {
    let n = universe.len();
    for mask in 1u32..(1 << n) {
        for bf in [2u16, 3, 4, 16] {
            ctx.case(|| format!("typed:{}:{mask}:{bf}", K::NAME), |ctx| {
                let keys: Vec<K> =
                    (0..n).filter(|i| mask & (1 << i) != 0).map(|i| universe[i].clone()).collect();
                let f = Forms::new(listed(&keys, |i| 1 + (i + mask as usize) % 2), bf, 4, 64, 1 << 20)?;
                ctx.state(&(K::NAME, mask, bf));
                ctx.trace();
                for a in universe {
                    f.check_exact(ctx, &EVERY, a)?;
                    f.check_ops(ctx, a)?;
                    for b in universe {
                        f.check_range(ctx, &EVERY, Some(a), Some(b))?;
                    }
                }
                Ok(())
            });
        }
    }
}

fn conjunction(ctx: &mut Ctx, n: usize, bf: u16) -> Result<(), String> {
    // three fields over the same offsets 0, 16, ..
    let ints: Vec<(i32, u64)> = (0..n).map(|i| ((i % 3) as i32, i as u64 * 16)).collect();
    let strs: Vec<(FixedStringKey<50>, u64)> =
        (0..n).map(|i| (FixedStringKey::from_str(["b", "a", "bb", "c"][(i * 5) % 4]), i as u64 * 16)).collect();
    let flts: Vec<(Float<f64>, u64)> =
        (0..n).filter(|i| i % 4 != 2).map(|i| (Float((i as f64) / 2.0), i as u64 * 16)).collect();
    fn bytes<K: TestKey>(l: &[(K, u64)], bf: u16) -> Result<(MemoryIndex<K>, Vec<u8>), String> {
        let e: Vec<Entry<K>> = l.iter().map(|(k, o)| Entry { key: k.clone(), offset: *o }).collect();
        let m = MemoryIndex::<K>::build(&e, bf).map_err(|e| e.to_string())?;
        let mut b = Vec::new();
        m.serialize(&mut b).map_err(|e| e.to_string())?;
        Ok((m, b))
    }
    let (mi, bi) = bytes(&ints, bf)?;
    let (ms, bs) = bytes(&strs, bf)?;
    let (mf, bfl) = bytes(&flts, bf)?;
    let begin = 8;
    let mut file = vec![0u8; begin];
    for b in [&bi, &bs, &bfl] {
        file.extend_from_slice(b);
    }
    let fb = file.len();
    file.extend([0u8; 64]);
    let file = Arc::new(file);
    let mut mem = MemoryMultiIndex::new();
    let mut stream = StreamMultiIndex::new();
    let mut http: HttpMultiIndex<Web> = HttpMultiIndex::new();
    let f = mi.branching_factor();
    stream.add_i32_index("i".into(), StreamIndex::new(mi.num_items(), f, 0, bi.len() as u64), bi.len() as u64);
    stream.add_string_index50("s".into(), StreamIndex::new(ms.num_items(), f, bi.len() as u64, bs.len() as u64), bs.len() as u64);
    stream.add_f64_index("f".into(), StreamIndex::new(mf.num_items(), f, (bi.len() + bs.len()) as u64, bfl.len() as u64), bfl.len() as u64);
    http.add_index("i".into(), HttpIndex::<i32>::new(mi.num_items(), f, begin, fb, 1 << 20));
    http.add_index("s".into(), HttpIndex::<FixedStringKey<50>>::new(ms.num_items(), f, begin + bi.len(), fb, 1 << 20));
    http.add_index("f".into(), HttpIndex::<Float<f64>>::new(mf.num_items(), f, begin + bi.len() + bs.len(), fb, 1 << 20));
    mem.add_i32_index("i".into(), mi);
    mem.add_string_index50("s".into(), ms);
    mem.add_f64_index("f".into(), mf);
    ctx.state(&(n, bf, "conj"));
    ctx.trace();
    let mut conds: Vec<(QueryCondition, Vec<u64>)> = Vec::new();
    let sel = |v: Vec<u64>| v;
    for op in OPS {
        for k in [0i32, 1, 3] {
            conds.push((
                QueryCondition { field: "i".into(), operator: op, key: k.kt() },
                sel(ints.iter().filter(|e| holds(op, &e.0, &k)).map(|e| e.1).collect()),
            ));
        }
        for k in ["a", "b", "bc"] {
            let k = FixedStringKey::<50>::from_str(k);
            conds.push((
                QueryCondition { field: "s".into(), operator: op, key: k.kt() },
                sel(strs.iter().filter(|e| holds(op, &e.0, &k)).map(|e| e.1).collect()),
            ));
        }
        for k in [0.0, 0.75, 1.5] {
            let k = Float(k);
            conds.push((
                QueryCondition { field: "f".into(), operator: op, key: k.kt() },
                sel(flts.iter().filter(|e| holds(op, &e.0, &k)).map(|e| e.1).collect()),
            ));
        }
    }
    let m = conds.len();
    let mut sets: Vec<Vec<usize>> = Vec::new();
    odometer(2, m, |w| sets.push(w.to_vec()));
    for a in (0..m).step_by(5) {
        for b in (1..m).step_by(7) {
            for c in (2..m).step_by(5) {
                sets.push(vec![a, b, c]);
            }
        }
    }
    for w in sets {
        let want: Vec<u64> = (0..n as u64).map(|i| i * 16).filter(|o| w.iter().all(|c| conds[*c].1.contains(o))).collect();
        ctx.outcome(if want.is_empty() { "conj-none" } else { "conj-some" });
        let q: Vec<QueryCondition> = w.iter().map(|c| conds[*c].0.clone()).collect();
        let mut cur = Cursor::new(file.as_slice());
        cur.set_position(begin as u64);
        let got = [
            mem.query(&q).map_err(|e| e.to_string()),
            stream.query(&mut cur, &q).map_err(|e| e.to_string()),
            block_on(async {
                let mut c = AsyncBufferedHttpRangeClient::with(Web::new(file.clone(), Fault::None, 0).0, "http://mock/i");
                http.query(&mut c, &q).await
            })
            .map_err(|e| e.to_string())
            .map(|v| v.iter().map(|i| (i.range.start() - fb) as u64).collect()),
        ];
        for (g, form) in got.into_iter().zip(["memory", "stream", "http"]) {
            ctx.trans(1);
            let got = sorted(g.map_err(|e| format!("{form} {q:?}: {e}"))?);
            if got != want {
                return Err(format!("{form} {q:?}: expected {want:?} got {got:?}"));
            }
        }
    }
    Ok(())
}

pub const P12: Prop = Prop {
    id: "P12",
    level: "model_checking",
    run: run_index,
    case_secs: 200,
    required_outcomes: &["exact-none", "exact-one", "exact-more", "range-none", "range-some", "range-all", "op-Ne", "conj-some"],
    assumptions: &["bytes follow an index in a file: at least one feature", "offsets of an index are below 2^63"],
    bounds: |t| match t {
        Tier::Quick => json!({"distinct_keys": "1..48, and around level boundaries up to 700", "branching_factors": [0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 255, 65535], "conjunction": "all ordered pairs of 54 conditions over 6 items", "key_universe": "all subsets of 7 values for 15 key types"}),
        Tier::Thorough => json!({"distinct_keys": "1..90, and around level boundaries up to 5000", "branching_factors": [0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 255, 65535], "conjunction": "all ordered pairs of 54 conditions over 9 items", "key_universe": "all subsets of 7 values for 15 key types"}),
    },
};

// ---------------------------------------------------------------- keys

fn check_keys<K: TestKey>(ctx: &mut Ctx, keys: &[K], cmp: impl Fn(usize, usize) -> std::cmp::Ordering) -> Result<(), String> {
    let mut stored = Vec::new();
    for (i, k) in keys.iter().enumerate() {
        let mut b = Vec::new();
        let n = k.write_to(&mut b).map_err(|e| e.to_string())?;
        if n != K::SERIALIZED_SIZE || b.len() != n {
            return Err(format!("{k:?}: wrote {} bytes, said {n}, size {}", b.len(), K::SERIALIZED_SIZE));
        }
        b.push(0x5A);
        let mut r = Cursor::new(&b);
        let x = K::read_from(&mut r).map_err(|e| format!("{k:?}: {e}"))?;
        let y = K::from_bytes(&b).map_err(|e| format!("{k:?}: {e}"))?;
        if r.position() as usize != n || x != *k || y != *k {
            return Err(format!("{k:?} read back as {x:?} and {y:?}"));
        }
        if K::max_value() < *k || K::min_value() > *k {
            return Err(format!("{k:?} lies outside {:?}..={:?}", K::min_value(), K::max_value()));
        }
        // an entry keeps key and offset
        let e = Entry { key: k.clone(), offset: (i as u64) << 40 | 7 };
        let mut eb = Vec::new();
        e.write_to(&mut eb).map_err(|e| e.to_string())?;
        if eb.len() != Entry::<K>::SERIALIZED_SIZE {
            return Err(format!("entry of {k:?} has {} bytes", eb.len()));
        }
        let f = Entry::<K>::from_reader(&mut Cursor::new(&eb)).map_err(|e| e.to_string())?;
        let g = Entry::<K>::from_bytes(&eb).map_err(|e| e.to_string())?;
        if f != e || g != e {
            return Err(format!("entry {e:?} read back as {f:?} and {g:?}"));
        }
        // less than the whole is refused
        for cut in [0, n - 1] {
            if K::read_from(&mut Cursor::new(&b[..cut])).is_ok() {
                return Err(format!("{k:?} read from {cut} bytes"));
            }
        }
        ctx.trans(4);
        ctx.state(&(K::NAME, k.bytes()));
        stored.push(x);
    }
    let n = keys.len();
    let all_pairs = n <= 600;
    for i in 0..n {
        let js: Box<dyn Iterator<Item = usize>> = if all_pairs {
            Box::new(0..n)
        } else {
            Box::new([i.saturating_sub(1), i, (i + 1).min(n - 1), 0, n - 1, n / 2].into_iter())
        };
        for j in js {
            ctx.trans(1);
            let want = cmp(i, j);
            ctx.outcome(&format!("{want:?}"));
            if stored[i].cmp(&stored[j]) != want {
                return Err(format!("{:?} compares with {:?} as {:?}, expected {want:?}", keys[i], keys[j], stored[i].cmp(&stored[j])));
            }
        }
    }
    ctx.trace();
    Ok(())
}

fn run_keys(ctx: &mut Ctx) {
    macro_rules! ints {
        ($t:ty, $v:expr) => {
            ctx.case(|| format!("int:{}", stringify!($t)), |ctx| {
                let mut v: Vec<$t> = $v;
                v.sort();
                v.dedup();
                check_keys::<$t>(ctx, &v, |a, b| a.cmp(&b))
            });
        };
    }
    // complete for one and two bytes
    ints!(i8, (i8::MIN..=i8::MAX).collect());
    ints!(u8, (u8::MIN..=u8::MAX).collect());
    ints!(i16, (i16::MIN..=i16::MAX).collect());
    ints!(u16, (u16::MIN..=u16::MAX).collect());
    // every pattern of bytes out of 00 01 7f 80 fe ff
    let pat = |n: usize| {
        let mut out: Vec<u64> = Vec::new();
        odometer(n, 6, |w| out.push(w.iter().fold(0, |a, d| a << 8 | [0u64, 1, 0x7f, 0x80, 0xfe, 0xff][*d])));
        out
    };
    ints!(i32, pat(4).into_iter().map(|x| x as u32 as i32).collect());
    ints!(u32, pat(4).into_iter().map(|x| x as u32).collect());
    let wide = |k: usize| -> Vec<u64> {
        pat(k).into_iter().flat_map(|x| [x, x << 8, x << 24, x << 32, !x]).collect()
    };
    let k = ctx.t(5, 6);
    ints!(i64, wide(k).into_iter().map(|x| x as i64).collect());
    ints!(u64, wide(k));
    ctx.case(|| "bool".into(), |ctx| check_keys::<bool>(ctx, &[false, true], |a, b| a.cmp(&b)));
    // floats: all exponents with boundary mantissas, both signs
    ctx.case(|| "float:f32".into(), |ctx| {
        let mut v: Vec<f32> = Vec::new();
        for e in 0..=254u32 {
            for m in [0u32, 1, 0x3fffff, 0x400000, 0x7fffff] {
                for s in [0u32, 1] {
                    v.push(f32::from_bits(s << 31 | e << 23 | m));
                }
            }
        }
        v.extend([f32::INFINITY, f32::NEG_INFINITY]);
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let keys: Vec<Float<f32>> = v.iter().map(|x| Float(*x)).collect();
        check_keys(ctx, &keys, |a, b| v[a].partial_cmp(&v[b]).unwrap())
    });
    ctx.case(|| "float:f64".into(), |ctx| {
        let mut v: Vec<f64> = Vec::new();
        for e in 0..=2046u64 {
            for m in [0u64, 1, 1 << 51, (1 << 52) - 1] {
                for s in [0u64, 1] {
                    v.push(f64::from_bits(s << 63 | e << 52 | m));
                }
            }
        }
        v.extend([f64::INFINITY, f64::NEG_INFINITY]);
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let keys: Vec<Float<f64>> = v.iter().map(|x| Float(*x)).collect();
        check_keys(ctx, &keys, |a, b| v[a].partial_cmp(&v[b]).unwrap())
    });
    // dates over the years that a timestamp in a dataset can name
    ctx.case(|| "date".into(), |ctx| {
        let mut v: Vec<(i64, u32)> = Vec::new();
        let lo = Utc.with_ymd_and_hms(0, 1, 1, 0, 0, 0).unwrap().timestamp() - 86_400;
        let hi = Utc.with_ymd_and_hms(9999, 12, 31, 23, 59, 59).unwrap().timestamp() + 86_400;
        for s in [lo, lo + 1, -(1 << 33), -(1 << 32) - 1, -(1 << 31), -86_401, -86_400, -1, 0, 1, 59, 86_399, 86_400, (1 << 31) - 1, 1 << 31, 1 << 32, 1 << 33, hi - 86_400, hi - 86_399, hi] {
            for n in [0u32, 1, 999, 1_000_000, 999_999_999] {
                v.push((s, n));
            }
        }
        v.sort();
        let keys: Vec<DateTime<Utc>> = v.iter().map(|(s, n)| Utc.timestamp_opt(*s, *n).unwrap()).collect();
        check_keys(ctx, &keys, |a, b| v[a].cmp(&v[b]))
    });
    // strings: all words over an alphabet, and lengths around the key size
    fn strings<const N: usize>(ctx: &mut Ctx, len: usize)
    where
        FixedStringKey<N>: TestKey,
    {
        let alpha = ["\u{1}", "A", "a", "\u{7f}", "\u{e9}", "\u{1F600}"];
        ctx.case(|| format!("string:{N}:words"), |ctx| {
            let mut v: Vec<String> = vec![String::new()];
            for l in 1..=len {
                odometer(l, alpha.len(), |w| v.push(w.iter().map(|i| alpha[*i]).collect()));
            }
            v.retain(|s| s.len() <= N);
            v.sort();
            let keys: Vec<FixedStringKey<N>> = v.iter().map(|s| FixedStringKey::from_str(s)).collect();
            for (k, s) in keys.iter().zip(&v) {
                if k.to_string_lossy() != *s {
                    return Err(format!("{s:?} is held as {:?}", k.to_string_lossy()));
                }
            }
            check_keys(ctx, &keys, |a, b| v[a].as_bytes().cmp(v[b].as_bytes()))
        });
        ctx.case(|| format!("string:{N}:long"), |ctx| {
            // the first N bytes decide
            let mut v: Vec<String> = Vec::new();
            for l in N.saturating_sub(3)..=N + 3 {
                for tail in ["", "a", "b", "\u{e9}"] {
                    v.push("a".repeat(l) + tail);
                }
            }
            let cut = |s: &String| s.as_bytes()[..s.len().min(N)].to_vec();
            v.sort_by_key(cut);
            let keys: Vec<FixedStringKey<N>> = v.iter().map(|s| FixedStringKey::from_str(s)).collect();
            check_keys(ctx, &keys, |a, b| cut(&v[a]).cmp(&cut(&v[b])))
        });
    }
    strings::<20>(ctx, ctx.t(3, 4));
    strings::<50>(ctx, ctx.t(3, 4));
    strings::<100>(ctx, ctx.t(3, 4));
}

pub const P13: Prop = Prop {
    id: "P13",
    level: "model_checking",
    run: run_keys,
    case_secs: 200,
    required_outcomes: &["Less", "Equal", "Greater"],
    assumptions: &["strings hold no NUL characters", "floating point keys are not NaN"],
    bounds: |t| match t {
        Tier::Quick => json!({"8_and_16_bit": "complete", "32_bit": "all byte patterns over 6 bytes", "64_bit": "byte patterns of 5 shifted", "floats": "all exponents", "strings": "words of 3 over 6 characters"}),
        Tier::Thorough => json!({"8_and_16_bit": "complete", "32_bit": "all byte patterns over 6 bytes", "64_bit": "byte patterns of 6 shifted", "floats": "all exponents", "strings": "words of 4 over 6 characters"}),
    },
};
