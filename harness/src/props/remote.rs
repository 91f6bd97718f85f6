//! P17 what a remote reader asks for, P19 failing servers.

use super::dataset::layout;
use super::Prop;
use crate::core::{Ctx, Tier};
use crate::data::*;
use crate::shapes::*;
use crate::webmock::{block_on, Fault, Log, Web};
use fcb_core::attribute::AttributeSchema;
use fcb_core::header_generated::ColumnType as C;
use fcb_core::packed_rtree::Query;
use fcb_core::{FixedStringKey, HttpFcbReader, KeyType, Operator};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::{json, Value};
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// A feature of about `size` bytes; a tall one reaches the box of the query.
pub fn sized(k: usize, size: usize, tall: bool) -> Value {
    let x = 10 * k as i64;
    let h = if tall { 5 } else { 1 };
    let id = format!("f{k}");
    let mut f = box_feature(&id, [x - 1, -h, x + 1, h]);
    f["CityObjects"][&id]["attributes"] = json!({
        "m": tall as u64, "n": k as u64, "s": format!("n{k}"), "pad": "p".repeat(size),
    });
    f
}

pub fn file(feats: &[Value], index: bool, attrs: &[&str]) -> Result<Arc<Vec<u8>>, String> {
    let sch: AttributeSchema = [("m", C::UInt), ("n", C::Short), ("s", C::String), ("pad", C::String)]
        .iter()
        .enumerate()
        .map(|(i, (n, t))| (n.to_string(), (i as u16, *t)))
        .collect();
    let mut o = Opts { schema: Some(sch), ..Opts::plain(index) };
    for a in attrs {
        o = o.attr(a, Some(4));
    }
    Ok(Arc::new(write_fcb(&base_meta(), feats, &o)?))
}

pub fn same(want: &Got, got: &Got) -> Result<(), String> {
    if want.feats != got.feats {
        return Err(format!("expected {:?} got {:?}", want.ids(), got.ids()));
    }
    if !got.counts(want.feats.len()) {
        return Err(format!("{} features but count {:?}", want.feats.len(), got.count));
    }
    Ok(())
}

const GAP: usize = 256 * 1024;
const FETCH: usize = 1024 * 1024;
const PREFETCH: usize = 2024 + 40 * (1 + 16 + 256);

/// What the selection may cost, from the layout of the file alone.
fn frugal(data: &[u8], sel: &Sel, got: &Got, log: &Log) -> Result<(), String> {
    let l = layout(data)?;
    let ranges = log.ranges.lock().unwrap().clone();
    for (a, b) in &ranges {
        if b < a {
            return Err(format!("malformed range {a}-{b}"));
        }
        if *a >= data.len() {
            return Err(format!("a request for {a}-{b} of a file of {} bytes", data.len()));
        }
    }
    let clip = |a: usize, b: usize, s: usize, e: usize| (b + 1).min(e).saturating_sub(a.max(s));
    // positions of the features delivered
    let ids = got.ids();
    let all = read_seek(std::io::Cursor::new(data), &Sel::All)?.ids();
    let sel_pos: Vec<(usize, usize)> =
        ids.iter().map(|i| l.feats[all.iter().position(|x| x == i).unwrap()]).collect();
    let in_feats: usize = ranges.iter().map(|(a, b)| clip(*a, *b, l.attrs_end, data.len())).sum();
    let in_rtree: usize = ranges.iter().map(|(a, b)| clip(*a, *b, l.header_end, l.rtree_end)).sum();
    let in_head: usize = ranges.iter().map(|(a, b)| clip(*a, *b, 0, l.header_end)).sum();
    if in_head > l.header_end {
        return Err(format!("{in_head} bytes of the {} of the header were fetched", l.header_end));
    }
    let starts_in = |s: usize, e: usize| ranges.iter().filter(|r| s <= r.0 && r.0 < e).count();
    let head_reqs = starts_in(0, l.header_end);
    if head_reqs > 2 {
        return Err(format!("{head_reqs} requests for the header"));
    }
    match sel {
        Sel::All => {
            if in_feats > data.len() - l.attrs_end {
                return Err(format!("{in_feats} bytes fetched of a feature section of {}", data.len() - l.attrs_end));
            }
            let most = 2 + (data.len() - l.attrs_end) / FETCH + 1;
            let n = ranges.len() - head_reqs;
            if n > most {
                return Err(format!("{n} requests for the features, expected at most {most}"));
            }
            if in_rtree > PREFETCH {
                return Err(format!("{in_rtree} bytes of the spatial index fetched without a query"));
            }
        }
        Sel::Spatial(_) => {
            // batches: features closer than the gap travel together
            let mut batches: Vec<(usize, usize)> = Vec::new();
            for (s, e) in &sel_pos {
                match batches.last_mut() {
                    Some(b) if s - b.1 < GAP => b.1 = *e,
                    _ => batches.push((*s, *e)),
                }
            }
            let mut most_bytes = 3 * PREFETCH;
            let mut most_reqs = 0;
            for (s, e) in &batches {
                most_bytes += (e - s) + (e - s).min(FETCH);
                most_reqs += 2 + (e - s).div_ceil(FETCH);
            }
            if in_feats > most_bytes {
                return Err(format!("{in_feats} bytes of features fetched for {} features that need {}", ids.len(), most_bytes - 3 * PREFETCH));
            }
            let n = starts_in(l.attrs_end, data.len());
            if n > most_reqs {
                return Err(format!("{n} requests for features in {} places", batches.len()));
            }
            let index = l.rtree_end - l.header_end;
            if in_rtree > index + 3 * PREFETCH {
                return Err(format!("{in_rtree} bytes fetched of a spatial index of {index}"));
            }
        }
        Sel::Attr(_) => {
            // every request asks for a megabyte, those for the index included
            let need: usize = sel_pos.iter().map(|(s, e)| e - s).sum();
            let index_reqs = starts_in(0, l.attrs_end);
            if in_feats > need + (sel_pos.len() + index_reqs) * FETCH {
                return Err(format!("{in_feats} bytes of features fetched, {need} needed"));
            }
            let n = starts_in(l.attrs_end, data.len());
            if n > 2 * sel_pos.len() {
                return Err(format!("{n} requests in the features for {} features", sel_pos.len()));
            }
        }
    }
    // while features are fetched, no byte of them is asked for again
    let feature_reqs: Vec<(usize, usize)> = ranges.iter().copied().filter(|r| r.0 >= l.attrs_end).collect();
    for (i, x) in feature_reqs.iter().enumerate() {
        for y in &feature_reqs[..i] {
            if x.0 <= y.1 && y.0 <= x.1 && x.0 <= y.0 {
                return Err(format!("{}-{} is asked for again after {}-{}", x.0, x.1, y.0, y.1));
            }
        }
    }
    Ok(())
}

fn tall_box() -> Sel {
    Sel::Spatial(Query::BBox(-1e9, 4.0, 1e9, 4.5))
}
fn marked() -> Sel {
    Sel::Attr(vec![("m".into(), Operator::Eq, KeyType::UInt32(1))])
}

fn probe(ctx: &mut Ctx, data: &Arc<Vec<u8>>, sel: &Sel, pends: &[usize]) -> Result<(), String> {
    let want = read_mode(data, Mode::Seek, sel).map_err(|e| format!("{sel:?}: local: {e}"))?;
    for p in pends {
        let (got, log) = read_http(data.clone(), sel, Fault::None, *p);
        let got = got.map_err(|e| format!("{sel:?} pending {p}: {e}"))?;
        ctx.trans(got.feats.len() as u64 + 2);
        same(&want, &got).map_err(|e| format!("{sel:?} pending {p}: {e}"))?;
        frugal(data, sel, &got, &log).map_err(|e| {
            let r = log.ranges.lock().unwrap();
            format!("{sel:?}: {e}; requests {:?}", &r[..r.len().min(12)])
        })?;
        let n = log.ranges.lock().unwrap().len();
        ctx.state(&(&*log.ranges.lock().unwrap(), *p));
        ctx.outcome(match (sel, n) {
            (Sel::All, 1) => "all:one request",
            (Sel::All, _) => "all:several requests",
            (Sel::Spatial(_), 0..=2) => "spatial:few requests",
            (Sel::Spatial(_), _) => "spatial:several requests",
            (Sel::Attr(_), _) => "attr",
        });
    }
    ctx.trace();
    Ok(())
}

fn run_requests(ctx: &mut Ctx) {
    // every word of sizes and every set of selected features
    let sizes = [1_000usize, 100_000, 270_000, 1_100_000];
    for n in 1..=ctx.t(4usize, 5) {
        odometer(n, sizes.len(), |w| {
            let w = w.to_vec();
            for set in 0..(1usize << n) {
                // features that are not selected are alike when small or medium
                ctx.case(|| format!("sizes:{w:?}:{set:b}"), |ctx| {
                    let feats: Vec<Value> =
                        (0..n).map(|k| sized(k, sizes[w[k]], set >> k & 1 == 1)).collect();
                    let pends = [(set + w[0]) % 3];
                    let spatial = file(&feats, true, &[])?;
                    probe(ctx, &spatial, &tall_box(), &pends)?;
                    if set == 0 {
                        probe(ctx, &spatial, &Sel::All, &[0, 1])?;
                    }
                    let attr = file(&feats, false, &["m"])?;
                    probe(ctx, &attr, &marked(), &pends)?;
                    if set == 0 {
                        probe(ctx, &attr, &Sel::All, &[2])?;
                    }
                    Ok(())
                });
            }
        });
    }
    // gaps exactly around the threshold
    for gap in [GAP - 2, GAP - 1, GAP, GAP + 1, GAP + 2, GAP / 2] {
        for pattern in [0b101usize, 0b1001, 0b10101, 0b11011, 0b100, 0b1] {
            for (index, attr) in [(true, false), (false, true), (true, true)] {
                ctx.case(|| format!("gap:{gap}:{pattern:b}:{index}:{attr}"), |ctx| {
                    let n = 5;
                    // the size of an encoded feature without its padding
                    let probe_file = file(&[sized(0, 0, false)], false, &[])?;
                    let l = layout(&probe_file)?;
                    let over = l.feats[0].1 - l.feats[0].0;
                    let feats: Vec<Value> = (0..n)
                        .map(|k| {
                            let tall = pattern >> k & 1 == 1;
                            sized(k, if tall { 500 } else { gap - over }, tall)
                        })
                        .collect();
                    let data = file(&feats, index, if attr { &["m", "s"][..] } else { &[] })?;
                    if index {
                        probe(ctx, &data, &tall_box(), &[0, 1, 2])?;
                    }
                    if attr {
                        probe(ctx, &data, &marked(), &[0, 1, 2])?;
                        for op in [Operator::Ge, Operator::Lt, Operator::Ne] {
                            probe(ctx, &data, &Sel::Attr(vec![("m".into(), op, KeyType::UInt32(1))]), &[1])?;
                        }
                    }
                    probe(ctx, &data, &Sel::All, &[0])
                });
            }
        }
    }
    // many features: indices beyond what the first request brings
    for n in ctx.t(vec![16usize, 17, 256, 257, 300, 1000], vec![16, 17, 40, 255, 256, 257, 258, 300, 513, 1000, 2500, 5000]) {
        for size in [0usize, 900] {
            for modulus in [1usize, 2, 7, 40, 1_000_000] {
                ctx.case(|| format!("many:{n}:{size}:{modulus}"), |ctx| {
                    let feats: Vec<Value> = (0..n).map(|k| sized(k, size, k % modulus == 0)).collect();
                    let spatial = file(&feats, true, &[])?;
                    let both = file(&feats, true, &["m", "n", "s"])?;
                    for data in [&spatial, &both] {
                        probe(ctx, data, &Sel::All, &[1])?;
                        for q in [
                            Query::BBox(-1e9, 4.0, 1e9, 4.5),
                            Query::BBox(-1e9, -1e9, 1e9, 1e9),
                            Query::BBox(95.0, -1.0, 165.0, 1.0),
                            Query::BBox(1e6, 1e6, 2e6, 2e6),
                            Query::PointIntersects(0.0, 0.0),
                            Query::PointIntersects(10.0 * (n - 1) as f64, 0.0),
                            Query::PointNearest(57.0, 3.0),
                            Query::PointNearest(1e7, 1e7),
                        ] {
                            probe(ctx, data, &Sel::Spatial(q), &[0])?;
                        }
                    }
                    let by_n = |op, v: usize| ("n".to_string(), op, KeyType::Int16(v as i16));
                    let by_s = |v: usize| {
                        ("s".to_string(), Operator::Eq, KeyType::StringKey50(FixedStringKey::from_str(&format!("n{v}"))))
                    };
                    for q in [
                        vec![by_n(Operator::Eq, n / 2)],
                        vec![by_n(Operator::Lt, 5)],
                        vec![by_n(Operator::Ge, n - 3)],
                        vec![by_n(Operator::Ge, n / 3), by_n(Operator::Le, n / 3 + 2)],
                        vec![by_s(n - 1)],
                        vec![by_s(n / 3), by_n(Operator::Ne, 0)],
                        vec![("m".into(), Operator::Eq, KeyType::UInt32(1)), by_n(Operator::Gt, n / 2)],
                        vec![by_s(n)],
                    ] {
                        probe(ctx, &both, &Sel::Attr(q), &[0])?;
                    }
                    Ok(())
                });
            }
        }
    }
}

pub const P17: Prop = Prop {
    id: "P17",
    level: "model_checking",
    run: run_requests,
    case_secs: 120,
    required_outcomes: &["all:one", "all:several", "spatial:few", "spatial:several", "attr"],
    assumptions: &["the last request may name an end beyond the end of the file, as HTTP allows"],
    bounds: |t| match t {
        Tier::Quick => json!({"feature_bytes": [1_000, 100_000, 270_000, 1_100_000], "features": "every word up to 4, every selected set; 5 around the gap threshold; up to 1000 in a row", "pending_polls": [0, 1, 2]}),
        Tier::Thorough => json!({"feature_bytes": [1_000, 100_000, 270_000, 1_100_000], "features": "every word up to 5, every selected set; 5 around the gap threshold; up to 5000 in a row", "pending_polls": [0, 1, 2]}),
    },
};

// ---------------------------------------------------------------- failures

#[derive(Debug)]
pub struct Outcome {
    pub feats: Vec<Value>,
    /// errors of next, and whether opening or selecting failed
    pub errors: usize,
    pub early: bool,
    pub ended: bool,
}

/// Polls at most `polls` times.
fn poll_some<F: Future>(f: F, polls: usize) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut f = std::pin::pin!(f);
    for _ in 0..polls {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

/// Reads, repeating a failed step up to `retries` times in all; gives up a step
/// after that many polls when `abandon` says so for it.
fn read_retry(
    data: &Arc<Vec<u8>>,
    sel: &Sel,
    fault: Fault,
    pends: usize,
    retries: usize,
    abandon: Option<(usize, usize)>,
) -> Result<(Outcome, Arc<Log>), String> {
    let (web, log) = Web::new(data.clone(), fault, pends);
    let mut out = Outcome { feats: vec![], errors: 0, early: false, ended: false };
    let client = AsyncBufferedHttpRangeClient::with(web, "http://mock/f.fcb");
    let opened = block_on(async {
        let rd = HttpFcbReader::new(client).await.ok()?;
        match sel {
            Sel::All => rd.select_all().await,
            Sel::Spatial(q) => rd.select_query(*q).await,
            Sel::Attr(q) => rd.select_attr_query(q).await,
        }
        .ok()
    });
    let Some(mut it) = opened else {
        out.early = true;
        return Ok((out, log));
    };
    let mut step = 0;
    loop {
        if let Some((s, polls)) = abandon {
            if s == step {
                if poll_some(it.next(), polls).is_some() {
                    return Err("not pending".into());
                }
            }
        }
        step += 1;
        match block_on(it.next()) {
            Ok(Some(_)) => {
                let f = it.cur_cj_feature().map_err(|e| format!("decode: {e}"))?;
                out.feats.push(serde_json::to_value(&f).unwrap());
                if out.feats.len() > 10_000 {
                    return Err("endless iteration".into());
                }
            }
            Ok(None) => {
                out.ended = true;
                break;
            }
            Err(_) => {
                out.errors += 1;
                if out.errors > retries {
                    break;
                }
            }
        }
    }
    // once at the end, always at the end
    if out.ended && !matches!(block_on(it.next()), Ok(None)) {
        return Err("something after the end".into());
    }
    Ok((out, log))
}

pub fn judge(ctx: &mut Ctx, want: &Got, out: &Outcome, hit: usize, failing: bool, what: &str) -> Result<(), String> {
    ctx.trans(out.feats.len() as u64 + 1);
    if out.feats.len() > want.feats.len() || out.feats[..] != want.feats[..out.feats.len()] {
        let got = Got { feats: out.feats.clone(), count: None };
        return Err(format!("{what}: delivered {:?} of {:?}", got.ids(), want.ids()));
    }
    if out.ended && out.feats.len() != want.feats.len() {
        return Err(format!("{what}: ended after {} of {} features", out.feats.len(), want.feats.len()));
    }
    let errors = out.errors + out.early as usize;
    if failing && errors != hit {
        return Err(format!("{what}: {hit} requests failed, {errors} calls did"));
    }
    if !failing && errors > hit {
        return Err(format!("{what}: {errors} errors from {hit} short answers"));
    }
    ctx.outcome(if out.early {
        "refused"
    } else if out.ended && out.errors > 0 {
        "recovered"
    } else if out.ended {
        "unharmed"
    } else {
        "broken off"
    });
    Ok(())
}

fn fault_file(kind: usize, n: usize, secs: usize) -> Result<Arc<Vec<u8>>, String> {
    // 0 small, 1 all beyond the first request, 2 mixed, 3 large
    let size = |k: usize| match kind {
        0 => 10,
        1 => 14_000,
        2 => [10, 20_000, 300_000, 10, 14_000, 400_000][k % 6],
        _ => [1_200_000, 10, 600_000][k % 3],
    };
    let feats: Vec<Value> = (0..n).map(|k| sized(k, size(k), k % 2 == 0)).collect();
    file(&feats, secs & 1 == 1, [&[][..], &["m"], &["m", "n", "s"]][secs >> 1])
}

fn selections(n: usize, secs: usize) -> Vec<Sel> {
    let mut out = vec![Sel::All];
    if secs & 1 == 1 && n > 0 {
        out.push(tall_box());
        out.push(Sel::Spatial(Query::BBox(-1e9, -1e9, 1e9, 1e9)));
        out.push(Sel::Spatial(Query::PointNearest(0.0, 0.0)));
        out.push(Sel::Spatial(Query::PointIntersects(0.0, 0.0)));
        out.push(Sel::Spatial(Query::BBox(1e6, 1e6, 1e7, 1e7)));
    }
    if secs >> 1 >= 1 && n > 0 {
        out.push(marked());
        out.push(Sel::Attr(vec![("m".into(), Operator::Ge, KeyType::UInt32(0))]));
    }
    if secs >> 1 >= 2 && n > 0 {
        out.push(Sel::Attr(vec![("n".into(), Operator::Gt, KeyType::Int16(0)), ("m".into(), Operator::Ne, KeyType::UInt32(0))]));
        out.push(Sel::Attr(vec![("s".into(), Operator::Eq, KeyType::StringKey50(FixedStringKey::from_str("n1")))]));
    }
    out
}

fn run_failures(ctx: &mut Ctx) {
    let ns = ctx.t(vec![0usize, 1, 2, 3, 6], vec![0, 1, 2, 3, 4, 5, 6, 9, 17]);
    let bits = ctx.t(8usize, 12);
    for kind in 0..4 {
        for n in ns.iter().copied().chain(if kind == 0 { ctx.t(vec![300usize], vec![300, 700]) } else { vec![] }) {
            for secs in 0..6usize {
                for s in 0..selections(n, secs).len() {
                    let what = format!("{kind}:{n}:{secs}:{s}");
                    ctx.case(|| format!("single:{what}"), |ctx| {
                        let data = fault_file(kind, n, secs)?;
                        let sel = selections(n, secs).swap_remove(s);
                        let (want, log) = read_http(data.clone(), &sel, Fault::None, 0);
                        let want = want?;
                        same(&read_mode(&data, Mode::Seek, &sel)?, &want)?;
                        let reqs = log.ranges.lock().unwrap().clone();
                        ctx.state(&(kind, n, secs, s, &reqs));
                        ctx.trace();
                        for k in 0..reqs.len() {
                            let len = (reqs[k].1 + 1).min(data.len()) - reqs[k].0;
                            for f in [Fault::Status(k, 404), Fault::Status(k, 416), Fault::Status(k, 500), Fault::Transport(k)] {
                                let (o, _) = read_retry(&data, &sel, f, k % 2, 3, None)?;
                                judge(ctx, &want, &o, 1, true, &format!("{sel:?} {f:?}"))?;
                                if !o.early && !o.ended {
                                    return Err(format!("{sel:?} {f:?}: one failure is not survived by a retry"));
                                }
                            }
                            let (o, _) = read_retry(&data, &sel, Fault::StatusFrom(k, 503), 0, 3, None)?;
                            if o.ended || !(o.early || o.errors == 4) {
                                return Err(format!("{sel:?}: server down from request {k}: {} errors, ended {}", o.errors, o.ended));
                            }
                            judge(ctx, &want, &o, o.errors + o.early as usize, true, &format!("{sel:?} down from {k}"))?;
                            let mut cuts = vec![0, 1, 3, 4, 5, 7, 8, 11, 12, 40, len / 2, len.saturating_sub(5), len.saturating_sub(4), len - 1];
                            cuts.sort();
                            cuts.dedup();
                            for c in cuts {
                                if c >= len {
                                    continue;
                                }
                                let f = Fault::Cut(k, c);
                                let (o, _) = read_retry(&data, &sel, f, 0, 3, None)?;
                                judge(ctx, &want, &o, 1, false, &format!("{sel:?} {f:?}"))?;
                                if !o.early && !o.ended {
                                    return Err(format!("{sel:?} {f:?}: one short answer is not survived by a retry"));
                                }
                            }
                        }
                        Ok(())
                    });
                    if kind == 3 && n > 3 || n > 20 {
                        continue;
                    }
                    ctx.case(|| format!("sets:{what}"), |ctx| {
                        let data = fault_file(kind, n, secs)?;
                        let sel = selections(n, secs).swap_remove(s);
                        let (want, log) = read_http(data.clone(), &sel, Fault::None, 0);
                        let want = want?;
                        let total = log.ranges.lock().unwrap().len();
                        ctx.trace();
                        // failed steps repeat their request, so more requests come than undisturbed
                        let b = (2 * total + 1).min(bits);
                        for mask in 0u64..1 << b {
                            for how in [0usize, 1, 2, 2 + 3, 2 + 4, 2 + 6] {
                                let (o, log) = read_retry(&data, &sel, Fault::Mask(mask, how), 0, 64, None)?;
                                let made = log.ranges.lock().unwrap().len().min(63);
                                let hit = (mask & ((1u64 << made) - 1)).count_ones() as usize;
                                judge(ctx, &want, &o, hit, how < 2, &format!("{sel:?} mask {mask:b} kind {how}"))?;
                                if !o.early && !o.ended {
                                    return Err(format!("{sel:?} mask {mask:b} kind {how}: never recovers"));
                                }
                            }
                        }
                        Ok(())
                    });
                    ctx.case(|| format!("abandoned:{what}"), |ctx| {
                        let data = fault_file(kind, n, secs)?;
                        let sel = selections(n, secs).swap_remove(s);
                        let want = read_http(data.clone(), &sel, Fault::None, 0).0?;
                        ctx.trace();
                        for pends in 1..=3usize {
                            for step in 0..=want.feats.len() {
                                for polls in 1..=2 * pends + 1 {
                                    match read_retry(&data, &sel, Fault::None, pends, 0, Some((step, polls))) {
                                        Err(e) if e == "not pending" => continue,
                                        Err(e) => return Err(format!("{sel:?} step {step} dropped after {polls} polls: {e}")),
                                        Ok((o, _)) => {
                                            ctx.outcome("abandoned");
                                            judge(ctx, &want, &o, 0, true, &format!("{sel:?} step {step} dropped after {polls} polls"))?;
                                            if !o.ended {
                                                return Err(format!("{sel:?} step {step} dropped after {polls} polls: no end"));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                    // a server that never sends more than so many bytes
                    ctx.case(|| format!("stingy:{what}"), |ctx| {
                        let data = fault_file(kind, n, secs)?;
                        let sel = selections(n, secs).swap_remove(s);
                        let want = read_http(data.clone(), &sel, Fault::None, 0).0?;
                        ctx.trace();
                        for limit in [0usize, 1, 4, 8, 12, 100, 1000, 12944, 13000, 100_000, 1 << 20] {
                            let (o, _) = read_retry(&data, &sel, Fault::CutAll(limit), 0, 20, None)?;
                            judge(ctx, &want, &o, usize::MAX, false, &format!("{sel:?} at most {limit} bytes"))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

pub const P19: Prop = Prop {
    id: "P19",
    level: "fault_enumeration",
    run: run_failures,
    case_secs: 240,
    required_outcomes: &["refused", "recovered", "unharmed", "broken off", "abandoned"],
    assumptions: &["an answer is a prefix of the bytes asked for, or a failure"],
    bounds: |t| match t {
        Tier::Quick => json!({"features": [0, 1, 2, 3, 6, 300], "sections": 6, "selections": 10, "failing_requests": "each single one, all from each one, every set of the first 8", "truncations": 14}),
        Tier::Thorough => json!({"features": [0, 1, 2, 3, 4, 5, 6, 9, 17, 300, 700], "sections": 6, "selections": 10, "failing_requests": "each single one, all from each one, every set of the first 12", "truncations": 14}),
    },
};
