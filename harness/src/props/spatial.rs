//! P09 box and point queries, P10 nearest, P11 the packed index in its three forms.

use super::dataset::{bbox_of, nth_feature, transforms};
use super::Prop;
use crate::core::{Ctx, Tier};
use crate::data::*;
use crate::shapes::odometer;
use crate::webmock::{block_on, Fault, Web};
use fcb_core::packed_rtree::http::HttpRange;
use fcb_core::packed_rtree::{calc_extent, hilbert_sort, NodeItem, PackedRTree, Query};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::{json, Value};
use std::io::Cursor;
use std::collections::HashMap;
use std::sync::Arc;

fn hits(q: &Query, b: &[f64; 4]) -> bool {
    match q {
        Query::BBox(x0, y0, x1, y1) => b[2] >= *x0 && b[0] <= *x1 && b[3] >= *y0 && b[1] <= *y1,
        Query::PointIntersects(x, y) => b[0] <= *x && *x <= b[2] && b[1] <= *y && *y <= b[3],
        Query::PointNearest(..) => unreachable!(),
    }
}

/// The box between two corners.
fn ordered(x0: f64, y0: f64, x1: f64, y1: f64) -> Query {
    Query::BBox(x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1))
}

fn dist2(b: &[f64; 4], x: f64, y: f64) -> f64 {
    let (cx, cy) = ((b[0] + b[2]) / 2.0, (b[1] + b[3]) / 2.0);
    (cx - x).powi(2) + (cy - y).powi(2)
}

struct Written {
    data: Arc<Vec<u8>>,
    /// identifiers in file order
    order: Vec<String>,
    boxes: Vec<(String, [f64; 4])>,
    /// where in `boxes` an identifier is
    at: HashMap<String, usize>,
}

fn written(meta: &Value, feats: &[Value], o: &Opts) -> Result<Written, String> {
    let data = Arc::new(write_fcb(meta, feats, o)?);
    let order = read_mode(&data, Mode::Seek, &Sel::All)?.ids();
    let boxes: Vec<_> = feats.iter().map(|f| (f["id"].as_str().unwrap().to_string(), bbox_of(meta, f))).collect();
    let at = boxes.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
    Ok(Written { data, order, boxes, at })
}

fn check_query(ctx: &mut Ctx, w: &Written, feats: &[Value], q: &Query, full: bool) -> Result<(), String> {
    let want: Vec<&String> = w.order.iter().filter(|id| hits(q, &w.boxes[w.at[*id]].1)).collect();
    ctx.outcome(if want.is_empty() {
        "none"
    } else if want.len() == w.order.len() {
        "every"
    } else {
        "some"
    });
    for mode in MODES {
        ctx.trans(1);
        let got = read_mode(&w.data, mode, &Sel::Spatial(*q)).map_err(|e| format!("{mode:?} {q:?}: {e}"))?;
        let ids = got.ids();
        if ids.iter().collect::<Vec<_>>() != want {
            return Err(format!("{mode:?} {q:?}: expected {want:?} got {ids:?}"));
        }
        if got.count.unwrap_or(0) != want.len() {
            return Err(format!("{mode:?} {q:?}: counts {:?} of {}", got.count, want.len()));
        }
        if full {
            for f in &got.feats {
                let src = feats.iter().find(|s| s["id"] == f["id"]).unwrap();
                same_feature(src, f).map_err(|d| format!("{mode:?} {q:?}: {} {d}", f["id"]))?;
            }
        }
    }
    Ok(())
}

fn run_boxes(ctx: &mut Ctx) {
    let metas = transforms();
    // all boxes over a small grid
    let g: Vec<(i64, i64)> = (0..3).flat_map(|a| (a..3).map(move |b| (a, b))).collect();
    let boxes: Vec<[i64; 4]> =
        g.iter().flat_map(|x| g.iter().map(move |y| [x.0, y.0, x.1, y.1])).collect();
    let c: Vec<f64> = (-1..=5).map(|i| i as f64 / 2.0).collect();
    let to_real = |m: &Value, i: usize, v: f64| {
        v * m["transform"]["scale"][i].as_f64().unwrap() + m["transform"]["translate"][i].as_f64().unwrap()
    };
    // one feature, every query box and point on and between the grid lines
    for (bi, b) in boxes.iter().enumerate() {
        for (mi, m) in metas.iter().enumerate() {
            ctx.case(|| format!("one:{bi}:m{mi}"), |ctx| {
                let feats = [box_feature("f0", *b)];
                let w = written(m, &feats, &Opts::plain(true))?;
                ctx.state(&(bi, mi));
                ctx.trace();
                for x0 in &c {
                    for y0 in &c {
                        let p = Query::PointIntersects(to_real(m, 0, *x0), to_real(m, 1, *y0));
                        check_query(ctx, &w, &feats, &p, false)?;
                        for x1 in c.iter().filter(|v| *v >= x0) {
                            for y1 in c.iter().filter(|v| *v >= y0) {
                                let q = ordered(
                                    to_real(m, 0, *x0),
                                    to_real(m, 1, *y0),
                                    to_real(m, 0, *x1),
                                    to_real(m, 1, *y1),
                                );
                                check_query(ctx, &w, &feats, &q, false)?;
                            }
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // every pair of boxes, every query box on the grid lines and every point
    for i in 0..boxes.len() {
        for j in 0..boxes.len() {
            ctx.case(|| format!("pair:{i}:{j}"), |ctx| {
                let m = &metas[(i + j) % metas.len()];
                let feats = [box_feature("a", boxes[i]), box_feature("b", boxes[j])];
                let w = written(m, &feats, &Opts::plain(true).attr("x", None)).or_else(|_| {
                    written(m, &feats, &Opts::plain(true))
                })?;
                ctx.state(&(i, j));
                ctx.trace();
                for (k, b) in boxes.iter().enumerate() {
                    let q = ordered(
                        to_real(m, 0, b[0] as f64),
                        to_real(m, 1, b[1] as f64),
                        to_real(m, 0, b[2] as f64),
                        to_real(m, 1, b[3] as f64),
                    );
                    check_query(ctx, &w, &feats, &q, k % 9 == 0)?;
                }
                for x in 0..3 {
                    for y in 0..3 {
                        let p = Query::PointIntersects(to_real(m, 0, x as f64), to_real(m, 1, y as f64));
                        check_query(ctx, &w, &feats, &p, false)?;
                    }
                }
                Ok(())
            });
        }
    }
    // words of feature kinds (points, boxes, no vertices) with attribute indices
    for n in 2..=ctx.t(4, 5) {
        odometer(n, 5, |w| {
            ctx.case(|| format!("kinds:{w:?}"), |ctx| {
                let m = &metas[w.iter().sum::<usize>() % metas.len()];
                let feats: Vec<Value> = w.iter().enumerate().map(|(k, p)| nth_feature(k, *p)).collect();
                let wr = written(m, &feats, &Opts::plain(true).attr("i", Some(3)))?;
                ctx.state(&(w, 1));
                ctx.trace();
                let xs = [-4.0, -2.0, 0.0, 1.0, 2.0];
                let ys = [-1.0, 1.0, 4.5];
                for x0 in xs {
                    for x1 in xs.iter().filter(|v| **v >= x0) {
                        for y0 in ys {
                            for y1 in ys.iter().filter(|v| **v >= y0) {
                                let q = ordered(
                                    to_real(m, 0, x0),
                                    to_real(m, 1, y0),
                                    to_real(m, 0, *x1),
                                    to_real(m, 1, *y1),
                                );
                                check_query(ctx, &wr, &feats, &q, true)?;
                            }
                        }
                    }
                }
                Ok(())
            });
        });
    }
    // trees of up to three levels, every window of a line of features
    let mut sizes: Vec<usize> = (5..=ctx.t(36, 60)).collect();
    sizes.extend(ctx.t(vec![256, 257], vec![255, 256, 257, 258, 271, 272, 273, 289, 4097]));
    for n in sizes {
        for a in 0..n {
            if n > 60 && a % ctx.t(32, 8) > 1 && a + 2 < n {
                continue;
            }
            ctx.case(|| format!("line:{n}:{a}"), |ctx| {
                let m = &metas[0];
                let feats: Vec<Value> =
                    (0..n).map(|k| point_feature(&format!("f{k}"), (k as i64 * 37) % 4099, 3, Value::Null)).collect();
                let w = written(m, &feats, &Opts::plain(true))?;
                ctx.state(&(n, a));
                ctx.trace();
                for b in a..n {
                    if n > 60 && (b - a) % 17 > 1 && b + 1 < n {
                        continue;
                    }
                    let (x0, x1) = ((a as f64 * 37.0) % 4099.0, (b as f64 * 37.0) % 4099.0);
                    let q = Query::BBox(x0.min(x1), 3.0, x0.max(x1), 3.0);
                    check_query(ctx, &w, &feats, &q, false)?;
                }
                Ok(())
            });
        }
    }
    // other node sizes of the index
    for n in ctx.t(vec![1usize, 2, 3, 4, 5, 8, 9, 16, 17, 27, 28, 40], (1..=70).collect()) {
        for node in [2u16, 3, 4, 5, 15, 17, 64, 65535] {
            ctx.case(|| format!("node:{n}:{node}"), |ctx| {
                let feats: Vec<Value> = (0..n).map(|k| nth_feature(k, k % 5)).collect();
                let m = &metas[n % metas.len()];
                let mut w = written(m, &feats, &Opts::plain(true).attr("i", None))?;
                w.data = Arc::new(with_node_size(&w.data, node));
                ctx.state(&(n, node));
                ctx.trace();
                let xs = [-4.0, -1.0, 0.0, 1.0, n as f64 / 2.0, n as f64];
                let ys = [-1.0, 1.0, 4.5];
                for (i, x0) in xs.iter().enumerate() {
                    for x1 in xs[i..].iter().filter(|x| *x >= x0) {
                        for (j, y0) in ys.iter().enumerate() {
                            for y1 in &ys[j..] {
                                let q = ordered(to_real(m, 0, *x0), to_real(m, 1, *y0), to_real(m, 0, *x1), to_real(m, 1, *y1));
                                check_query(ctx, &w, &feats, &q, false)?;
                            }
                        }
                    }
                    check_query(ctx, &w, &feats, &Query::PointIntersects(to_real(m, 0, *x0), to_real(m, 1, 1.0)), true)?;
                }
                Ok(())
            });
        }
    }
    // more features than 16 bits count
    for n in ctx.t(vec![65_537usize], vec![65_535, 65_536, 65_537, 66_000]) {
        for bf in [None, Some(2u16), Some(16)] {
            ctx.case(|| format!("many:{n}:{bf:?}"), |ctx| {
                let feats: Vec<Value> = (0..n as i64)
                    .map(|k| point_feature(&format!("f{k}"), k % 256, k / 256, json!({"i": 7})))
                    .collect();
                let m = &metas[3];
                let mut o = Opts::plain(true);
                if bf.is_some() {
                    o = o.attr("i", bf);
                }
                let w = written(m, &feats, &o)?;
                ctx.state(&(n, bf));
                ctx.trace();
                for (x, y) in [(0, 0), (255, 255), (0, 256), (17, 200), (255, 0)] {
                    let (x, y) = (x as f64, y as f64);
                    for d in [0.0, 1.0, 20.0] {
                        let q = ordered(to_real(m, 0, x - d), to_real(m, 1, y - d), to_real(m, 0, x + d), to_real(m, 1, y + d));
                        check_query(ctx, &w, &feats, &q, false)?;
                    }
                }
                Ok(())
            });
        }
    }
    // unbounded and degenerate queries
    for n in [1usize, 3, 20] {
        ctx.case(|| format!("limits:{n}"), |ctx| {
            let feats: Vec<Value> = (0..n).map(|k| nth_feature(k, k % 5)).collect();
            let w = written(&metas[0], &feats, &Opts::plain(true))?;
            ctx.state(&(n, "limits"));
            ctx.trace();
            let inf = f64::INFINITY;
            for q in [
                Query::BBox(-inf, -inf, inf, inf),
                Query::BBox(f64::MIN, f64::MIN, f64::MAX, f64::MAX),
                Query::BBox(-inf, -inf, -1e300, inf),
                Query::BBox(0.0, 0.0, 0.0, 0.0),
                Query::BBox(-0.0, -0.0, -0.0, -0.0),
                Query::PointIntersects(-0.0, 0.0),
                Query::PointIntersects(inf, 0.0),
            ] {
                check_query(ctx, &w, &feats, &q, true)?;
            }
            Ok(())
        });
    }
}

pub const P09: Prop = Prop {
    id: "P09",
    level: "model_checking",
    run: run_boxes,
    case_secs: 120,
    required_outcomes: &["none", "some", "every"],
    assumptions: &["query boxes have their minimum not above their maximum", "a feature without vertices counts as a point at the translated origin"],
    bounds: |t| match t {
        Tier::Quick => json!({"boxes": "all 36 over a 3x3 grid, all pairs", "queries": "all boxes and points on half grid lines", "kinds": "words of 4 over 5", "node_sizes": [2, 3, 4, 5, 15, 16, 17, 64, 65535], "transforms": 5, "line_sizes": "5..36, 256, 257", "many": "65537 points on a grid"}),
        Tier::Thorough => json!({"boxes": "all 36 over a 3x3 grid, all pairs", "queries": "all boxes and points on half grid lines", "kinds": "words of 5 over 5", "node_sizes": [2, 3, 4, 5, 15, 16, 17, 64, 65535], "transforms": 5, "line_sizes": "5..60, 255..289, 4097", "many": "65535..66000 points on a grid"}),
    },
};

// ---------------------------------------------------------------- nearest

fn check_nearest(ctx: &mut Ctx, w: &Written, x: f64, y: f64) -> Result<(), String> {
    let best = w.boxes.iter().map(|b| dist2(&b.1, x, y)).fold(f64::INFINITY, f64::min);
    let nearest: Vec<&String> =
        w.boxes.iter().filter(|b| dist2(&b.1, x, y) == best).map(|b| &b.0).collect();
    ctx.outcome(if nearest.len() > 1 { "tie" } else { "unique" });
    for mode in MODES {
        ctx.trans(1);
        let q = Query::PointNearest(x, y);
        let got = read_mode(&w.data, mode, &Sel::Spatial(q)).map_err(|e| format!("{mode:?} ({x}, {y}): {e}"))?;
        let ids = got.ids();
        if ids.len() != 1 || got.count != Some(1) {
            return Err(format!("{mode:?} ({x}, {y}): got {ids:?} (count {:?})", got.count));
        }
        if !nearest.contains(&&ids[0]) {
            return Err(format!("{mode:?} ({x}, {y}): got {} but {nearest:?} is nearer", ids[0]));
        }
    }
    Ok(())
}

fn run_nearest(ctx: &mut Ctx) {
    let metas = transforms();
    let kinds: Vec<[i64; 4]> =
        vec![[0, 0, 0, 0], [0, 0, 8, 8], [4, 4, 4, 4], [0, 6, 9, 6], [-8, -1, -6, 7], [5, -3, 5, 9]];
    for n in 1..=ctx.t(4, 5) {
        odometer(n, kinds.len(), |wd| {
            ctx.case(|| format!("kinds:{wd:?}"), |ctx| {
                let feats: Vec<Value> =
                    wd.iter().enumerate().map(|(k, b)| box_feature(&format!("f{k}"), kinds[*b])).collect();
                let m = &metas[[0, 1, 3][wd[0] % 3]];
                let w = written(m, &feats, &Opts::plain(true))?;
                ctx.state(&wd);
                ctx.trace();
                let pts: &[(f64, f64)] = if n >= 4 {
                    &[(4.0, 4.0), (-3.0, 3.5), (0.0, 0.0), (6.0, 7.0)]
                } else {
                    &[(4.0, 4.0), (-3.0, 3.5), (0.0, 0.0), (6.0, 7.0), (1.0, 5.0), (-20.0, -20.0), (4.5, 1e6), (2.0, 2.0)]
                };
                for (x, y) in pts {
                    check_nearest(ctx, &w, *x, *y)?;
                    if w.boxes[0].1[0] < -5.0 {
                        // also where the features are
                        check_nearest(ctx, &w, w.boxes[0].1[0] + x / 2.0, w.boxes[0].1[1] + y / 4.0)?;
                    }
                }
                Ok(())
            });
        });
    }
    let mut sizes: Vec<usize> = (5..=ctx.t(40, 70)).collect();
    sizes.extend(ctx.t(vec![256, 257, 300], vec![255, 256, 257, 300, 513, 1025]));
    for n in sizes {
        for arr in 0..4 {
            ctx.case(|| format!("sizes:{n}:{arr}"), |ctx| {
                let feats: Vec<Value> = (0..n as i64)
                    .map(|k| {
                        let id = format!("f{k}");
                        match arr {
                            0 => box_feature(&id, [k * 3, 0, k * 3, 0]),
                            1 => box_feature(&id, [(k % 17) * 5, (k / 17) * 5, (k % 17) * 5 + 2, (k / 17) * 5 + 2]),
                            // nested boxes with one centre and drifting ones
                            2 => box_feature(&id, [-k, -k, k, k + k % 3]),
                            _ => box_feature(&id, [(k * 41) % 97, (k * 23) % 89, (k * 41) % 97 + 30, (k * 23) % 89 + k % 4]),
                        }
                    })
                    .collect();
                let w = written(&metas[0], &feats, &Opts::plain(true))?;
                ctx.state(&(n, arr));
                ctx.trace();
                let step = if n > 100 { 31.0 } else { 13.0 };
                let mut x = -20.0;
                while x < 130.0 {
                    let mut y = -15.0;
                    while y < 120.0 {
                        check_nearest(ctx, &w, x, y)?;
                        y += step * 2.0;
                    }
                    x += step;
                }
                Ok(())
            });
        }
    }
}

fn run_nearest_all(ctx: &mut Ctx) {
    run_nearest(ctx);
    let metas = transforms();
    for n in ctx.t(vec![65_537i64], vec![65_535, 65_536, 65_537, 66_000]) {
        ctx.case(|| format!("many:{n}"), |ctx| {
            let feats: Vec<Value> =
                (0..n).map(|k| box_feature(&format!("f{k}"), [3 * (k % 256), 2 * (k / 256), 3 * (k % 256) + k % 5, 2 * (k / 256) + 1])).collect();
            let w = written(&metas[0], &feats, &Opts::plain(true))?;
            ctx.state(&(n, "many"));
            ctx.trace();
            for (x, y) in [(0.0, 0.0), (-5.0, 900.0), (767.0, 512.0), (400.2, 300.9), (1.5, 511.5), (765.0, 0.0)] {
                check_nearest(ctx, &w, x, y)?;
            }
            Ok(())
        });
    }
    // other node sizes of the index
    for n in ctx.t(vec![1i64, 2, 3, 5, 9, 17, 28, 40], (1..=70).collect()) {
        for node in [2u16, 3, 4, 17, 65535] {
            ctx.case(|| format!("node:{n}:{node}"), |ctx| {
                let feats: Vec<Value> = (0..n)
                    .map(|k| box_feature(&format!("f{k}"), [(k * 41) % 97, (k * 23) % 89, (k * 41) % 97 + 30, (k * 23) % 89 + k % 4]))
                    .collect();
                let mut w = written(&metas[0], &feats, &Opts::plain(true))?;
                w.data = Arc::new(with_node_size(&w.data, node));
                ctx.state(&(n, node));
                ctx.trace();
                for x in [-20.0, 3.0, 40.0, 77.0, 120.0] {
                    for y in [-15.0, 20.0, 60.0, 100.0] {
                        check_nearest(ctx, &w, x, y)?;
                    }
                }
                Ok(())
            });
        }
    }
}

pub const P10: Prop = Prop {
    id: "P10",
    level: "model_checking",
    run: run_nearest_all,
    case_secs: 120,
    required_outcomes: &["tie", "unique"],
    assumptions: &["distance is measured to the centre of a feature's box; any of several equally near features may be delivered"],
    bounds: |t| match t {
        Tier::Quick => json!({"node_sizes": [2, 3, 4, 16, 17, 65535], "features": "words of 4 over 6 boxes", "sizes": "5..40, 256, 257, 300 in 4 arrangements, 65537"}),
        Tier::Thorough => json!({"node_sizes": [2, 3, 4, 16, 17, 65535], "features": "words of 5 over 6 boxes", "sizes": "5..70, 255..1025 in 4 arrangements, 65535..66000"}),
    },
};

// ---------------------------------------------------------------- the index itself

fn arrangement(n: usize, arr: usize) -> Vec<NodeItem> {
    let mut off = 0;
    (0..n)
        .map(|i| {
            let f = i as f64;
            let mut b = match arr {
                0 => NodeItem::bounds(f, 0.0, f, 0.0),
                1 => {
                    let s = (n as f64).sqrt().ceil();
                    NodeItem::bounds(f % s, (f / s).floor(), f % s + 0.5, (f / s).floor() + 0.5)
                }
                2 => NodeItem::bounds(1.0, 1.0, 2.0, 2.0),
                // as far apart as numbers go
                4 => {
                    let far = [0.0, f64::MAX, f64::MIN, 1e300, -1e-300][i % 5];
                    NodeItem::bounds(f.min(far), -f, f.max(far), if i % 2 == 0 { f } else { f64::MAX })
                }
                _ => NodeItem::bounds(f - (i % 3) as f64, -1.0, f + (i % 5) as f64, (i % 2) as f64),
            };
            b.offset = off;
            off += 9 + (i as u64 * 7) % 50;
            b
        })
        .collect()
}

/// The boxes themselves: every pair over a grid, and every point.
fn boxes_alone(ctx: &mut Ctx) {
    let g: Vec<(f64, f64)> = (0..4).flat_map(|a| (a..4).map(move |b| (f64::from(a) - 1.5, f64::from(b) - 1.5))).collect();
    let all: Vec<NodeItem> =
        g.iter().flat_map(|x| g.iter().map(move |y| NodeItem::bounds(x.0, y.0, x.1, y.1))).collect();
    let four = |n: &NodeItem| [n.min_x, n.min_y, n.max_x, n.max_y];
    for i in 0..all.len() {
        ctx.case(|| format!("box:{i}"), |ctx| {
            ctx.outcome("box");
            ctx.state(&(i, "box"));
            let a = &all[i];
            let none = NodeItem::create(7);
            if four(&NodeItem::sum(none.clone(), a)) != four(a) || four(&NodeItem::sum(a.clone(), &none)) != four(a) {
                return Err("a box and nothing".into());
            }
            for b in &all {
                ctx.trans(1);
                let want = [a.min_x.min(b.min_x), a.min_y.min(b.min_y), a.max_x.max(b.max_x), a.max_y.max(b.max_y)];
                if four(&NodeItem::sum(a.clone(), b)) != want {
                    return Err(format!("{a:?} and {b:?}: {:?}", NodeItem::sum(a.clone(), b)));
                }
                let meet = a.min_x <= b.max_x && b.min_x <= a.max_x && a.min_y <= b.max_y && b.min_y <= a.max_y;
                if a.intersects(b) != meet {
                    return Err(format!("{a:?} meets {b:?}: {}", !meet));
                }
            }
            for x in -8..=8 {
                for y in -8..=8 {
                    ctx.trans(1);
                    let (x, y) = (f64::from(x) / 4.0, f64::from(y) / 4.0);
                    let mut e = a.clone();
                    e.expand_xy(x, y);
                    if four(&e) != [a.min_x.min(x), a.min_y.min(y), a.max_x.max(x), a.max_y.max(y)] {
                        return Err(format!("{a:?} with ({x}, {y}): {e:?}"));
                    }
                    let inside = a.min_x <= x && x <= a.max_x && a.min_y <= y && y <= a.max_y;
                    if a.contains_point(x, y) != inside {
                        return Err(format!("{a:?} contains ({x}, {y}): {}", !inside));
                    }
                    let (dx, dy) = ((a.min_x - x).max(x - a.max_x).max(0.0), (a.min_y - y).max(y - a.max_y).max(0.0));
                    if a.min_distance_squared(x, y) != dx * dx + dy * dy
                        || a.centroid_distance_squared(x, y) != dist2(&four(a), x, y)
                    {
                        return Err(format!("{a:?} from ({x}, {y})"));
                    }
                }
            }
            Ok(())
        });
    }
}

fn run_index(ctx: &mut Ctx) {
    boxes_alone(ctx);
    let sizes: Vec<u16> = if ctx.quick() { vec![2, 3, 4, 5, 7, 16] } else { (2..=18).collect() };
    for node in sizes {
        for n in 1..=ctx.t(40usize, 90) {
            for arr in 0..5 {
                ctx.case(|| format!("tree:{node}:{n}:{arr}"), |ctx| index_case(ctx, node, n, arr));
            }
        }
        for n in [node as usize * node as usize * node as usize, 500] {
            if n > 600 {
                continue;
            }
            for d in [0usize, 1] {
                for arr in [0usize, 3] {
                    ctx.case(|| format!("tree:{node}:{}:{arr}", n + d), |ctx| index_case(ctx, node, n + d, arr));
                }
            }
        }
    }
    // more items than 16 bits can count
    for n in [65_535usize, 65_536, 65_537, 70_000] {
        for node in ctx.t(vec![2u16, 16], vec![2, 3, 16, 255, 256, 65_535]) {
            for arr in [0usize, 1] {
                ctx.case(|| format!("tree:{node}:{n}:{arr}"), |ctx| index_case(ctx, node, n, arr));
            }
        }
    }
    // sorting along the curve keeps every item
    for n in (1..=ctx.t(40usize, 200)).chain([65_536, 70_000]) {
        for arr in 0..5 {
            ctx.case(|| format!("sort:{n}:{arr}"), |ctx| {
                ctx.outcome("sort");
                let items = arrangement(n, arr);
                let extent = calc_extent(&items);
                for b in &items {
                    if b.min_x < extent.min_x || b.max_x > extent.max_x || b.min_y < extent.min_y || b.max_y > extent.max_y {
                        return Err("the extent does not cover an item".into());
                    }
                }
                let mut sorted = items.clone();
                hilbert_sort(&mut sorted, &extent);
                ctx.state(&(n, arr, "sort"));
                ctx.trans(n as u64);
                sorted.sort_by_key(|b| b.offset);
                if sorted != items {
                    return Err("sorting changed the items".into());
                }
                Ok(())
            });
        }
    }
}

fn index_case(ctx: &mut Ctx, node: u16, n: usize, arr: usize) -> Result<(), String> {
    ctx.outcome("tree");
    ctx.state(&(node, n, arr));
    ctx.trace();
    let items = arrangement(n, arr);
    let extent = calc_extent(&items);
    let total = items.last().unwrap().offset as usize + 9;
    let e = |x: fcb_core::packed_rtree::Error| x.to_string();
    let tree = PackedRTree::build(&items, &extent, node).map_err(e)?;
    let mut buf = Vec::new();
    tree.stream_write(&mut buf).map_err(|e| e.to_string())?;
    if buf.len() != PackedRTree::index_size(n, node) || buf.len() != tree.size() {
        return Err(format!("{} bytes written, size says {} and {}", buf.len(), PackedRTree::index_size(n, node), tree.size()));
    }
    let again = PackedRTree::from_buf(buf.as_slice(), n, node).map_err(e)?;
    // header | index | attribute indices | features
    let (hdr, attr) = (37, 11);
    let mut file = vec![0xAA; hdr];
    file.extend(&buf);
    file.extend(vec![0xBB; attr + total]);
    let file = Arc::new(file);
    let fbegin = hdr + buf.len() + attr;
    let fetched = {
        let (web, _) = Web::new(file.clone(), Fault::None, 0);
        let mut client = AsyncBufferedHttpRangeClient::with(web, "http://m/f");
        block_on(PackedRTree::from_http(&mut client, hdr, n, node)).map_err(e)?
    };
    let mut same = Vec::new();
    fetched.stream_write(&mut same).map_err(|e| e.to_string())?;
    if same != buf {
        return Err("the tree fetched remotely is another one".into());
    }

    let mut queries: Vec<Query> = Vec::new();
    let top = match arr {
        0 | 3 => n as i64,
        1 => (n as f64).sqrt().ceil() as i64,
        _ => 3,
    };
    let step = if top > 45 { top / 9 } else if top > 16 { 3 } else { 1 };
    let mut a = -1;
    while a <= top {
        let mut b = a;
        while b <= top {
            queries.push(Query::BBox(a as f64 - 0.25, -0.5, b as f64 + 0.25, if arr == 1 { b as f64 / 2.0 } else { 0.5 }));
            if arr == 1 || arr == 2 {
                queries.push(Query::BBox(a as f64, b as f64, top as f64, b as f64));
            }
            b += step;
        }
        queries.push(Query::PointIntersects(a as f64, 0.0));
        queries.push(Query::PointIntersects(a as f64 + 0.25, 1.25));
        queries.push(Query::PointNearest(a as f64 + 0.25, 0.75));
        a += step;
    }
    for q in queries {
        let want: Option<Vec<usize>> = match q {
            Query::PointNearest(..) => None,
            _ => Some(
                (0..n)
                    .filter(|i| hits(&q, &[items[*i].min_x, items[*i].min_y, items[*i].max_x, items[*i].max_y]))
                    .collect(),
            ),
        };
        let check = |how: &str, got: Vec<(usize, Option<usize>)>| -> Result<(), String> {
            let idx = got.iter().filter_map(|g| g.1).collect::<Vec<_>>();
            let offs: Vec<usize> = got.iter().map(|g| g.0).collect();
            let want_idx = match (&want, q) {
                (Some(w), _) => w.clone(),
                (None, Query::PointNearest(x, y)) => {
                    let d = |i: usize| dist2(&[items[i].min_x, items[i].min_y, items[i].max_x, items[i].max_y], x, y);
                    let best = (0..n).map(d).fold(f64::INFINITY, f64::min);
                    let near: Vec<usize> = (0..n).filter(|i| d(*i) == best).collect();
                    if offs.len() != 1 {
                        return Err(format!("{how} {q:?}: {} results", offs.len()));
                    }
                    let found: Vec<usize> = near.into_iter().filter(|i| items[*i].offset as usize == offs[0]).collect();
                    if found.is_empty() {
                        return Err(format!("{how} {q:?}: offset {} is not nearest", offs[0]));
                    }
                    found
                }
                _ => unreachable!(),
            };
            let want_offs: Vec<usize> = want_idx.iter().map(|i| items[*i].offset as usize).collect();
            if offs != want_offs || (!idx.is_empty() && idx != want_idx) {
                return Err(format!("{how} {q:?}: expected items {want_idx:?}, got offsets {offs:?} (indices {idx:?})"));
            }
            Ok(())
        };
        ctx.trans(5);
        let r = tree.search(q).map_err(e)?;
        check("built", r.iter().map(|x| (x.offset, Some(x.index))).collect())?;
        let r = again.search(q).map_err(e)?;
        check("loaded", r.iter().map(|x| (x.offset, Some(x.index))).collect())?;
        let mut cur = Cursor::new(file.as_slice());
        cur.set_position(hdr as u64);
        let r = PackedRTree::stream_search(&mut cur, n, node, q).map_err(e)?;
        check("streamed", r.iter().map(|x| (x.offset, Some(x.index))).collect())?;
        if cur.position() as usize != hdr + buf.len() {
            return Err(format!("streamed {q:?}: left at {} of {}", cur.position() as usize - hdr, buf.len()));
        }
        for threshold in [0usize, 256 * 1024] {
            let (web, _) = Web::new(file.clone(), Fault::None, 0);
            let mut client = AsyncBufferedHttpRangeClient::with(web, "http://m/f");
            let r = block_on(PackedRTree::http_stream_search(&mut client, hdr, attr, n, node, q, threshold))
                .map_err(e)?;
            check("http", r.iter().map(|x| (x.range.start() - fbegin, None)).collect())?;
            for x in &r {
                let i = items.binary_search_by_key(&(x.range.start() - fbegin), |b| b.offset as usize).unwrap();
                let ok = match &x.range {
                    HttpRange::Range(rg) => i + 1 < n && rg.end - fbegin == items[i + 1].offset as usize,
                    HttpRange::RangeFrom(_) => i + 1 == n || matches!(q, Query::PointNearest(..)),
                };
                if !ok {
                    return Err(format!("http {q:?}: item {i} has range {:?}", x.range));
                }
            }
        }
    }
    Ok(())
}

pub const P11: Prop = Prop {
    id: "P11",
    level: "model_checking",
    run: run_index,
    case_secs: 120,
    required_outcomes: &["box", "tree", "sort"],
    assumptions: &["items are given in the order in which they are stored"],
    bounds: |t| match t {
        Tier::Quick => json!({"node_sizes": [2,3,4,5,7,16], "items": "1..40, three full levels, 65535..65537 and 70000", "arrangements": 5, "request_merging": 2, "pairs_of_boxes": "100 x 100 over a 4x4 grid"}),
        Tier::Thorough => json!({"node_sizes": "2..18", "items": "1..90, three full levels, 65535..65537 and 70000", "arrangements": 5, "request_merging": 2, "pairs_of_boxes": "100 x 100 over a 4x4 grid"}),
    },
};

// ---------------------------------------------------------------- storage order

/// A space-filling curve over a full grid of `k` by `k` cells: it goes from a cell to one beside it, and leaves no
/// square of the quartered grid before it has been through all of it.
fn is_curve(k: usize, cells: &[(usize, usize)]) -> Result<(), String> {
    if cells.len() != k * k {
        return Err(format!("{} cells of {}", cells.len(), k * k));
    }
    for w in cells.windows(2) {
        if w[0].0.abs_diff(w[1].0) + w[0].1.abs_diff(w[1].1) != 1 {
            return Err(format!("{:?} comes after {:?}", w[1], w[0]));
        }
    }
    let mut q = k / 2;
    while q > 1 {
        for part in cells.chunks(q * q) {
            if let Some(c) = part.iter().find(|c| (c.0 / q, c.1 / q) != (part[0].0 / q, part[0].1 / q)) {
                return Err(format!("{c:?} lies outside of the square of {:?} that is being filled", part[0]));
            }
        }
        q /= 2;
    }
    Ok(())
}

/// A feature at a cell of the grid: a point, or a box around it (`r`), at some height.
fn at_cell(k: usize, x: usize, y: usize, r: i64, z: i64) -> Value {
    // boxes stay inside the grid, so that its extent is that of the outermost centres
    let half = |v: usize| if v == 0 || v == k - 1 { 0 } else { r };
    let (cx, cy) = (10 * x as i64, 10 * y as i64);
    let mut f = box_feature(&format!("c{x}_{y}"), [cx - half(x), cy - half(y), cx + half(x), cy + half(y)]);
    for v in f["vertices"].as_array_mut().unwrap() {
        v[2] = json!(v[2].as_i64().unwrap() + z);
    }
    f
}

fn stored_cells(meta: &Value, feats: &[Value], o: &Opts) -> Result<Vec<(usize, usize)>, String> {
    let data = Arc::new(write_fcb(meta, feats, o)?);
    read_mode(&data, Mode::Seek, &Sel::All)?
        .ids()
        .iter()
        .map(|id| {
            let (x, y) = id[1..].split_once('_').ok_or("identifier")?;
            Ok((x.parse().map_err(|_| "identifier")?, y.parse().map_err(|_| "identifier")?))
        })
        .collect()
}

fn run_order(ctx: &mut Ctx) {
    // the curve alone, on grids whose lines are exact on the curve's own grid of 2^16
    for (ki, k) in [1usize, 2, 4, 16, 256].into_iter().enumerate() {
        for turn in 0..8usize {
            ctx.case(|| format!("curve:{k}:{turn}"), |ctx| {
                ctx.outcome("curve");
                ctx.state(&(ki, turn));
                let mut items: Vec<NodeItem> = (0..k * k)
                    .map(|i| {
                        // every one of the eight ways through rows and columns
                        let (mut a, mut b) = (i / k, i % k);
                        if turn & 1 != 0 {
                            a = k - 1 - a;
                        }
                        if turn & 2 != 0 {
                            b = k - 1 - b;
                        }
                        let (x, y) = if turn & 4 != 0 { (a, b) } else { (b, a) };
                        let r = ((x * 7 + y * 3) % 4) as f64 / 10.0;
                        let half = |v: usize| if v == 0 || v == k - 1 { 0.0 } else { r };
                        let (fx, fy) = (x as f64, y as f64);
                        let mut n = NodeItem::bounds(fx - half(x), fy - half(y), fx + half(x), fy + half(y));
                        n.offset = (x * k + y) as u64;
                        n
                    })
                    .collect();
                let extent = calc_extent(&items);
                hilbert_sort(&mut items, &extent);
                ctx.trans((k * k) as u64);
                let cells: Vec<_> = items.iter().map(|n| (n.offset as usize / k, n.offset as usize % k)).collect();
                is_curve(k, &cells)
            });
        }
    }
    // full blocks of 8 x 8 anywhere between two far corners: the curve's finer levels
    for j in 0..=13u32 {
        let side = 8usize << j;
        let n = 65536 / side;
        let mut bases = vec![0, n - 1, n / 2, n / 3, 2 * n / 3, n / 5, 4 * n / 5, n / 7, n / 2 - (n > 1) as usize];
        bases.sort();
        bases.dedup();
        for (bx, by) in bases.iter().flat_map(|x| bases.iter().map(move |y| (*x, *y))) {
            for file in [false, true] {
                ctx.case(|| format!("block:{j}:{bx}:{by}:{file}"), |ctx| {
                    ctx.outcome("block");
                    ctx.state(&(j, bx, by, file));
                    ctx.trans(64);
                    let place = |i: usize| (bx * side + (i % 8) * (side / 8), by * side + (i / 8) * (side / 8));
                    let cells: Vec<(usize, usize)> = if file {
                        ctx.trace();
                        let point = |id: String, x: usize, y: usize| box_feature(&id, [x as i64, y as i64, x as i64, y as i64]);
                        let mut feats = vec![point("low_".into(), 0, 0)];
                        feats.extend((0..64).map(|i| i * 11 % 64).map(|i| point(format!("c{}_{}", i % 8, i / 8), place(i).0, place(i).1)));
                        feats.push(point("high_".into(), 65535, 65535));
                        let data = Arc::new(write_fcb(&base_meta(), &feats, &Opts::plain(true))?);
                        let ids = read_mode(&data, Mode::Seek, &Sel::All)?.ids();
                        let cells = ids.iter().filter_map(|id| id.strip_prefix('c')?.split_once('_'));
                        cells.map(|(x, y)| (x.parse().unwrap(), y.parse().unwrap())).collect()
                    } else {
                        let mut items: Vec<NodeItem> = (0..64)
                            .map(|i| {
                                let (x, y) = (place(i).0 as f64, place(i).1 as f64);
                                let mut n = NodeItem::bounds(x, y, x, y);
                                n.offset = i as u64;
                                n
                            })
                            .collect();
                        hilbert_sort(&mut items, &NodeItem::bounds(0.0, 0.0, 65535.0, 65535.0));
                        items.iter().map(|n| (n.offset as usize % 8, n.offset as usize / 8)).collect()
                    };
                    is_curve(8, &cells)
                });
            }
        }
    }
    // files over a full grid: every way to give the features in, every transform
    let metas = transforms();
    for k in [2usize, 4, 16] {
        for turn in 0..8usize {
            for (mi, m) in metas.iter().enumerate() {
                for r in [0i64, 2] {
                    ctx.case(|| format!("grid:{k}:{turn}:m{mi}:{r}"), |ctx| {
                        ctx.outcome("grid");
                        ctx.trace();
                        let feats: Vec<Value> = (0..k * k)
                            .map(|i| {
                                let i = if turn & 1 != 0 { k * k - 1 - i } else { i };
                                // an odd step goes through all of them in another order
                                let i = i * [1, 3, 5, 11][turn >> 1] % (k * k);
                                at_cell(k, i % k, i / k, r, (i % 3) as i64)
                            })
                            .collect();
                        let cells = stored_cells(m, &feats, &Opts::plain(true))?;
                        ctx.state(&(k, turn, mi, r));
                        ctx.trans(cells.len() as u64);
                        is_curve(k, &cells)?;
                        // without the index they stay as they came
                        let given: Vec<(usize, usize)> = feats
                            .iter()
                            .map(|f| {
                                let (x, y) = f["id"].as_str().unwrap()[1..].split_once('_').unwrap();
                                (x.parse().unwrap(), y.parse().unwrap())
                            })
                            .collect();
                        if stored_cells(m, &feats, &Opts::plain(false))? != given {
                            return Err("without the index the order given is not kept".into());
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // every set of cells that spans the grid of 4 x 4 is stored in the order of the whole
    let m = &metas[0];
    for block in 0..64u32 {
        ctx.case(|| format!("some:{block}"), |ctx| {
            let all: Vec<Value> = (0..16).map(|i| at_cell(4, i % 4, i / 4, 0, 0)).collect();
            let whole = stored_cells(m, &all, &Opts::plain(true))?;
            for low in 0..256u32 {
                let set = (block << 8 | low) << 1 | 1 | 1 << 15;
                ctx.outcome("some");
                ctx.state(&set);
                ctx.trace();
                let some: Vec<Value> = (0..16).filter(|i| set >> i & 1 != 0).map(|i| all[i].clone()).collect();
                let cells = stored_cells(m, &some, &Opts::plain(true))?;
                ctx.trans(cells.len() as u64);
                let want: Vec<_> = whole.iter().filter(|c| cells.contains(c)).copied().collect();
                if cells != want {
                    return Err(format!("cells {set:#018b} lie as {cells:?}, not as {want:?}"));
                }
            }
            Ok(())
        });
    }
}

pub const P27: Prop = Prop {
    id: "P27",
    level: "model_checking",
    run: run_order,
    case_secs: 120,
    required_outcomes: &["curve", "block", "grid", "some"],
    assumptions: &["any space-filling curve that fills quarter after quarter and only steps to neighbours is accepted, from any corner, in either direction"],
    bounds: |_| json!({"grids": "1, 2, 4, 16 (files) and 256 (curve alone) cells wide", "blocks": "8 x 8 cells of 14 sizes at up to 81 places between corners 65535 apart", "curve's resolution": "2^16", "orders_given": 8, "transforms": 5, "sets": "all 16384 of a 4x4 grid that hold two opposite corners"}),
};
