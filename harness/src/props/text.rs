//! P26: reading CityJSON text, however it is laid out and delivered.

use super::Prop;
use crate::core::{Ctx, Tier};
use crate::data::*;
use crate::shapes::odometer;
use fcb_core::{read_cityjson, read_cityjson_from_reader, CJType, CJTypeKind};
use serde_json::{json, Value};
use std::io::{self, BufReader, ErrorKind, Read};

/// Delivers text in fragments; every `interrupted`-th call is interrupted, call
/// number `fail.0` fails.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    sizes: &'a [usize],
    calls: usize,
    interrupted: usize,
    fail: Option<(usize, ErrorKind)>,
    failed: &'a std::cell::Cell<bool>,
}

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupted > 0 && self.calls % self.interrupted == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some((k, kind)) = self.fail {
            if self.calls == k {
                self.failed.set(true);
                return Err(kind.into());
            }
        }
        let n = self.sizes[self.calls % self.sizes.len()].min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

type Answer = Result<(Value, Vec<Value>), String>;

fn answer<E: std::fmt::Display>(r: Result<CJType, E>) -> Answer {
    match r.map_err(|e| e.to_string())? {
        CJType::Seq(s) => Ok((
            serde_json::to_value(&s.cj).unwrap(),
            s.features.iter().map(|f| serde_json::to_value(f).unwrap()).collect(),
        )),
        CJType::Normal(cj) => Ok((serde_json::to_value(&cj).unwrap(), vec![])),
    }
}

/// What a text sequence may be read as: the answers allowed, and whether refusing is.
fn meaning(text: &[u8]) -> (Option<(Value, Vec<Value>)>, bool) {
    let mut lines: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    if lines.last().is_some_and(|l| l.is_empty()) {
        lines.pop();
    }
    let blank = |l: &&[u8]| l.iter().all(|b| b" \t\r".contains(b));
    let any_blank = lines.iter().any(blank);
    lines.retain(|l| !blank(l));
    let Some((first, rest)) = lines.split_first() else {
        return (None, true);
    };
    let Ok(cj) = serde_json::from_slice::<cjseq::CityJSON>(first) else {
        return (None, true);
    };
    let mut feats = vec![];
    for l in rest {
        match serde_json::from_slice::<cjseq::CityJSONFeature>(l) {
            Ok(f) => feats.push(serde_json::to_value(&f).unwrap()),
            Err(_) => return (None, true),
        }
    }
    (Some((serde_json::to_value(&cj).unwrap(), feats)), any_blank)
}

fn judge(want: &(Option<(Value, Vec<Value>)>, bool), got: &Answer) -> Result<&'static str, String> {
    match (want, got) {
        ((None, _), Err(_)) => Ok("refused"),
        ((None, _), Ok(_)) => Err("accepted although a line is not what it should be".into()),
        ((Some(_), true), Err(_)) => Ok("blank line refused"),
        ((Some(_), false), Err(e)) => Err(format!("refused: {e}")),
        ((Some((m, fs)), _), Ok((gm, gfs))) => {
            if let Some(d) = diff(m, gm) {
                return Err(format!("metadata {d}"));
            }
            if fs.len() != gfs.len() {
                return Err(format!("{} features in the text, {} read", fs.len(), gfs.len()));
            }
            for (k, (a, b)) in fs.iter().zip(gfs).enumerate() {
                if let Some(d) = diff(a, b) {
                    return Err(format!("feature {k} {d}"));
                }
            }
            Ok("read")
        }
    }
}

const KINDS: usize = 10;

fn line(kind: usize, k: usize) -> Vec<u8> {
    let f = point_feature(&format!("f{k}"), k as i64, -1, json!({"s": format!("v{k}")})).to_string();
    match kind {
        0 => {
            let mut m = base_meta();
            m["metadata"] = json!({"title": format!("t{k}")});
            m.to_string().into_bytes()
        }
        1 => f.into_bytes(),
        2 => vec![],
        3 => b" \t".to_vec(),
        4 => b"x".to_vec(),
        5 => f.as_bytes()[..f.len() - 1].to_vec(),
        6 => f.replace(&format!("\"v{k}\""), "\"\u{e9}\u{1F600}\u{2028}\\n\\u0085\"").into_bytes(),
        7 => [&f.as_bytes()[..f.len() - 4], b"\xff\xfe", &f.as_bytes()[f.len() - 4..]].concat(),
        8 => format!("{f}{f}").into_bytes(),
        _ => format!("  {f}\t ").into_bytes(),
    }
}

fn run_text(ctx: &mut Ctx) {
    // words of lines, endings and final newline
    for n in 0..=ctx.t(4, 5) {
        odometer(n, KINDS, |w| {
            for ends in 0..4usize {
                if n == 0 && ends > 0 {
                    continue;
                }
                ctx.case(|| format!("words:{w:?}:{ends}"), |ctx| {
                    let mut text = vec![];
                    for (i, k) in w.iter().enumerate() {
                        text.extend(line(*k, i));
                        let last = i + 1 == n;
                        match ends {
                            0 => text.push(b'\n'),
                            1 => text.extend(b"\r\n"),
                            2 if last => {}
                            2 => text.push(b'\n'),
                            _ if last => {}
                            _ => text.extend(if i % 2 == 0 { &b"\r\n"[..] } else { b"\n" }),
                        }
                    }
                    ctx.state(&text);
                    let want = meaning(&text);
                    let got = answer(read_cityjson_from_reader(BufReader::new(&text[..]), CJTypeKind::Seq));
                    let o = judge(&want, &got)?;
                    ctx.outcome(o);
                    ctx.trans(n as u64);
                    // the delivery changes nothing
                    let failed = std::cell::Cell::new(false);
                    let deliveries: &[(&[usize], usize, usize)] =
                        if n < 4 { &[(&[1], 1, 0), (&[3], 8192, 0), (&[7, 1, 2], 5, 3), (&[8192], 8192, 2)] } else { &[(&[7, 1, 2], 5, 3)] };
                    for (sizes, cap, interrupted) in deliveries {
                        let p = Pieces { data: &text, pos: 0, sizes, calls: 0, interrupted: *interrupted, fail: None, failed: &failed };
                        let g = answer(read_cityjson_from_reader(BufReader::with_capacity(*cap, p), CJTypeKind::Seq));
                        judge(&want, &g).map_err(|e| format!("in fragments {sizes:?}: {e}"))?;
                        if g.is_ok() != got.is_ok() {
                            return Err(format!("in fragments {sizes:?} the answer differs"));
                        }
                        ctx.trans(1);
                    }
                    ctx.trace();
                    Ok(())
                });
            }
        });
    }
    // longer sequences: every number of features
    for n in ctx.t(vec![0usize, 1, 10, 100, 1000], (0..=64).chain([1000, 1023, 1024, 1025, 5000]).collect()) {
        for bad in [None, Some(0), Some(n / 2), Some(n.saturating_sub(1))] {
            ctx.case(|| format!("long:{n}:{bad:?}"), |ctx| {
                let mut text = line(0, 0);
                text.push(b'\n');
                for k in 0..n {
                    text.extend(line(if bad == Some(k) { 5 } else { 1 }, k));
                    text.push(b'\n');
                }
                let want = meaning(&text);
                let got = answer(read_cityjson_from_reader(BufReader::new(&text[..]), CJTypeKind::Seq));
                let o = judge(&want, &got)?;
                ctx.outcome(o);
                ctx.trace();
                Ok(())
            });
        }
    }
    // every prefix, and every fragmentation into equal pieces, of one sequence
    let mut text = vec![];
    for (i, k) in [0, 1, 6, 9].iter().enumerate() {
        text.extend(line(*k, i));
        text.extend(if i == 1 { &b"\r\n"[..] } else { b"\n" });
    }
    for k in 0..=text.len() {
        ctx.case(|| format!("prefix:{k}"), |ctx| {
            let want = meaning(&text[..k]);
            for size in [1, 4, 8192] {
                let failed = std::cell::Cell::new(false);
                let p = Pieces { data: &text[..k], pos: 0, sizes: &[size], calls: 0, interrupted: 0, fail: None, failed: &failed };
                let g = answer(read_cityjson_from_reader(BufReader::new(p), CJTypeKind::Seq));
                let o = judge(&want, &g)?;
                ctx.outcome(o);
            }
            ctx.trace();
            Ok(())
        });
        ctx.case(|| format!("pieces:{k}"), |ctx| {
            let want = meaning(&text);
            for cap in [1, 3, 16, 8192] {
                let failed = std::cell::Cell::new(false);
                let sizes = [k + 1];
                let p = Pieces { data: &text, pos: 0, sizes: &sizes, calls: 0, interrupted: 0, fail: None, failed: &failed };
                let g = answer(read_cityjson_from_reader(BufReader::with_capacity(cap, p), CJTypeKind::Seq));
                judge(&want, &g)?;
                ctx.trans(1);
            }
            ctx.outcome("pieces");
            ctx.trace();
            Ok(())
        });
    }
    // a failure of every read
    let doc = {
        let mut m = base_meta();
        m["CityObjects"]["a"] = json!({"type": "Building", "attributes": {"s": "\u{e9} \n \u{2028}"}});
        m["vertices"] = json!([[1, 2, 3], [4, 5, 6]]);
        serde_json::to_string_pretty(&m).unwrap().into_bytes()
    };
    let kinds = [ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::InvalidData];
    for (normal, text) in [(false, &text), (true, &doc)] {
        for size in ctx.t(vec![16usize, 200], vec![1, 2, 16, 61, 200, 8192]) {
            for at in 1..=text.len() / size + 2 {
                for kind in kinds {
                    ctx.case(|| format!("failure:{normal}:{size}:{at}:{kind:?}"), |ctx| {
                        let failed = std::cell::Cell::new(false);
                        let sizes = [size];
                        let p = Pieces { data: text, pos: 0, sizes: &sizes, calls: 0, interrupted: 0, fail: Some((at, kind)), failed: &failed };
                        let k = if normal { CJTypeKind::Normal } else { CJTypeKind::Seq };
                        let g = answer(read_cityjson_from_reader(BufReader::new(p), k));
                        ctx.trans(1);
                        ctx.trace();
                        match (failed.get(), g) {
                            (true, Err(_)) => {
                                ctx.outcome("failure reported");
                                Ok(())
                            }
                            (true, Ok(_)) => Err("a read failed, but the text counts as complete".into()),
                            (false, Ok(_)) => {
                                ctx.outcome("not reached");
                                Ok(())
                            }
                            (false, Err(e)) => Err(format!("refused: {e}")),
                        }
                    });
                }
            }
        }
    }
    // one document over several lines
    let crlf = String::from_utf8(doc.clone()).unwrap().replace('\n', "\r\n").into_bytes();
    let flat = serde_json::from_slice::<Value>(&doc).unwrap().to_string().into_bytes();
    for (ti, text) in [doc, crlf, flat].iter().enumerate() {
        for k in 0..=text.len() {
            ctx.case(|| format!("document:{ti}:{k}"), |ctx| {
                let want = serde_json::from_slice::<cjseq::CityJSON>(&text[..k]);
                for size in [1, 5, 8192] {
                    let failed = std::cell::Cell::new(false);
                    let sizes = [size];
                    let p = Pieces { data: &text[..k], pos: 0, sizes: &sizes, calls: 0, interrupted: size % 4, fail: None, failed: &failed };
                    let p = Pieces { interrupted: if p.interrupted == 1 { 3 } else { 0 }, ..p };
                    let g = answer(read_cityjson_from_reader(BufReader::new(p), CJTypeKind::Normal));
                    ctx.trans(1);
                    match (&want, g) {
                        (Err(_), Err(_)) => ctx.outcome("refused"),
                        (Ok(w), Ok((g, _))) => {
                            if let Some(d) = diff(&serde_json::to_value(w).unwrap(), &g) {
                                return Err(d);
                            }
                            ctx.outcome("document");
                        }
                        (Ok(_), Err(e)) => return Err(format!("refused: {e}")),
                        (Err(_), Ok(_)) => return Err("half a document was accepted".into()),
                    }
                }
                ctx.trace();
                Ok(())
            });
        }
    }
    // from a path
    for n in 0..=3 {
        odometer(n, KINDS, |w| {
            ctx.case(|| format!("path:{w:?}"), |ctx| {
                let mut text = vec![];
                for (i, k) in w.iter().enumerate() {
                    text.extend(line(*k, i));
                    text.push(b'\n');
                }
                let p = std::env::temp_dir().join(format!("fcbmc-{}-{}.jsonl", std::process::id(), ctx.tid));
                std::fs::write(&p, &text).unwrap();
                let g = answer(read_cityjson(p.to_str().unwrap(), CJTypeKind::Seq));
                let _ = std::fs::remove_file(&p);
                judge(&meaning(&text), &g)?;
                ctx.outcome("path");
                ctx.trace();
                Ok(())
            });
        });
    }
    for p in ["/nonexistent/file", "/", ""] {
        ctx.case(|| format!("no-path:{p}"), |ctx| {
            for k in [CJTypeKind::Seq, CJTypeKind::Normal] {
                if read_cityjson(p, k).is_ok() {
                    return Err("something was read".into());
                }
            }
            ctx.outcome("path");
            ctx.trace();
            Ok(())
        });
    }
}

pub const P26: Prop = Prop {
    id: "P26",
    level: "model_checking",
    run: run_text,
    case_secs: 60,
    required_outcomes: &["read", "refused", "pieces", "failure reported", "document", "path"],
    assumptions: &["cjseq's types decide whether a single line is metadata or a feature"],
    bounds: |t| match t {
        Tier::Quick => json!({"words": "all of up to 4 lines over 10 kinds, 4 layouts of line ends", "prefixes": "every byte", "failures": "every read, 6 kinds"}),
        Tier::Thorough => json!({"words": "all of up to 5 lines over 10 kinds, 4 layouts of line ends", "prefixes": "every byte", "failures": "every read, 6 kinds, 6 fragment sizes"}),
    },
};
