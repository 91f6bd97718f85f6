//! fcbmc: bounded exhaustive exploration of FlatCityBuf's guarantees.
//!
//!   fcbmc check  <property> <tier> --verif <dir>
//!   fcbmc replay <file>
//!   fcbmc list

mod core;
mod data;
mod props;
mod shapes;
mod webmock;
mod wire;

use crate::core::*;
use serde_json::{json, Value};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;

#[global_allocator]
static ALLOC: props::corrupt::Counting = props::corrupt::Counting;

const WORKERS: usize = 8;

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// Descriptor 1 becomes /dev/null (the library prints there); reports go to a
/// saved copy of the original.
fn take_stdout() -> std::fs::File {
    unsafe {
        let saved = libc::dup(1);
        libc::fcntl(saved, libc::F_SETFD, libc::FD_CLOEXEC);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        // the library also reports on standard error what it could not parse
        if std::env::var_os("FCBMC_STDERR").is_none() {
            libc::dup2(null, 2);
        }
        libc::close(null);
        std::fs::File::from_raw_fd(saved)
    }
}

fn load_known(verif: &Path, prop: &str) -> (Known, Vec<(String, String)>) {
    let mut entries = Vec::new();
    let mut listed = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.json")) {
        let v: Value = serde_json::from_str(&s).expect("known_findings.json");
        for e in v["findings"].as_array().into_iter().flatten() {
            if e["property"] != prop {
                continue;
            }
            let id = e["id"].as_str().unwrap().to_string();
            for p in e["cases"].as_array().unwrap() {
                entries.push((
                    p.as_str().unwrap().to_string(),
                    e["message"].as_str().unwrap_or("").to_string(),
                    id.clone(),
                ));
            }
            listed.push((id, e["what"].as_str().unwrap().to_string()));
        }
    }
    (Known { entries }, listed)
}

fn write_replay(verif: &Path, prop: &str, tier: &str, i: usize, v: &Violation) -> PathBuf {
    let dir = verif.join("build").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{i}.json"));
    let _ = std::fs::write(
        &p,
        serde_json::to_string_pretty(&json!({
            "property": prop, "tier": tier, "case": v.case, "what": v.what,
            "how": format!("bash /verif/check.sh --replay {}", p.display()),
        }))
        .unwrap(),
    );
    p
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.level);
            }
        }
        Some("check") => {
            let prop = args[2].clone();
            let tier = args[3].clone();
            let verif = PathBuf::from(&args[4]);
            std::process::exit(supervise(&prop, &tier, &verif, None));
        }
        Some("replay") => {
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let verif = PathBuf::from(&args[3]);
            std::process::exit(supervise(
                v["property"].as_str().unwrap(),
                v["tier"].as_str().unwrap(),
                &verif,
                Some(v["case"].as_str().unwrap().to_string()),
            ));
        }
        _ => {
            eprintln!("usage: fcbmc check <property> <tier> <verif dir> | replay <file> <verif dir> | list");
            std::process::exit(2);
        }
    }
}

/// Forks: the child explores, the parent attributes a crash of the child.
fn supervise(prop: &str, tier: &str, verif: &Path, only: Option<String>) -> i32 {
    let Some(p) = props::ALL.iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let mem = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            Slots::bytes(WORKERS),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    } as *mut u8;
    let scratch = std::env::temp_dir().join(format!("fcbmc-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    std::env::set_var("FCBMC_SCRATCH", &scratch);
    let t0 = std::time::Instant::now();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let code = explore(p, tier, verif, only, mem);
        std::process::exit(code);
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    let _ = std::fs::remove_dir_all(&scratch);
    if libc::WIFEXITED(status) {
        let c = libc::WEXITSTATUS(status);
        if c != 101 {
            return c;
        }
    }
    let sig = if libc::WIFSIGNALED(status) {
        libc::WTERMSIG(status)
    } else {
        0
    };
    let cases = Slots::read(mem, WORKERS);
    eprintln!("exploring process died (signal {sig}) while running: {cases:?}");
    if matches!(sig, libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE)
        && !cases.is_empty()
    {
        let v = Violation {
            case: cases[0].clone(),
            what: format!("the process was killed by signal {sig} while these cases ran: {cases:?}"),
        };
        let path = write_replay(verif, prop, tier, 0, &v);
        println!("VIOLATION property={prop} replay={}", path.display());
        println!("  case: {}\n  {}", v.case, v.what);
        let _ = std::fs::create_dir_all(verif.join("evidence"));
        let _ = std::fs::write(
            verif.join("evidence").join(format!("{prop}.json")),
            serde_json::to_string_pretty(&json!({
                "property": prop, "tier": tier, "seed": seed(), "level": p.level,
                "coverage": {"explanation": "the exploring process was killed by a signal"},
                "wall_s": t0.elapsed().as_secs_f64(), "violations": 1
            }))
            .unwrap(),
        );
        return 1;
    }
    3
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn explore(p: &props::Prop, tier: &str, verif: &Path, only: Option<String>, mem: *mut u8) -> i32 {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 24 << 30,
            rlim_max: 24 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut out = take_stdout();
    install_panic_hook();
    let (known, listed) = load_known(verif, p.id);
    let replaying = only.is_some();
    let slots = Arc::new(Slots::new(mem, WORKERS));
    let run = run(
        p.run,
        tier_of(tier),
        only,
        slots,
        Arc::new(known),
        Duration::from_secs(p.case_secs),
    );
    let mut st = run.stats;
    if let Some(case) = &run.hung {
        st.violations.push(Violation {
            case: case.clone(),
            what: format!("no answer within {} s", p.case_secs),
        });
    }
    let nviol = st.violations.len();
    if std::env::var_os("FCBMC_ALL").is_some() {
        let all: String = st.violations.iter().map(|v| format!("{}\t{}\n", v.case, v.what)).collect();
        let _ = std::fs::write(verif.join("build/violations.txt"), all);
    }
    let mut distinct: Vec<&Violation> = Vec::new();
    let mut sigs = std::collections::HashSet::new();
    for v in &st.violations {
        let head = v.what.split(" expected ").next().unwrap_or("");
        let group = v.case.split([':', '[']).next().unwrap_or("");
        let sig: String = group
            .chars()
            .chain(head.chars())
            .filter(|c| !c.is_ascii_digit())
            .take(100)
            .collect();
        if sigs.insert(sig) {
            distinct.push(v);
        }
    }
    for (i, v) in distinct.iter().take(10).enumerate() {
        let path = write_replay(verif, p.id, tier, i, v);
        let _ = writeln!(out, "VIOLATION property={} replay={}", p.id, path.display());
        let what: String = v.what.chars().take(700).collect();
        let _ = writeln!(out, "  case: {}\n  {}", v.case, what);
    }
    if !replaying {
        for (id, what) in &listed {
            let n = st.known.get(id).copied().unwrap_or(0);
            let _ = writeln!(
                out,
                "KNOWN-FINDING: property={} {} ({} enumerated cases)",
                p.id, what, n
            );
        }
    }
    let mut missing: Vec<&str> = Vec::new();
    if !replaying && nviol == 0 {
        for o in p.required_outcomes {
            if !st.outcomes.keys().any(|k| k.starts_with(o)) {
                missing.push(o);
            }
        }
    }
    let mut coverage = json!({
        "exhaustive": run.hung.is_none() && nviol == 0,
        "samples": st.samples,
        "bounds": (p.bounds)(tier_of(tier)),
        "outcomes": st.outcomes,
        "cases_enumerated": run.enumerated,
        "known_finding_cases": st.known,
    });
    let c = coverage.as_object_mut().unwrap();
    match p.level {
        "model_checking" => {
            c.insert("states".into(), json!(st.states.len()));
            c.insert("transitions".into(), json!(st.transitions));
            c.insert("traces_validated_against_impl".into(), json!(st.traces));
        }
        _ => {
            c.insert("evaluations".into(), json!(st.evaluations));
            c.insert("distinct_nontrivial".into(), json!(st.states.len()));
            c.insert(
                "rule".into(),
                json!("every dataset, selection, mode and fault or schedule within the bounds is run, grouped into evaluations by dataset, selection and mode; distinct_nontrivial counts distinct groups (with their fault where the group has one) whose undisturbed run was checked first, operations_compared the disturbed runs judged"),
            );
            c.insert("operations_compared".into(), json!(st.transitions));
        }
    }
    if !replaying {
        let _ = std::fs::create_dir_all(verif.join("evidence"));
        std::fs::write(
            verif.join("evidence").join(format!("{}.json", p.id)),
            serde_json::to_string_pretty(&json!({
                "property": p.id, "tier": tier, "seed": seed(), "level": p.level,
                "coverage": coverage, "assumptions": p.assumptions,
                "wall_s": run.wall, "violations": nviol,
            }))
            .unwrap(),
        )
        .unwrap();
    }
    let _ = writeln!(
        out,
        "{} {}: cases={} states={} transitions={} traces={} outcomes={} violations={} wall={:.1}s",
        p.id,
        tier,
        st.evaluations,
        st.states.len(),
        st.transitions,
        st.traces,
        st.outcomes.len(),
        nviol,
        run.wall
    );
    let show = std::env::var("FCBMC_OUTCOMES").is_ok();
    if show {
        for (k, v) in &st.outcomes {
            let _ = writeln!(out, "   {v:>10}  {k}");
        }
    }
    let _ = out.flush();
    let code = if nviol > 0 {
        1
    } else if !missing.is_empty() {
        let _ = writeln!(out, "the exploration is vacuous: no case reached {missing:?}");
        2
    } else {
        0
    };
    // workers that hang must not keep the process alive
    unsafe { libc::_exit(code) }
}
