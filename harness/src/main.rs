mod bin;
mod engine;
mod model;
mod gen;
mod p_sets;
mod p_time;
mod p_transl;
mod p_fmt;
mod p_graph;
mod p_sched;
mod p_seq;

use engine::*;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::time::Instant;

pub struct Prop { pub id: &'static str, pub legs: Vec<Box<dyn AnyLeg>> }

fn props() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(p_sets::props());
    v.extend(p_time::props());
    v.extend(p_transl::props());
    v.extend(p_fmt::props());
    v.extend(p_graph::props());
    v.extend(p_sched::props());
    v.extend(p_seq::props());
    v.sort_by_key(|p| p.id);
    v
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

const EXIT_ERROR: i32 = 3;
/// cases of the plain build, relative to those of the checked build
const PLAIN_SHARE: f64 = 0.5;
/// the child met a case that does not terminate
const EXIT_HANG: i32 = 77;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => { for p in props() { for l in &p.legs { println!("{} {}", p.id, l.name()) } } }
        Some("run") => std::process::exit(both(&args)),
        Some("run-one") => std::process::exit(parent(&args)),
        Some("child") => std::process::exit(child(&args)),
        Some("replay") => std::process::exit(replay(&args[2])),
        _ => { eprintln!("usage: vh run <property> --evidence F --replays DIR [--only LEG] | replay FILE | list"); std::process::exit(2) }
    }
}

/// This binary is built twice: with debug assertions and overflow checks ("checked", target/release)
/// and as a user's release build ("plain", target/plain)
const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "plain" };
/// the other build of this binary
fn sibling() -> Option<std::path::PathBuf> {
    let exe = std::env::current_exe().ok()?;
    let dir = exe.parent()?;
    let p = dir.parent()?.join(if BUILD == "checked" { "plain" } else { "release" }).join(exe.file_name()?);
    p.is_file().then_some(p)
}

fn limits(secs: u64, gb: u64) {
    unsafe {
        let m = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &m);
        let c = libc::rlimit { rlim_cur: secs, rlim_max: secs + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &c);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn replay(file: &str) -> i32 {
    install_panic_hook();
    let v: serde_json::Value = match std::fs::read_to_string(file).map_err(|e| e.to_string())
        .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => { eprintln!("cannot read {file}: {e}"); return EXIT_ERROR }
    };
    if v["build"].as_str().is_some_and(|b| b != BUILD) {
        let Some(exe) = sibling() else { eprintln!("{file}: needs the other build of vh"); return EXIT_ERROR };
        return Command::new(exe).arg("replay").arg(file).status().ok().and_then(|s| s.code()).unwrap_or(EXIT_ERROR);
    }
    limits(300, 4);
    watchdog(|| { println!("the case does not terminate"); std::process::exit(EXIT_HANG) });
    let (pid, leg) = (v["property"].as_str().unwrap_or(""), v["leg"].as_str().unwrap_or(""));
    for p in props() { if p.id == pid { for l in &p.legs { if l.name() == leg {
        return match l.replay(&v["case"]) {
            Ok(()) => { println!("replay of {file}: property {pid} holds on this case"); 0 }
            Err(e) => { println!("replay of {file}: {e}\nVIOLATION property={pid} replay={file}"); 1 }
        }
    }}}}
    eprintln!("{file}: no such property/leg {pid}/{leg}");
    EXIT_ERROR
}

/// Runs the legs in-process; prints VIOLATION itself. Crashes (abort, segfault) are left to the parent.
fn child(args: &[String]) -> i32 {
    install_panic_hook();
    let pid = args[2].clone();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let threads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1.0 } else { 2.0 }) * if BUILD == "plain" { PLAIN_SHARE } else { 1.0 };
    limits(if thorough { 8 * 20_000 } else { 8 * 800 }, 24);
    watchdog(|| { eprintln!("a case does not terminate"); std::process::exit(EXIT_HANG) });
    let ctx = Ctx { seed, thorough, threads, scale, journal: arg(args, "--journal") };
    let evidence = arg(args, "--evidence");
    let replays = arg(args, "--replays").unwrap_or_else(|| ".".into());
    let only = arg(args, "--only");
    let t0 = Instant::now();
    let Some(p) = props().into_iter().find(|p| p.id == pid) else { eprintln!("unknown property {pid}"); return EXIT_ERROR };
    let (mut evals, mut distinct, mut steps) = (0u64, 0u64, 0u64);
    let (mut rules, mut samples, mut perleg) = (vec![], vec![], BTreeMap::new());
    let mut fail = None;
    for l in &p.legs {
        if only.as_ref().is_some_and(|o| o != l.name()) { continue }
        let tl = Instant::now();
        let (st, f) = l.run(p.id, &ctx);
        evals += st.evals; steps += st.steps; distinct += st.nontrivial.len() as u64;
        rules.push(format!("[{}] {}", l.name(), l.rule()));
        for s in st.samples.iter().take(2) { samples.push(format!("[{}] {}", l.name(), s)) }
        eprintln!("{pid} {BUILD:<7} {:<22} {:>9} cases, {:>8} distinct non-trivial, {:>10} oracle steps, {:.1}s", l.name(), st.evals, st.nontrivial.len(), st.steps, tl.elapsed().as_secs_f64());
        perleg.insert(l.name().to_string(), serde_json::json!({"cases": st.evals, "distinct_nontrivial": st.nontrivial.len(), "nontrivial": st.nontrivial_total, "oracle_steps": st.steps, "labels": st.labels}));
        if f.is_some() { fail = f; break }
    }
    if let Some(e) = evidence {
        // the second build adds to what the first one covered
        let mut wall = t0.elapsed().as_secs_f64();
        let (mut evals, mut distinct, mut steps) = (evals, distinct, steps);
        let mut builds = BTreeMap::from([(BUILD.to_string(), serde_json::json!(perleg))]);
        if BUILD == "plain" { if let Some(old) = std::fs::read_to_string(&e).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
            let c = &old["coverage"];
            evals += c["evaluations"].as_u64().unwrap_or(0);
            // the two builds may meet the same cases: the larger count is a lower bound of the union
            distinct = distinct.max(c["distinct_nontrivial"].as_u64().unwrap_or(0));
            steps += c["oracle_steps"].as_u64().unwrap_or(0);
            wall += old["wall_s"].as_f64().unwrap_or(0.0);
            builds.insert("checked".into(), c["builds"]["checked"].clone());
            if let Some(v) = c["samples"].as_array() { samples = v.iter().filter_map(|s| s.as_str().map(String::from)).collect(); }
        }}
        let j = serde_json::json!({
            "property": pid, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": rules.join(" | "), "samples": samples,
                         "oracle_steps": steps, "builds": builds, "exhaustive": false},
            "assumptions": ["the reference models in /verif/harness/src/model.rs", "the input domains stated in DESIGN.md (no finite bound on the outermost tick of the range; infinite points only where stated)"],
            "wall_s": wall, "violations": u32::from(fail.is_some())});
        if let Err(e2) = std::fs::write(&e, serde_json::to_string_pretty(&j).unwrap()) { eprintln!("cannot write {e}: {e2}"); return EXIT_ERROR }
    }
    match fail {
        None => { println!("OK property={pid} build={BUILD} cases={evals} distinct_nontrivial={distinct} seed={seed}"); 0 }
        Some(f) => {
            let path = write_replay(&replays, &pid, f.leg, &f.case, &f.reason);
            println!("{pid}/{} [{BUILD}]: {}\n  case: {}", f.leg, f.reason, f.case);
            println!("VIOLATION property={pid} replay={path}");
            1
        }
    }
}

fn write_replay(dir: &str, pid: &str, leg: &str, case: &serde_json::Value, reason: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{pid}-{leg}.json");
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": pid, "leg": leg, "build": BUILD, "case": case, "reason": reason})).unwrap());
    path
}

/// Runs this build, then the other one
fn both(args: &[String]) -> i32 {
    let c = parent(args);
    if c != 0 || BUILD == "plain" { return c }
    let Some(exe) = sibling() else { eprintln!("the plain build is missing"); return EXIT_ERROR };
    match Command::new(exe).arg("run-one").args(&args[2..]).status() { Ok(s) => s.code().unwrap_or(EXIT_ERROR), Err(e) => { eprintln!("{e}"); EXIT_ERROR } }
}

/// Runs the child; when it dies on a signal, finds the case that kills it and reports that one.
fn parent(args: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let pid = args[2].clone();
    let replays = arg(args, "--replays").unwrap_or_else(|| ".".into());
    let st = match Command::new(&exe).arg("child").args(&args[2..]).status() { Ok(s) => s, Err(e) => { eprintln!("{e}"); return EXIT_ERROR } };
    match st.code() {
        Some(EXIT_HANG) => eprintln!("{pid}: locating the case that does not terminate"),
        Some(101) => return EXIT_ERROR,
        Some(c) => return c,
        None => {
            let sig = st.signal().unwrap_or(0);
            eprintln!("{pid}: the worker died on signal {sig}; locating the case");
            if sig == libc::SIGKILL || sig == libc::SIGXCPU { eprintln!("out of time or memory: inconclusive"); return EXIT_ERROR }
        }
    }
    let jp = std::env::temp_dir().join(format!("vh-journal-{}-{}", pid, std::process::id()));
    let jp = jp.to_string_lossy().to_string();
    let _ = Command::new(&exe).arg("child").args(&args[2..]).arg("--journal").arg(&jp).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    let mut code = EXIT_ERROR;
    for t in 0..64 {
        let f = format!("{jp}.{t}");
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        let _ = std::fs::remove_file(&f);
        if code == 1 { continue }
        let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) else { continue };
        let leg = v["leg"].as_str().unwrap_or("").to_string();
        let path = write_replay(&replays, &pid, &leg, &v["case"], "");
        let r = Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).output();
        if let Ok(o) = r {
            let rsig = o.status.signal().unwrap_or(0);
            let err = String::from_utf8_lossy(&o.stderr);
            // alone, under its own limits (25 s without progress, 4 GB), one small case has no excuse
            let why = if o.status.code() == Some(EXIT_HANG) { Some("does not terminate".to_string()) }
                else if err.contains("memory allocation of") { Some("needs more than 4 GB".to_string()) }
                else if o.status.code() == Some(1) { Some(String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string()) }
                else if rsig != 0 && rsig != libc::SIGKILL && rsig != libc::SIGXCPU { Some(format!("the process is killed by signal {rsig}: {}", err.lines().next().unwrap_or(""))) }
                else { None };
            if let Some(why) = why {
                write_replay(&replays, &pid, &leg, &v["case"], &why);
                println!("{pid}/{leg}: {why}\n  case: {}", v["case"]);
                println!("VIOLATION property={pid} replay={path}");
                code = 1;
            } else { let _ = std::fs::remove_file(&path); }
        }
    }
    if code != 1 { eprintln!("{pid}: could not attribute the crash to one case") }
    code
}
