mod engine;
mod props;
mod util;

use engine::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// A known finding: `KNOWN-FINDING property=<id> key=<key> <text>`
fn known_findings(id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) else {
        return vec![];
    };
    let mut out = vec![];
    for l in s.lines() {
        if let Some(rest) = l.strip_prefix("KNOWN-FINDING property=") {
            if let Some((pid, rest)) = rest.split_once(' ') {
                if pid == id {
                    if let Some(rest) = rest.strip_prefix("key=") {
                        let (k, t) = rest.split_once(' ').unwrap_or((rest, ""));
                        out.push((k.to_string(), t.to_string()));
                    }
                }
            }
        }
    }
    out
}

fn replay_path(id: &str, key: &str) -> PathBuf {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    use std::hash::{Hash, Hasher};
    key.hash(&mut h);
    verif_dir()
        .join("replays")
        .join(format!("{id}-{:016x}.json", h.finish()))
}

fn write_replay(id: &str, f: &Found, notes: &[String], tier: &str) -> PathBuf {
    let p = replay_path(id, &f.key);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let v = serde_json::json!({
        "property": id, "scenario": f.scenario, "choices": f.choices, "key": f.key,
        "message": clip(f.msg.clone(), 4000), "occurrences": f.count, "tier": tier, "trace": notes,
        "replay_cmd": format!("bash /verif/replay.sh {}", p.display()),
    });
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    p
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--list") {
        for (id, _) in props::all() {
            println!("{id}");
        }
        return;
    }
    if args.first().map(|s| s.as_str()) == Some("--replay") {
        replay(&args[1]);
    }
    let id = args.first().cloned().unwrap_or_else(|| {
        eprintln!("usage: mc <ID>|--list|--replay FILE");
        exit(2)
    });
    if !props::all().iter().any(|(p, _)| *p == id) {
        eprintln!("unknown property {id}");
        exit(2);
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("--child") => child(&id, None),
        Some("--child-journal") => child(&id, Some(PathBuf::from(&args[2]))),
        Some("--one") => one(&id, &args[2], &args[3]),
        _ => parent(&id),
    }
}

fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

fn suite(id: &str) -> Suite {
    let thorough = tier() == "thorough";
    let f = props::all().into_iter().find(|(p, _)| *p == id).unwrap().1;
    let mut s = Suite::default();
    f(&mut s, thorough);
    s
}

/// Runs the exploration in a child so that an abort (stack overflow, allocation failure, UB
/// detected by the runtime) of the code under test becomes a verdict with a replayable execution.
fn parent(id: &str) -> ! {
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(&exe).args([id, "--child"]).status().expect("spawn child");
    match st.code() {
        Some(c @ (0 | 1)) => exit(c),
        Some(c) => {
            eprintln!("check error: child exited with {c}");
            exit(2)
        }
        None => {}
    }
    eprintln!("child died: {st}; re-running with a journal to find the execution");
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let j = dir.join(format!("{id}.journal"));
    let _ = std::fs::remove_file(&j);
    let st = Command::new(&exe)
        .args([id, "--child-journal", j.to_str().unwrap()])
        .status()
        .expect("spawn child");
    match st.code() {
        Some(c @ (0 | 1)) => exit(c),
        Some(_) => exit(2),
        None => {}
    }
    let text = std::fs::read_to_string(&j).unwrap_or_default();
    for line in text.lines().filter(|l| !l.is_empty()) {
        let Some((name, ch)) = line.split_once('\t') else { continue };
        let st = Command::new(&exe).args([id, "--one", name, ch]).status().expect("spawn");
        if st.code().is_none() {
            let f = Found {
                scenario: name.into(),
                choices: serde_json::from_str(ch).unwrap_or_default(),
                key: format!("abort:{name}"),
                msg: format!("the process aborted while running this execution ({st})"),
                count: 1,
            };
            let p = write_replay(id, &f, &[], &tier());
            println!("VIOLATION property={id} replay={}", p.display());
            println!("  {} choices={:?}: {}", f.scenario, f.choices, f.msg);
            write_evidence(id, &Stats::default(), &[], &suite(id), &[], 1, 0.0);
            exit(1);
        }
    }
    eprintln!("check error: the crash did not reproduce");
    exit(2)
}

fn one(id: &str, name: &str, choices: &str) -> ! {
    install_panic_hook();
    let s = suite(id);
    let c: Vec<u32> = serde_json::from_str(choices).unwrap();
    let sc = s.scenarios.iter().find(|x| x.name == name).unwrap();
    let name = name.to_string();
    let _ = &name;
    std::thread::scope(|t| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(t, || {
                execute(sc, c, false);
            })
            .unwrap();
    });
    exit(0)
}

fn replay(path: &str) -> ! {
    install_panic_hook();
    let v: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    if let Some(t) = v["tier"].as_str() {
        std::env::set_var("VERIF_TIER", t);
    }
    let s = suite(&id);
    let name = v["scenario"].as_str().unwrap();
    let choices: Vec<u32> = serde_json::from_value(v["choices"].clone()).unwrap();
    let sc = s.scenarios.iter().find(|x| x.name == name).expect("scenario");
    let e = execute(sc, choices, true);
    for n in &e.notes {
        println!("  {n}");
    }
    match e.result {
        Ok(()) => {
            println!("replay: the property holds on this execution");
            exit(0)
        }
        Err(v) => {
            println!("replay: violated [{}] {}", v.key, v.msg);
            exit(1)
        }
    }
}

fn child(id: &str, journal: Option<PathBuf>) -> ! {
    install_panic_hook();
    let start = Instant::now();
    let tier = tier();
    let s = suite(id);
    let cap = if tier == "thorough" { 800 } else { 240 };
    let lim = Limits {
        deadline: start + Duration::from_secs(cap),
        hang: Duration::from_secs(60),
        journal: journal.map(|p| std::fs::File::create(p).expect("journal")),
    };
    let found: Mutex<BTreeMap<String, Found>> = Mutex::new(BTreeMap::new());
    let samples = Mutex::new(vec![]);
    let mut per = vec![];
    let mut total = Stats::default();
    let tier2 = tier.clone();
    let idc = id.to_string();
    let on_hang = move |name: &str, prefix: Vec<u32>| {
        let f = Found {
            scenario: name.into(),
            choices: prefix,
            key: format!("hang:{name}"),
            msg: "the code under test did not return within 60 s".into(),
            count: 1,
        };
        let p = write_replay(&idc, &f, &[], &tier2);
        println!("VIOLATION property={} replay={}", idc, p.display());
        println!("  {} choices={:?}: {}", f.scenario, f.choices, f.msg);
        write_evidence(&idc, &Stats::default(), &[], &Suite::default(), &[], 1, 60.0);
        exit(1)
    };
    for sc in &s.scenarios {
        let t = Instant::now();
        let before = samples.lock().unwrap().len();
        match explore(sc, &lim, &found, &samples, &on_hang) {
            Ok(st) => {
                println!(
                    "  {:<44} executions={:<9} transitions={:<10} states={:<8} depth={:<3} {:.2}s{}",
                    sc.name,
                    st.executions,
                    st.transitions,
                    st.states,
                    st.max_depth,
                    t.elapsed().as_secs_f64(),
                    if st.capped { " CAPPED" } else { "" }
                );
                total.executions += st.executions;
                total.transitions += st.transitions;
                total.states += st.states;
                total.max_depth = total.max_depth.max(st.max_depth);
                total.capped |= st.capped;
                total.replayed += st.replayed;
                total.nondet += st.nondet;
                per.push((sc.name.clone(), st));
            }
            Err(e) => {
                eprintln!("check error: {e}");
                if found.lock().unwrap().is_empty() {
                    exit(2)
                }
            }
        }
        // at most two samples per scenario
        let mut g = samples.lock().unwrap();
        g.truncate(before + 2);
    }
    let found = found.into_inner().unwrap();
    let known = known_findings(id);
    let mut violations = 0;
    for (key, f) in &found {
        if let Some((_, text)) = known.iter().find(|(k, _)| k == key) {
            println!("KNOWN-FINDING: property={id} key={key} {text}");
            continue;
        }
        violations += 1;
        if violations <= 25 {
            let sc = s.scenarios.iter().find(|x| x.name == f.scenario).unwrap();
            let notes = execute(sc, f.choices.clone(), true).notes;
            let p = write_replay(id, f, &notes, &tier);
            println!("VIOLATION property={id} replay={}", p.display());
            println!(
                "  [{}] {} choices={:?} (x{}): {}",
                f.key, f.scenario, f.choices, f.count, clip(f.msg.clone(), 1000)
            );
        }
    }
    let samples = samples.into_inner().unwrap();
    write_evidence(id, &total, &per, &s, &samples, violations, start.elapsed().as_secs_f64());
    println!(
        "{id} [{tier}] executions={} transitions={} states={} replayed={} nondeterministic={} {} {:.1}s: {}",
        total.executions,
        total.transitions,
        total.states,
        total.replayed,
        total.nondet,
        if total.capped { "CAPPED" } else { "exhaustive" },
        start.elapsed().as_secs_f64(),
        if violations == 0 { "held" } else { "VIOLATED" }
    );
    std::io::stdout().flush().unwrap();
    exit(if violations == 0 { 0 } else { 1 })
}

fn write_evidence(
    id: &str,
    t: &Stats,
    per: &[(String, Stats)],
    s: &Suite,
    samples: &[String],
    violations: usize,
    wall: f64,
) {
    let per: Vec<_> = per
        .iter()
        .map(|(n, st)| {
            serde_json::json!({"scenario": n, "executions": st.executions,
            "transitions": st.transitions, "states": st.states, "max_choices": st.max_depth,
            "capped": st.capped})
        })
        .collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let v = serde_json::json!({
        "property": id,
        "tier": tier(),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": t.states,
            "transitions": t.transitions,
            "traces_validated_against_impl": t.executions,
            "exhaustive": !t.capped && violations == 0,
            "replayed_for_determinism": t.replayed,
            "not_reproducible": t.nondet,
            "scenarios": per,
            "bounds": s.bounds,
            "samples": samples,
            "rule": "every choice vector of every scenario is executed on the real code and \
                     compared step by step with the reference model; states = distinct canonical \
                     model/observation states reached, transitions = operations applied to both, \
                     traces = complete executions compared"
        },
        "assumptions": s.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p: &Path = &dir.join(format!("{id}.json"));
    std::fs::write(p, serde_json::to_string_pretty(&v).unwrap()).expect("write evidence");
}
