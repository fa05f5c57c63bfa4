#![allow(unexpected_cfgs)]
mod bulk;
mod size;
mod explore;
mod extra;
mod families;
mod formats;
mod visits;
mod world;

use std::io::Write;
use std::sync::atomic::Ordering::*;
use std::time::Instant;

use explore::*;
use families::*;
use world::*;

fn prop_of(s: &str) -> u32 {
    s.trim_start_matches('C').parse().expect("property id")
}

fn esc(s: &str) -> String {
    serde_json_lite(s)
}

/// A JSON string literal.
fn serde_json_lite(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static REPLAY_DIR: std::sync::OnceLock<(String, String)> = std::sync::OnceLock::new();

fn write_replay(f: &Found) -> String {
    let (dir, prop) = REPLAY_DIR.get().expect("replay dir");
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{prop}-{}.txt", f.cfg);
    let mut s = String::new();
    s.push_str(&format!("property {prop}\nbuild {}\ncfg {}\n", if SMALL { "small" } else { "default" }, f.cfg));
    if ["bulk", "keys", "large", "blocks"].iter().any(|x| f.cfg.ends_with(x)) {
        s.push_str("explore\n");
    }
    for a in &f.acts {
        s.push_str(&format!("act {}\n", a.text()));
    }
    s.push_str(&format!("# {}\n", f.msg.replace('\n', " ")));
    for l in f.state.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    let _ = std::fs::write(&path, s);
    path
}

fn on_hang(cfg: &str, acts: Vec<Act>, msg: String) {
    let (_, prop) = REPLAY_DIR.get().unwrap();
    let path = write_replay(&Found { cfg: cfg.to_string(), acts, msg: msg.clone(), state: String::new() });
    println!("{msg}");
    println!("VIOLATION property={prop} replay={path}");
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

fn check(prop: u32, tier: Tier, out: &str, replays: &str, only: Option<&str>, threads: usize) -> i32 {
    let name = format!("C{prop:02}");
    REPLAY_DIR.set((replays.to_string(), name.clone())).unwrap();
    // development aid: report violations of any property
    let want = if std::env::var("MC_WANT_ALL").is_ok() { FATAL } else if prop == 19 { 0 } else { bit(prop) };
    let run = Run::new(want, threads);
    run.watchdog(on_hang);
    let start = Instant::now();
    let mut rows = Vec::new();
    let mut fams = families(prop, tier);
    if let Some(o) = only {
        fams.retain(|c| c.name.contains(o));
    }
    let mut viol = None;
    // those that are no configurations of the explorer
    let others: Vec<String> = [bulk::name(prop, tier), size::name(prop, tier), extra::name(prop, tier)].into_iter().flatten().filter(|n| only.map_or(true, |o| n.contains(o))).collect();
    for (job, other) in fams.iter().map(|c| (Some(c), None)).chain(others.iter().map(|n| (None, Some(n)))) {
        let t = Instant::now();
        let job_name = job.map(|c| &c.name).or(other).unwrap();
        let s0 = (run.stats.nodes.load(SeqCst), run.stats.states.load(SeqCst), run.stats.histories.load(SeqCst), CALLS.load(SeqCst));
        // says where we are, should the process die
        let _ = std::fs::write(format!("{out}.current"), job_name);
        let done = guard(|| match job {
            Some(cfg) => Explorer::new(cfg, &run).explore(),
            None if job_name.ends_with("keys") => size::run(tier, &run),
            None if job_name.ends_with("large") || job_name.ends_with("blocks") => extra::run(prop, tier, &run),
            None => bulk::run(prop, tier, &run),
        });
        if let Err(e) = done {
            if e.contains(" at src/") {
                println!("internal error of the harness in {job_name}: {e}");
                return 3;
            }
            *run.found.lock().unwrap() = Some(Found { cfg: job_name.clone(), acts: vec![], msg: format!("a call into the library panicked: {e}"), state: String::new() });
        }
        flush_calls();
        let s1 = (run.stats.nodes.load(SeqCst), run.stats.states.load(SeqCst), run.stats.histories.load(SeqCst), CALLS.load(SeqCst));
        rows.push(format!(
            "{{\"name\":{},\"nodes\":{},\"states\":{},\"histories\":{},\"library_calls\":{},\"ms\":{}}}",
            esc(job_name),
            s1.0 - s0.0,
            s1.1 - s0.1,
            s1.2 - s0.2,
            s1.3 - s0.3,
            t.elapsed().as_millis()
        ));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:40} nodes {:9} states {:9} hist {:9} calls {:10} {:6} ms", job_name, s1.0 - s0.0, s1.1 - s0.1, s1.2 - s0.2, s1.3 - s0.3, t.elapsed().as_millis());
        }
        let mut found = run.found.lock().unwrap().take();
        if prop == 19 && found.take().is_some() {
            // A panic is a matter of the other properties.
            run.stop.store(false, SeqCst);
        }
        if let Some(f) = found {
            let path = write_replay(&f);
            println!("{name}: {}\n  in configuration {}\n  after: {}", f.msg, f.cfg, f.acts.iter().map(|a| a.text()).collect::<Vec<_>>().join("; "));
            print!("{}", f.state);
            println!("VIOLATION property={name} replay={path}");
            viol = Some(path);
            break;
        }
    }
    let samples: Vec<String> = run.samples.lock().unwrap().iter().map(|s| esc(s)).collect();
    let json = format!(
        "{{\"build\":\"{}\",\"nodes\":{},\"states\":{},\"transitions\":{},\"library_calls\":{},\"histories\":{},\"merged\":{},\"visits\":{},\"damaged_inputs\":{},\"wall_s\":{:.3},\"violation\":{},\"configurations\":[{}],\"samples\":[{}]}}",
        if SMALL { "small-nodes+debug-assertions" } else { "default-nodes, release" },
        run.stats.nodes.load(SeqCst),
        run.stats.states.load(SeqCst),
        run.stats.transitions.load(SeqCst),
        CALLS.load(SeqCst),
        run.stats.histories.load(SeqCst),
        run.stats.dedup.load(SeqCst),
        run.stats.visits.load(SeqCst),
        visits::DAMAGED.load(SeqCst),
        start.elapsed().as_secs_f64(),
        viol.as_ref().map(|p| esc(p)).unwrap_or("null".into()),
        rows.join(","),
        samples.join(",")
    );
    std::fs::write(out, json).expect("write result");
    let _ = std::fs::remove_file(format!("{out}.current"));
    if viol.is_some() {
        1
    } else {
        0
    }
}

fn find_cfg(name: &str) -> Option<Cfg> {
    for p in 1..=NPROPS as u32 {
        for t in [Tier::Quick, Tier::Thorough] {
            if let Some(c) = families(p, t).into_iter().find(|c| c.name == name) {
                return Some(c);
            }
        }
    }
    None
}

fn do_replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let mut prop = 0;
    let mut cfg = None;
    let mut named = String::new();
    let mut acts = Vec::new();
    let mut explore = false;
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            prop = prop_of(x);
        } else if let Some(x) = l.strip_prefix("build ") {
            let mine = if SMALL { "small" } else { "default" };
            if x != mine {
                eprintln!("this replay needs the {x} build");
                return 2;
            }
        } else if let Some(x) = l.strip_prefix("cfg ") {
            cfg = find_cfg(x);
            named = x.to_string();
        } else if let Some(x) = l.strip_prefix("act ") {
            acts.push(Act::parse(x).expect("action"));
        } else if l == "explore" {
            explore = true;
        }
    }
    if explore {
        let dir = std::env::temp_dir();
        return check(prop, if named.contains("-q-") { Tier::Quick } else { Tier::Thorough }, dir.join("mc-replay.json").to_str().unwrap(), dir.to_str().unwrap(), Some(&named), 1);
    }
    let cfg = cfg.expect("configuration");
    let v = explore::replay(&cfg, &acts, bit(prop));
    if v.iter().any(|x| x.mask & bit(prop) != 0) {
        println!("REPRODUCED property=C{prop:02}");
        1
    } else {
        println!("not reproduced");
        0
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let threads = std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(8));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            check(prop_of(&args[2]), tier, &args[4], &args[5], args.get(6).map(|s| s.as_str()), threads)
        }
        Some("replay") => do_replay(&args[2]),
        _ => {
            eprintln!("mc check Cnn quick|thorough OUT.json REPLAYDIR [only] | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}
