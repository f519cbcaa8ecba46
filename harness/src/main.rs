#![allow(dead_code)]
mod alloc;
mod case;
mod gen;
mod props;
mod rng;

use case::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VMON_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn find(id: &str) -> &'static Property {
    props::ALL.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        exit(2)
    })
}

fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

fn tier_from_env() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((msg, loc));
    }));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("worker") => worker(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        },
        _ => {
            eprintln!("usage: vmon check <ID> | replay <file> | list");
            exit(2);
        },
    }
}

fn run_case(p: &'static Property, wi: usize, idx: u64, seed: u64, tier: Tier, st: &mut Stats) {
    let w = &p.workloads[wi];
    let mut c = Case {
        rng: rng::Rng::new(case_seed(seed, p.id, w.name, idx)),
        seed,
        idx,
        tier,
        workload: w.name,
        st,
        attachments: vec![],
        failed: false,
    };
    if let Err((msg, loc)) = catch(|| (w.run)(&mut c)) {
        if loc.starts_with("src/") {
            eprintln!("harness error: {msg} at {loc}");
            exit(3);
        }
        // not in a call under watch, but in the code under test or below all the same
        c.eval();
        c.fail("panic:elsewhere", format!("panicked: {msg} at {loc}"));
    }
}

/// worker <ID> <tier> <seed> <shard> <nshards> <outfile> <progressfile> <budget_s> [wi case]
fn worker(a: &[String]) {
    install_hook();
    let p = find(&a[0]);
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = a[2].parse().unwrap();
    let shard: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let out = &a[5];
    let progress = std::fs::OpenOptions::new().create(true).write(true).open(&a[6]).unwrap();
    let budget = Duration::from_secs_f64(a[7].parse().unwrap());
    let only: Option<(usize, u64)> = if a.len() >= 10 {
        Some((a[8].parse().unwrap(), a[9].parse().unwrap()))
    } else {
        None
    };
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nocore);
    }
    let t0 = Instant::now();
    let mut st = Stats { known: known(p.id).into_iter().map(|(s, _)| (s, 0)).collect(), ..Default::default() };
    let mut truncated = 0u64;
    let mut done: BTreeMap<String, u64> = BTreeMap::new();
    // one thread with the usual main thread stack size
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let step = |wi: usize, idx: u64, st: &mut Stats| {
                let mut rec = [0u8; 16];
                rec[..8].copy_from_slice(&(wi as u64 + 1).to_le_bytes());
                rec[8..].copy_from_slice(&idx.to_le_bytes());
                let _ = progress.write_all_at(&rec, 0);
                run_case(p, wi, idx, seed, tier, st);
            };
            if let Some((wi, idx)) = only {
                step(wi, idx, &mut st);
            } else {
                // round robin over workloads, so that a time budget cuts all of them alike
                let total: Vec<u64> = p
                    .workloads
                    .iter()
                    .map(|w| if tier == Tier::Quick { w.quick } else { w.thorough })
                    .collect();
                let rounds = 200u64;
                'outer: for r in 0..rounds {
                    for (wi, w) in p.workloads.iter().enumerate() {
                        let lo = total[wi] * r / rounds;
                        let hi = total[wi] * (r + 1) / rounds;
                        for idx in lo..hi {
                            if idx % n != shard {
                                continue;
                            }
                            if t0.elapsed() > budget {
                                truncated = 1;
                                break 'outer;
                            }
                            step(wi, idx, &mut st);
                            *done.entry(w.name.to_string()).or_default() += 1;
                            if st.full() {
                                break 'outer;
                            }
                        }
                    }
                }
            }
            (st, truncated, done)
        })
        .unwrap();
    let (st, truncated, done) = match h.join() {
        Ok(x) => x,
        Err(_) => {
            let lp = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            eprintln!("harness error: {lp:?}");
            exit(3);
        },
    };
    let v = json!({
        "evaluations": st.evaluations,
        "counters": st.counters,
        "distinct": st.distinct.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
        "samples": st.samples,
        "truncated": truncated,
        "cases": done,
        "fails": st.fails.iter().map(|f| json!({
            "workload": f.workload, "case": f.case, "sig": f.sig, "detail": f.detail,
            "attachments": f.attachments,
        })).collect::<Vec<_>>(),
    });
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    exit(0);
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

struct Proc {
    child: std::process::Child,
    out: PathBuf,
    prog: PathBuf,
    last: (u64, u64),
    ticks: u64,
    started: Instant,
    result: Option<Outcome>,
}

enum Outcome {
    Ok,
    Died { signal: i32, code: i32 },
    Hung,
}

/// CPU seconds one case may use before the run counts as non terminating.
const CASE_CPU_S: u64 = 60;

fn read_prog(p: &Path) -> (u64, u64) {
    match std::fs::read(p) {
        Ok(b) if b.len() >= 16 => (
            u64::from_le_bytes(b[..8].try_into().unwrap()),
            u64::from_le_bytes(b[8..16].try_into().unwrap()),
        ),
        _ => (0, 0),
    }
}

fn spawn(p: &Property, tier: Tier, seed: u64, shard: u64, n: u64, dir: &Path, budget: f64, only: Option<(usize, u64)>) -> Proc {
    let out = dir.join(format!("out.{shard}"));
    let prog = dir.join(format!("prog.{shard}"));
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&prog);
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("worker")
        .arg(p.id)
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(seed.to_string())
        .arg(shard.to_string())
        .arg(n.to_string())
        .arg(&out)
        .arg(&prog)
        .arg(budget.to_string());
    if let Some((wi, idx)) = only {
        cmd.arg(wi.to_string()).arg(idx.to_string());
    }
    let err = std::fs::File::create(dir.join(format!("err.{shard}"))).unwrap();
    let child = cmd
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .current_dir(dir)
        .spawn()
        .unwrap();
    Proc { child, out, prog, last: (0, 0), ticks: 0, started: Instant::now(), result: None }
}

fn wait_all(procs: &mut [Proc], wall_cap: Duration) -> Result<(), String> {
    use std::os::unix::process::ExitStatusExt;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    loop {
        let mut running = false;
        for p in procs.iter_mut() {
            if p.result.is_some() {
                continue;
            }
            match p.child.try_wait() {
                Ok(Some(s)) => {
                    p.last = read_prog(&p.prog);
                    p.result = Some(if s.success() {
                        Outcome::Ok
                    } else {
                        Outcome::Died { signal: s.signal().unwrap_or(0), code: s.code().unwrap_or(-1) }
                    });
                    continue;
                },
                _ => running = true,
            }
            let at = read_prog(&p.prog);
            let t = cpu_ticks(p.child.id()).unwrap_or(p.ticks);
            if at != p.last {
                p.last = at;
                p.ticks = t;
            } else if t.saturating_sub(p.ticks) > CASE_CPU_S * hz {
                let _ = p.child.kill();
                let _ = p.child.wait();
                p.result = Some(Outcome::Hung);
                continue;
            }
            if p.started.elapsed() > wall_cap {
                let _ = p.child.kill();
                let _ = p.child.wait();
                return Err(format!("wall clock watchdog ({}s) fired", wall_cap.as_secs()));
            }
        }
        if !running {
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn known(id: &str) -> Vec<(String, String)> {
    let f = verif_dir().join("known_findings.json");
    let v: Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => return vec![],
    };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["property"] == id)
                .map(|x| {
                    (
                        x["signature"].as_str().unwrap_or("").to_string(),
                        x["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn check(id: &str) {
    let p = find(id);
    let (seed, tier) = (seed_from_env(), tier_from_env());
    let t0 = Instant::now();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 8) as u64;
    let budget: f64 = std::env::var("VMON_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 120.0 } else { 600.0 });
    let dir = std::env::temp_dir().join(format!("vmon.{}.{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let finish = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::io::stdout().flush();
        exit(code)
    };
    let mut procs: Vec<Proc> = (0..n).map(|s| spawn(p, tier, seed, s, n, &dir, budget, None)).collect();
    let wall_cap = Duration::from_secs_f64(budget * 2.0 + 300.0);
    let waited = wait_all(&mut procs, wall_cap);
    if let Err(e) = waited {
        for p in procs.iter_mut() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
        eprintln!("INCONCLUSIVE property={id}: {e}");
        finish(2);
    }
    let mut evaluations = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut cases: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut fails: Vec<Value> = vec![];
    let mut truncated = 0u64;
    let mut inconclusive: Vec<String> = vec![];
    for (s, pr) in procs.iter().enumerate() {
        let wl = |at: (u64, u64)| {
            if at.0 == 0 { "?".to_string() } else { p.workloads[at.0 as usize - 1].name.to_string() }
        };
        match pr.result.as_ref().unwrap() {
            Outcome::Ok => {
                let v: Value = serde_json::from_slice(&std::fs::read(&pr.out).unwrap()).unwrap();
                evaluations += v["evaluations"].as_u64().unwrap();
                truncated += v["truncated"].as_u64().unwrap();
                for (k, x) in v["counters"].as_object().unwrap() {
                    *counters.entry(k.clone()).or_default() += x.as_u64().unwrap();
                }
                for (k, x) in v["cases"].as_object().unwrap() {
                    *cases.entry(k.clone()).or_default() += x.as_u64().unwrap();
                }
                for d in v["distinct"].as_array().unwrap() {
                    distinct.insert(d.as_str().unwrap().to_string());
                }
                for d in v["samples"].as_array().unwrap() {
                    if samples.len() < 4 {
                        samples.push(d.clone());
                    }
                }
                fails.extend(v["fails"].as_array().unwrap().iter().cloned());
            },
            Outcome::Hung => {
                // confirm in isolation: a case that does not finish twice does not terminate
                let (w, i) = pr.last;
                let mut again = vec![spawn(p, tier, seed, 900 + s as u64, 1, &dir, budget, Some((w as usize - 1, i)))];
                let r = wait_all(&mut again, Duration::from_secs(CASE_CPU_S * 6));
                match (r, again[0].result.as_ref()) {
                    (Ok(()), Some(Outcome::Hung)) => fails.push(json!({
                        "workload": wl(pr.last), "case": i, "sig": "no-termination",
                        "detail": format!("case still running after {CASE_CPU_S} CPU seconds, twice"),
                        "attachments": []})),
                    _ => {
                        let _ = again[0].child.kill();
                        inconclusive.push(format!("worker {s} exceeded the CPU watchdog, not reproduced"));
                    },
                }
            },
            Outcome::Died { signal, code } => {
                let err = std::fs::read_to_string(dir.join(format!("err.{s}"))).unwrap_or_default();
                let (w, i) = pr.last;
                // SIGABRT (stack overflow, allocation failure, abort), SIGSEGV, SIGBUS, SIGILL, SIGFPE
                if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(signal) && w > 0 {
                    let mut again = vec![spawn(p, tier, seed, 900 + s as u64, 1, &dir, budget, Some((w as usize - 1, i)))];
                    let r = wait_all(&mut again, Duration::from_secs(CASE_CPU_S * 6));
                    match (r, again[0].result.as_ref()) {
                        (Ok(()), Some(Outcome::Died { signal: s2, .. })) if s2 == signal => fails.push(json!({
                            "workload": wl(pr.last), "case": i, "sig": format!("process-death:signal{signal}"),
                            "detail": format!("the process died: {}", err.trim()),
                            "attachments": []})),
                        _ => {
                            let _ = again[0].child.kill();
                            inconclusive.push(format!("worker {s} died of signal {signal}, not reproduced: {err}"));
                        },
                    }
                } else {
                    inconclusive.push(format!(
                        "worker {s} ended with signal {signal} code {code} at {} case {i}: {err}", wl(pr.last)));
                }
            },
        }
    }
    for m in p.must_observe {
        if fails.is_empty() && counters.get(*m).copied().unwrap_or(0) == 0 {
            inconclusive.push(format!("nothing observed for '{m}'"));
        }
    }
    if fails.is_empty() && (evaluations == 0 || distinct.is_empty()) {
        inconclusive.push("no oracle evaluation".into());
    }
    // verdict
    let kn = known(id);
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut unlisted: Vec<&Value> = vec![];
    for f in &fails {
        let sig = f["sig"].as_str().unwrap();
        if kn.iter().any(|(s, _)| s == sig) {
            *seen_known.entry(sig.to_string()).or_default() += 1;
        } else {
            unlisted.push(f);
        }
    }
    for (s, what) in &kn {
        if seen_known.contains_key(s) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    let mut sigs: BTreeMap<String, u64> = BTreeMap::new();
    for f in &unlisted {
        *sigs.entry(f["sig"].as_str().unwrap().to_string()).or_default() += 1;
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "cases_per_workload": cases,
            "observed": counters,
            "workers": n,
            "workers_stopped_by_time_budget": truncated,
            "known_findings_seen": seen_known,
            "violation_signatures": sigs,
            "inconclusive": inconclusive,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": unlisted.len(),
    });
    let evd = verif_dir().join("evidence");
    std::fs::create_dir_all(&evd).unwrap();
    std::fs::write(evd.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    if !unlisted.is_empty() {
        let rd = verif_dir().join("replay");
        std::fs::create_dir_all(&rd).unwrap();
        let mut shown: HashSet<String> = HashSet::new();
        for f in &unlisted {
            let sig = f["sig"].as_str().unwrap().to_string();
            if !shown.insert(sig.clone()) || shown.len() > 12 {
                continue;
            }
            let path = rd.join(format!("{id}-{}.json", shown.len()));
            let r = json!({"property": id, "seed": seed,
                "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
                "workload": f["workload"], "case": f["case"], "sig": sig, "detail": f["detail"],
                "attachments": f["attachments"],
                "replay": format!("VMON_DIR={} {} replay {}", verif_dir().display(),
                    std::env::current_exe().unwrap().display(), path.display())});
            std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
            println!("VIOLATION property={id} replay={}", path.display());
            let d = f["detail"].as_str().unwrap_or("");
            let d: String = d.chars().take(700).collect();
            println!("  [{sig}] x{} workload={} case={}\n  {}", sigs[&sig], f["workload"], f["case"], d.replace('\n', "\n  "));
        }
        finish(1);
    }
    if !inconclusive.is_empty() {
        for i in &inconclusive {
            eprintln!("INCONCLUSIVE property={id}: {i}");
        }
        finish(2);
    }
    println!(
        "HELD property={id} tier={tier:?} seed={seed} evaluations={evaluations} distinct={} wall={:.1}s",
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    finish(0);
}

fn replay(path: &str) {
    install_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let p = find(v["property"].as_str().unwrap());
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let wi = p.workloads.iter().position(|w| Some(w.name) == v["workload"].as_str()).unwrap();
    let mut st = Stats::default();
    run_case(p, wi, v["case"].as_u64().unwrap(), v["seed"].as_u64().unwrap(), tier, &mut st);
    for f in &st.fails {
        println!("VIOLATION property={} replay={path}\n  [{}]\n  {}", p.id, f.sig, f.detail);
        for (n, a) in &f.attachments {
            println!("--- {n}\n{a}");
        }
    }
    if st.fails.is_empty() {
        println!("not reproduced");
        exit(0);
    }
    exit(1);
}
