//! Supervisor: shards a property's cases over worker processes, watches them
//! (crash, no progress), merges what they observed, writes evidence, decides.

use std::{
    collections::{BTreeMap, HashSet},
    fs,
    os::unix::fs::FileExt,
    os::unix::process::ExitStatusExt,
    path::PathBuf,
    process::{Command, Stdio},
    sync::Mutex,
    time::{Duration, Instant},
};

use crate::{
    ctx::{Ctx, Fail, Tier, json_str, unesc},
    props::{self, PropDef},
};

/// CPU seconds one case may use before it counts as making no progress. Cases
/// normally take milliseconds.
const CASE_CPU_LIMIT: f64 = 40.0;

fn tier_of(s: Option<&String>) -> Tier {
    let env = std::env::var("VERIF_TIER").unwrap_or_default();
    match s.map(|s| s.as_str()).unwrap_or(env.as_str()) {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed_of() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{loc}: {msg}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Panics raised by this crate's own code (not by the code under test).
fn is_harness_panic(p: &str) -> bool {
    p.starts_with("src/") || p.starts_with("harness/src")
}

pub fn run_case(p: &PropDef, ctx: &mut Ctx, idx: u64) {
    ctx.start(p.id, idx);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(ctx)));
    if r.is_err() {
        let lp = last_panic();
        if is_harness_panic(&lp) {
            ctx.fail("HARNESS", lp);
        } else {
            // Identify by file and message, not by line.
            let sig = panic_sig(&lp);
            ctx.fail(format!("panic {sig}"), format!("panicked: {lp}"));
        }
    }
}

pub fn panic_sig(p: &str) -> String {
    let file = p.split(':').next().unwrap_or("");
    let file = file.rsplit("/src/").next().unwrap_or(file);
    let msg: String = p.split(": ").skip(1).collect::<Vec<_>>().join(": ");
    let msg: String = msg
        .chars()
        .map(|c| if c.is_ascii_digit() { '#' } else { c })
        .take(60)
        .collect();
    format!("{file} {msg}").replace('\n', " ")
}

/// Run `f` with a fixed 8 MiB stack, as a main thread would have.
fn on_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(f)
        .ok()?
        .join()
        .ok()
}

pub fn worker(args: &[String]) -> i32 {
    // worker ID SEED TIER SHARD NSHARDS START TOTAL OUT HEARTBEAT
    let id = args[0].clone();
    let seed: u64 = args[1].parse().unwrap();
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let nsh: u64 = args[4].parse().unwrap();
    let start: u64 = args[5].parse().unwrap();
    let total: u64 = args[6].parse().unwrap();
    let out = args[7].clone();
    let hb = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(&args[8]).ok();
    install_panic_hook();
    let r = on_stack(move || {
        let Some(p) = props::find(&id) else { return 2 };
        let mut ctx = Ctx::new(seed, tier, hb);
        let mut idx = start;
        let mut last = Instant::now();
        while idx < total {
            run_case(&p, &mut ctx, idx);
            idx += nsh;
            if last.elapsed() > Duration::from_secs(3) {
                ctx.write_out(&out, idx, false);
                last = Instant::now();
            }
            if ctx.nfails > 500 {
                break;
            }
        }
        ctx.write_out(&out, idx, true);
        0
    });
    r.unwrap_or(2)
}

pub fn one_case(args: &[String]) -> i32 {
    let Some(p) = props::find(&args[0]) else { return 2 };
    let idx: u64 = args[1].parse().unwrap_or(0);
    let tier = tier_of(args.get(2));
    install_panic_hook();
    let seed = seed_of();
    on_stack(move || {
        let mut ctx = Ctx::new(seed, tier, None);
        run_case(&p, &mut ctx, idx);
        println!("input:\n{}\n---", ctx.current_input);
        for f in &ctx.fails {
            println!("FAIL {}\n{}\ninput: {}\n", f.sig, f.detail, json_str(&f.input));
        }
        println!("counters: {:?}", ctx.counters);
        if ctx.fails.is_empty() { 0 } else { 1 }
    })
    .unwrap_or(2)
}

#[derive(Default)]
struct Merged {
    evaluations: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    fails: Vec<Fail>,
    distinct: HashSet<u64>,
    next: u64,
    done: bool,
}

fn merge_file(path: &str, m: &mut Merged) {
    let Ok(s) = fs::read_to_string(path) else { return };
    let mut done = false;
    for l in s.split('\n') {
        let mut it = l.split(' ');
        match it.next() {
            Some("E") => m.evaluations += it.next().and_then(|x| x.parse().ok()).unwrap_or(0),
            Some("N") => m.next = it.next().and_then(|x| x.parse().ok()).unwrap_or(m.next),
            Some("C") => {
                let v: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let k = unesc(it.next().unwrap_or("?"));
                *m.counters.entry(k).or_insert(0) += v;
            }
            Some("S") => {
                if m.samples.len() < 6 {
                    m.samples.push(unesc(it.next().unwrap_or("%")));
                }
            }
            Some("F") => {
                let idx = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let sig = unesc(it.next().unwrap_or("%"));
                let detail = unesc(it.next().unwrap_or("%"));
                let input = unesc(it.next().unwrap_or("%"));
                m.fails.push(Fail { idx, sig, detail, input });
            }
            Some("D") => {
                if let Some(h) = it.next().and_then(|x| u64::from_str_radix(x, 16).ok()) {
                    m.distinct.insert(h);
                }
            }
            Some("DONE") => done = true,
            _ => {}
        }
    }
    m.done = done;
}

fn cpu_seconds(pid: u32) -> f64 {
    let Ok(s) = fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some(k) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[k + 1..].split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn read_hb(path: &str) -> (u64, String) {
    let Ok(f) = fs::File::open(path) else { return (0, String::new()) };
    let mut b = [0u8; 16];
    if f.read_at(&mut b, 0).unwrap_or(0) < 8 {
        return (0, String::new());
    }
    let idx = u64::from_le_bytes(b[..8].try_into().unwrap());
    let n = u64::from_le_bytes(b[8..].try_into().unwrap()).min(1 << 20) as usize;
    let mut t = vec![0u8; n];
    let k = f.read_at(&mut t, 16).unwrap_or(0);
    t.truncate(k);
    (idx, String::from_utf8_lossy(&t).into_owned())
}

struct ShardResult {
    m: Merged,
    errors: Vec<String>,
}

#[allow(clippy::too_many_arguments)]
fn run_shard(p: &PropDef, seed: u64, tier: Tier, shard: u64, nsh: u64, total: u64, dir: &str, deadline: Instant) -> ShardResult {
    let mut m = Merged::default();
    let mut errors = vec![];
    let mut start = shard;
    let hb = format!("{dir}/hb.{shard}");
    let tname = if tier == Tier::Thorough { "thorough" } else { "quick" };
    let asan = if shard % 2 == 1 { std::env::var_os("VMON_ASAN") } else { None };
    let under_asan = asan.is_some();
    let exe = asan.map(Into::into).unwrap_or_else(|| std::env::current_exe().unwrap());
    let mut crashes = 0;
    let mut round = 0;
    while start < total {
        round += 1;
        let out = format!("{dir}/out.{shard}.{round}");
        let errp = format!("{dir}/err.{shard}");
        let stderr = fs::File::create(&errp).map(Stdio::from).unwrap_or(Stdio::null());
        let _ = fs::write(&hb, [0u8; 16]);
        let child = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), tname, &shard.to_string(), &nsh.to_string(), &start.to_string(), &total.to_string(), &out, &hb])
            .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=87:detect_stack_use_after_return=0:allocator_may_return_null=0")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(stderr)
            .spawn();
        let mut child = match child {
            Ok(c) => c,
            Err(e) => {
                errors.push(format!("cannot start worker: {e}"));
                break;
            }
        };
        let pid = child.id();
        let mut last_idx = u64::MAX;
        let mut last_cpu = 0.0;
        let mut hang = false;
        let mut timed_out = false;
        let mut poll = 5u64;
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) => {}
                Err(_) => break None,
            }
            std::thread::sleep(Duration::from_millis(poll));
            poll = (poll * 2).min(200);
            let mut b = [0u8; 8];
            if let Ok(f) = fs::File::open(&hb) {
                let _ = f.read_at(&mut b, 0);
            }
            let idx = u64::from_le_bytes(b);
            let cpu = cpu_seconds(pid);
            if idx != last_idx {
                last_idx = idx;
                last_cpu = cpu;
            } else if cpu - last_cpu > CASE_CPU_LIMIT {
                hang = true;
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            if Instant::now() > deadline {
                timed_out = true;
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        };
        m.done = false;
        m.next = start;
        merge_file(&out, &mut m);
        if under_asan && m.done {
            *m.counters.entry("shards under AddressSanitizer".into()).or_insert(0) += 1;
        }
        if timed_out {
            *m.counters.entry("shards stopped by the time limit".into()).or_insert(0) += 1;
            break;
        }
        if !hang && m.done && status.map(|s| s.success()).unwrap_or(false) {
            break;
        }
        // The worker died in a case.
        let (idx, input) = read_hb(&hb);
        let stderr = fs::read_to_string(&errp).unwrap_or_default();
        let stderr: String = stderr.chars().take(4000).collect();
        let sig = if hang {
            format!("no progress: one case used more than {CASE_CPU_LIMIT} s of CPU")
        } else {
            match status {
                Some(s) if s.code() == Some(86) => "memory: a case holds more than 3 GiB".to_string(),
                Some(s) if s.code() == Some(2) => {
                    errors.push(format!("worker error in case {idx}: {stderr}"));
                    break;
                }
                Some(s) => {
                    if let Some(g) = s.signal() {
                        if g == 9 {
                            // Killed from outside (out of memory, perhaps): no verdict.
                            errors.push(format!("worker was killed in case {idx}"));
                            break;
                        }
                        if stderr.contains("overflowed its stack") {
                            "abort: stack overflow".to_string()
                        } else {
                            format!("abort: signal {g}")
                        }
                    } else if stderr.contains("AddressSanitizer") {
                        "AddressSanitizer report".to_string()
                    } else {
                        format!("abort: exit status {:?}", s.code())
                    }
                }
                None => {
                    errors.push("worker lost".into());
                    break;
                }
            }
        };
        m.fails.push(Fail { idx, sig, detail: stderr, input });
        crashes += 1;
        if crashes >= 6 {
            break;
        }
        // Continue after the case that died.
        start = idx + nsh;
    }
    ShardResult { m, errors }
}

/// A known finding: `known: property=<id> sig=<escaped> input=<escaped> <what>`
struct Known {
    prop: String,
    sig: String,
    input: String,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let mut r = vec![];
    let s = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut k = Known { prop: String::new(), sig: String::new(), input: String::new(), what: String::new() };
        let mut parts = rest.splitn(4, ' ');
        for p in parts.by_ref().take(3) {
            if let Some(v) = p.strip_prefix("property=") {
                k.prop = v.into();
            } else if let Some(v) = p.strip_prefix("sig=") {
                k.sig = unesc(v);
            } else if let Some(v) = p.strip_prefix("input=") {
                k.input = unesc(v);
            }
        }
        k.what = parts.next().unwrap_or("").to_string();
        r.push(k);
    }
    r
}

pub fn supervise(args: &[String]) -> i32 {
    let Some(p) = args.first().and_then(|id| props::find(id)) else {
        eprintln!("unknown property");
        return 2;
    };
    let tier = tier_of(args.get(1));
    let seed = seed_of();
    let t0 = Instant::now();
    let total = if tier == Tier::Thorough { p.thorough } else { p.quick };
    let total = std::env::var("VMON_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let nsh = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16).min(total.max(1));
    let limit = std::env::var("VMON_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Thorough { 780 } else { 420 });
    let deadline = t0 + Duration::from_secs(limit);
    let base = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&base);
    let dir = std::env::temp_dir().join(format!("vmon-{}-{}", p.id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let dirs = dir.to_string_lossy().into_owned();

    let results: Vec<ShardResult> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nsh)
            .map(|sh| {
                let dirs = dirs.clone();
                let p = p.clone();
                s.spawn(move || run_shard(&p, seed, tier, sh, nsh, total, &dirs, deadline))
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    let _ = fs::remove_dir_all(&dir);

    let mut all = Merged::default();
    let mut errors = vec![];
    for r in results {
        all.evaluations += r.m.evaluations;
        for (k, v) in r.m.counters {
            *all.counters.entry(k).or_insert(0) += v;
        }
        for s in r.m.samples {
            if all.samples.len() < 8 {
                all.samples.push(s);
            }
        }
        all.fails.extend(r.m.fails);
        all.distinct.extend(r.m.distinct);
        errors.extend(r.errors);
    }
    all.fails.sort_by(|a, b| (a.idx, &a.sig).cmp(&(b.idx, &b.sig)));

    let mut violations: Vec<Fail> = vec![];
    let mut harness: Vec<Fail> = vec![];
    let known = known_findings();
    let mut seen_known = HashSet::new();
    for f in all.fails {
        if f.sig == "HARNESS" {
            harness.push(f);
        } else if let Some((i, _)) = known
            .iter()
            .enumerate()
            .find(|(_, k)| k.prop == p.id && k.sig == f.sig && k.input == f.input)
        {
            seen_known.insert(i);
        } else {
            violations.push(f);
        }
    }
    for (i, k) in known.iter().enumerate() {
        if k.prop == p.id && seen_known.contains(&i) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }

    // A run that observed nothing decides nothing.
    let mut starved = vec![];
    for need in p.needs {
        let n = all.counters.get(*need).copied().unwrap_or(0);
        if n == 0 {
            starved.push(need.to_string());
        }
    }

    let evpath = base.join(format!("{}.json", p.id));
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [",
        json_str(p.id),
        if tier == Tier::Thorough { "thorough" } else { "quick" },
        seed,
        all.evaluations,
        all.distinct.len(),
        json_str(p.rule)
    ));
    ev.push_str(&all.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    ev.push_str("],\n  \"observed\": {");
    ev.push_str(
        &all.counters
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", "),
    );
    ev.push_str(&format!(
        "}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str("The code under test is built with debug assertions and overflow checks; the oracle is the monitor's own model."),
        t0.elapsed().as_secs_f64(),
        violations.len()
    ));
    let _ = fs::write(&evpath, ev);

    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        p.id,
        if tier == Tier::Thorough { "thorough" } else { "quick" },
        all.evaluations,
        all.distinct.len(),
        violations.len(),
        t0.elapsed().as_secs_f64()
    );
    if !violations.is_empty() {
        let rdir = base.join("replay");
        let _ = fs::create_dir_all(&rdir);
        // One replay per distinct signature.
        let mut sigs = HashSet::new();
        let mut n = 0;
        for f in &violations {
            if !sigs.insert(f.sig.clone()) || n >= 40 {
                continue;
            }
            n += 1;
            let path = rdir.join(format!("{}-{}.txt", p.id, n));
            let _ = fs::write(
                &path,
                format!(
                    "property {}\nseed {}\ntier {:?}\ncase {}\nrerun: VERIF_SEED={} /verif/bin/vmon case {} {} {}\nwhat: {}\n\n{}\n\ninput (escaped): {}\ninput:\n{}\n",
                    p.id, seed, tier, f.idx, seed, p.id, f.idx, if tier == Tier::Thorough { "thorough" } else { "quick" },
                    f.sig, f.detail, json_str(&f.input), f.input
                ),
            );
            println!("VIOLATION property={} replay={}", p.id, path.display());
            println!("  {}: {}", f.sig, f.detail.replace('\n', "\n    ").chars().take(900).collect::<String>());
            println!("  input: {}", json_str(&f.input).chars().take(700).collect::<String>());
        }
        return 1;
    }
    if !harness.is_empty() {
        println!("INCONCLUSIVE {}: the monitor itself failed: {} (case {})", p.id, harness[0].detail, harness[0].idx);
        return 2;
    }
    if !errors.is_empty() {
        println!("INCONCLUSIVE {}: {}", p.id, errors.join("; "));
        return 2;
    }
    if !starved.is_empty() || all.evaluations == 0 {
        println!("INCONCLUSIVE {}: never observed: {}", p.id, starved.join(", "));
        return 2;
    }
    0
}
