//! Runs batches of simulated executions, isolates them in child processes,
//! minimises and replays failures, and writes evidence.

use crate::op::{Outcome, Scenario, counters, shrinks};
use crate::rng::{Rng, mix2};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// One simulated environment.
pub trait World {
    fn name(&self) -> &'static str;
    fn generate(&self, prop: &str, seed: u64) -> Scenario;
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome;
    /// Makes a scenario text readable (names instead of numbers), as comments.
    fn describe(&self, _: &Scenario) -> String {
        String::new()
    }
}

/// What a check explores.
pub struct Plan {
    /// World name and weight.
    pub worlds: Vec<(&'static str, u64)>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub struct App {
    pub worlds: Vec<Box<dyn World>>,
    pub plan: fn(&str) -> Option<Plan>,
}

const WORKERS: u64 = 8;
const HANG: Duration = Duration::from_secs(60);

unsafe extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn silence() {
    std::panic::set_hook(Box::new(|_| {}));
    let lim = [6u64 << 30; 2];
    let core = [0u64; 2];
    // SAFETY: plain system calls with valid arguments (RLIMIT_AS, RLIMIT_CORE).
    unsafe {
        setrlimit(9, &raw const lim);
        setrlimit(4, &raw const core);
    }
}

fn prop_num(p: &str) -> u64 {
    p.bytes().fold(7, |h, b| mix2(h, u64::from(b)))
}

impl App {
    fn world(&self, sc: &Scenario) -> Option<&dyn World> {
        self.worlds.iter().find(|w| w.name() == sc.ops[0].k).map(|w| &**w)
    }
    fn scenario(&self, prop: &str, plan: &Plan, seed: u64, i: u64) -> Scenario {
        let s = mix2(mix2(seed, prop_num(prop)), i);
        let mut r = Rng::new(s ^ 0x0077_0072);
        let total: u64 = plan.worlds.iter().map(|w| w.1).sum();
        let mut x = r.below(total);
        let mut name = plan.worlds[0].0;
        for (n, w) in &plan.worlds {
            if x < *w {
                name = n;
                break;
            }
            x -= w;
        }
        let w = self.worlds.iter().find(|w| w.name() == name).expect("known world");
        w.generate(prop, s)
    }

    pub fn main(&self) -> i32 {
        let args: Vec<String> = std::env::args().skip(1).collect();
        match args.first().map(String::as_str) {
            Some("worker") => self.worker(&args[1..]),
            Some("run") => self.run_file(&args[1..]),
            Some("replay") => self.replay(&args[1..]),
            Some("show") => {
                let plan = (self.plan)(&args[1]).expect("known property");
                let sc = self.scenario(&args[1], &plan, args[2].parse().unwrap(), args[3].parse().unwrap());
                print!("{}{}", self.world(&sc).unwrap().describe(&sc), sc.text());
                0
            }
            Some("hashes") => self.hashes(&args[1..]),
            Some("selftest") => self.selftest(&args[1..]),
            _ => self.check(&args),
        }
    }

    /// `worker PROP SEED START RUNS CAP_S DIR TRACE`
    fn worker(&self, a: &[String]) -> i32 {
        silence();
        let prop = &a[0];
        let n = |i: usize| a[i].parse::<u64>().expect("number");
        let (seed, start, runs, cap) = (n(1), n(2), n(3), n(4));
        let dir = PathBuf::from(&a[5]);
        let plan = (self.plan)(prop).expect("known property");
        let mut status = std::fs::File::create(dir.join(format!("status{start}"))).expect("status file");
        let t0 = Instant::now();
        let (mut done, mut events, mut foreign, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
        let mut hashes: Vec<u64> = Vec::new();
        let mut by_world: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut foreign_msg = String::new();
        let mut found = None;
        let mut i = start;
        while i < runs {
            if t0.elapsed().as_secs() >= cap {
                break;
            }
            status.seek(SeekFrom::Start(0)).expect("seek");
            status.write_all(&i.to_le_bytes()).expect("status");
            let sc = self.scenario(prop, &plan, seed, i);
            let w = self.world(&sc).expect("known world");
            let o = w.execute(&sc, false);
            done += 1;
            events += o.events;
            *by_world.entry(w.name()).or_default() += 1;
            if o.nontrivial {
                nontrivial += 1;
                hashes.push(o.hash);
            }
            if let Some(v) = o.v {
                if v.props.iter().any(|p| p == prop) {
                    found = Some((i, v));
                    break;
                }
                foreign += 1;
                if foreign_msg.is_empty() {
                    foreign_msg = format!("run {i}: {} {:?}: {}", v.kind, v.props, v.msg);
                }
            }
            i += WORKERS;
        }
        let mut out = String::new();
        let _ = writeln!(out, "done {done}\nevents {events}\nforeign {foreign}\nnontrivial {nontrivial}");
        if !foreign_msg.is_empty() {
            let _ = writeln!(out, "foreignmsg {}", foreign_msg.replace('\n', " "));
        }
        for (w, n) in by_world {
            let _ = writeln!(out, "world {w} {n}");
        }
        for (k, v) in counters() {
            let _ = writeln!(out, "counter {k} {v}");
        }
        if let Some((i, v)) = found {
            let _ = writeln!(out, "violation {i} {} {}", v.kind, v.msg.replace('\n', " "));
        }
        let raw: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(dir.join(format!("hash{start}")), raw).expect("hash file");
        std::fs::write(dir.join(format!("out{start}")), out).expect("out file");
        0
    }

    /// `hashes PROP SEED I...`: the event hashes of single runs.
    fn hashes(&self, a: &[String]) -> i32 {
        silence();
        let plan = (self.plan)(&a[0]).expect("known property");
        let seed = a[1].parse().expect("seed");
        for i in &a[2..] {
            let sc = self.scenario(&a[0], &plan, seed, i.parse().expect("index"));
            let t = Instant::now();
            let o = self.world(&sc).expect("world").execute(&sc, false);
            if std::env::var_os("SIM_TIME").is_some() {
                eprintln!("{i} {}us", t.elapsed().as_micros());
            }
            println!("{i} {:016x} {}", o.hash, o.v.map_or("ok", |v| v.kind));
        }
        0
    }

    /// `run FILE [trace]`: one scenario; prints how it ended.
    fn run_file(&self, a: &[String]) -> i32 {
        silence();
        let Some(sc) = std::fs::read_to_string(&a[0]).ok().and_then(|t| Scenario::parse(&t)) else {
            println!("BAD");
            return 2;
        };
        let Some(w) = self.world(&sc) else {
            println!("BAD");
            return 2;
        };
        let o = w.execute(&sc, a.len() > 1);
        match o.v {
            None => println!("OK {:016x}", o.hash),
            Some(v) => println!("BROKEN {} {} {} {}", v.kind, v.props.join(","), v.step, v.msg.replace('\n', " ")),
        }
        0
    }

    /// `selftest PROP SEED RUNS`: every run in two processes, in two orders.
    fn selftest(&self, a: &[String]) -> i32 {
        let exe = std::env::current_exe().expect("own path");
        let n: u64 = a[2].parse().expect("count");
        let run = |order: Vec<u64>| {
            let mut c = Command::new(&exe);
            c.arg("hashes").arg(&a[0]).arg(&a[1]);
            c.args(order.iter().map(u64::to_string));
            let o = c.output().expect("child");
            let mut l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(str::to_owned).collect();
            l.sort();
            l
        };
        let fwd = run((0..n).collect());
        let rev = run((0..n).rev().collect());
        let bad = fwd.iter().zip(&rev).filter(|(a, b)| a != b).count();
        println!("{} runs, {} and {} answered, {bad} differ", n, fwd.len(), rev.len());
        for (x, y) in fwd.iter().zip(&rev).filter(|(a, b)| a != b).take(5) {
            println!("  {x} | {y}");
        }
        i32::from(bad > 0 || fwd.len() as u64 != n || rev.len() as u64 != n) * 2
    }

    fn replay(&self, a: &[String]) -> i32 {
        let text = std::fs::read_to_string(&a[0]).expect("replay file");
        let prop = text.lines().find_map(|l| l.strip_prefix("# property=")).unwrap_or("?").to_owned();
        let end = if let Some(b) = text.lines().find_map(|l| l.strip_prefix("# batch ")) {
            let dir = scratch();
            let f: Vec<&str> = b.split_whitespace().collect();
            let end = self.run_batch(&prop, f[0], f[1], f[2], &dir);
            let _ = std::fs::remove_dir_all(&dir);
            end
        } else {
            run_one(Path::new(&a[0]), true, HANG)
        };
        match end {
            Ended::Ok => {
                println!("not reproduced");
                0
            }
            e => {
                println!("{e:?}");
                println!("VIOLATION property={prop} replay={}", a[0]);
                1
            }
        }
    }

    fn run_batch(&self, prop: &str, seed: &str, start: &str, upto: &str, dir: &Path) -> Ended {
        let exe = std::env::current_exe().expect("own path");
        let st = Command::new(exe)
            .args(["worker", prop, seed, start, upto, "600"])
            .arg(dir)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("child");
        if !st.success() {
            return Ended::Died;
        }
        let out = std::fs::read_to_string(dir.join(format!("out{start}"))).unwrap_or_default();
        match out.lines().find_map(|l| l.strip_prefix("violation ")) {
            Some(v) => {
                let mut f = v.splitn(3, ' ').skip(1);
                Ended::Broken(f.next().unwrap_or("").into(), vec![prop.into()], f.next().unwrap_or("").into())
            }
            None => Ended::Ok,
        }
    }

    fn check(&self, args: &[String]) -> i32 {
        let mut prop = String::new();
        let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let mut root = PathBuf::from("/verif");
        let mut runs_override = None;
        let mut raw = false;
        let mut it = args.iter();
        while let Some(a) = it.next() {
            let mut val = || it.next().cloned().unwrap_or_default();
            match a.as_str() {
                "--property" => prop = val(),
                "--tier" => tier = val(),
                "--root" => root = val().into(),
                // Report without minimising (for surveys of many changes).
                "--raw" => raw = true,
                "--runs" => runs_override = val().parse::<u64>().ok(),
                _ => {
                    eprintln!("unknown argument {a}");
                    return 2;
                }
            }
        }
        let Some(plan) = (self.plan)(&prop) else {
            eprintln!("unknown property {prop:?}");
            return 2;
        };
        let thorough = tier == "thorough";
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        println!("property={prop} tier={tier} VERIF_SEED={seed}");
        let runs = runs_override.unwrap_or(if thorough { plan.thorough } else { plan.quick });
        let cap: u64 = if thorough { 720 } else { 240 };
        let t0 = Instant::now();
        let dir = scratch();
        let exe = std::env::current_exe().expect("own path");

        struct Kid {
            start: u64,
            child: Child,
            last: u64,
            since: Instant,
        }
        let spawn = |start: u64| -> Kid {
            let child = Command::new(&exe)
                .args(["worker", &prop, &seed.to_string(), &start.to_string(), &runs.to_string(), &cap.to_string()])
                .arg(&dir)
                .env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("worker");
            Kid { start, child, last: u64::MAX, since: Instant::now() }
        };
        let status_of = |start: u64| -> u64 {
            std::fs::read(dir.join(format!("status{start}")))
                .ok()
                .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().expect("8 bytes"))))
                .unwrap_or(u64::MAX)
        };
        let mut kids: Vec<Kid> = (0..WORKERS).map(spawn).collect();
        // (run, kind, message, worker)
        let mut found: Vec<(u64, String, String, u64)> = Vec::new();
        while !kids.is_empty() {
            std::thread::sleep(Duration::from_millis(20));
            let mut k = 0;
            while k < kids.len() {
                let kid = &mut kids[k];
                let at = status_of(kid.start);
                if at != kid.last {
                    kid.last = at;
                    kid.since = Instant::now();
                }
                match kid.child.try_wait() {
                    Ok(Some(st)) => {
                        if !st.success() {
                            if at == u64::MAX {
                                eprintln!("worker {} could not start: {st}", kid.start);
                                let _ = std::fs::remove_dir_all(&dir);
                                return 2;
                            }
                            found.push((at, "died".into(), format!("the process died ({st})"), kid.start));
                        }
                        kids.remove(k);
                    }
                    Ok(None) if kid.since.elapsed() > HANG && at != u64::MAX => {
                        let _ = kid.child.kill();
                        let _ = kid.child.wait();
                        found.push((at, "hang".into(), format!("no progress for {HANG:?}"), kid.start));
                        kids.remove(k);
                    }
                    _ => k += 1,
                }
            }
        }
        // Gather.
        let mut total: BTreeMap<String, u64> = BTreeMap::new();
        let mut faults: BTreeMap<String, u64> = BTreeMap::new();
        let mut worlds: BTreeMap<String, u64> = BTreeMap::new();
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut foreign_msg = String::new();
        for s in 0..WORKERS {
            let out = std::fs::read_to_string(dir.join(format!("out{s}"))).unwrap_or_default();
            for l in out.lines() {
                let f: Vec<&str> = l.splitn(2, ' ').collect();
                match f[0] {
                    "counter" | "world" => {
                        let (k, v) = f[1].rsplit_once(' ').expect("counter line");
                        let m = if f[0] == "world" { &mut worlds } else { &mut faults };
                        *m.entry(k.to_owned()).or_default() += v.parse::<u64>().unwrap_or(0);
                    }
                    "violation" => {
                        let v: Vec<&str> = f[1].splitn(3, ' ').collect();
                        found.push((v[0].parse().unwrap_or(0), v[1].into(), v[2].into(), s));
                    }
                    "foreignmsg" => foreign_msg = f[1].to_owned(),
                    _ => *total.entry(f[0].to_owned()).or_default() += f[1].parse::<u64>().unwrap_or(0),
                }
            }
            let raw = std::fs::read(dir.join(format!("hash{s}"))).unwrap_or_default();
            distinct.extend(raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().expect("8"))));
        }
        let explored_s = t0.elapsed().as_secs_f64();
        found.sort();
        let mut reported = 0;
        if let (true, Some((i, kind, msg, _))) = (raw, found.first()) {
            println!("VIOLATION property={prop} run={i}\nminimised: not: {kind}: {msg}");
            let _ = std::fs::remove_dir_all(&dir);
            return 1;
        }
        if let Some((i, kind, msg, start)) = found.first().cloned() {
            reported = 1;
            let path = self.report(&root, &prop, &plan, seed, i, &kind, &msg, start, &dir);
            println!("VIOLATION property={prop} replay={}", path.display());
        }
        // Determinism: some of the runs again, alone, in another process.
        let mut mismatches = 0u64;
        let mut sampled = 0u64;
        if reported == 0 && runs > 0 {
            let mut r = Rng::new(seed ^ 0xdede);
            let pick: Vec<String> = (0..24).map(|_| r.below(runs).to_string()).collect();
            let ask = |p: &[String]| {
                let o = Command::new(&exe).arg("hashes").arg(&prop).arg(seed.to_string()).args(p).output().expect("child");
                let mut l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(str::to_owned).collect();
                l.sort();
                l
            };
            let a = ask(&pick);
            let back: Vec<String> = pick.iter().rev().cloned().collect();
            let b = ask(&back);
            sampled = a.len() as u64;
            mismatches = a.iter().zip(&b).filter(|(x, y)| x != y).count() as u64 + u64::from(a.len() != b.len());
        }
        let _ = std::fs::remove_dir_all(&dir);
        let wall = t0.elapsed().as_secs_f64();
        let done = total.get("done").copied().unwrap_or(0);
        let events = total.get("events").copied().unwrap_or(0);
        let mut r = Rng::new(seed ^ 0x5a);
        let samples: Vec<String> = (0..3)
            .map(|_| {
                let i = r.below(runs.max(1));
                let sc = self.scenario(&prop, &plan, seed, i);
                let d = self.world(&sc).map_or(String::new(), |w| w.describe(&sc));
                let mut t = sc.text();
                t.truncate(1500);
                format!("run {i}\n{d}{t}")
            })
            .collect();
        let map = |m: &BTreeMap<String, u64>, pre: &str| {
            let b: Vec<String> = m
                .iter()
                .filter(|(k, _)| k.starts_with(pre))
                .map(|(k, v)| format!("{}: {v}", quote(k)))
                .collect();
            format!("{{{}}}", b.join(", "))
        };
        let fired: u64 = faults.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(_, v)| v).sum();
        let per_hour = done as f64 / explored_s.max(0.001) * 3600.0;
        let json = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {done},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {done},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_time\": {},\n  \"simulated_events\": {events},\n  \"faults_fired_total\": {fired},\n  \"faults_and_inputs\": {},\n  \"inputs\": {},\n  \"schedule\": {},\n  \"operations\": {},\n  \"probes\": {},\n  \"runs_by_world\": {},\n  \"distinct_event_logs\": {},\n  \"real_code\": {},\n  \"stubbed\": {},\n  \"determinism\": {{\"rerun_in_other_processes\": {sampled}, \"mismatches\": {mismatches}}},\n  \"findings_of_other_properties\": {},\n  \"finding_of_other_property\": {},\n  \"explored_s\": {explored_s:.2}\n }},\n \"assumptions\": [\"executions are sampled, not enumerated\", \"the simulator's item model and its decoder of the Arrow layout are right\"],\n \"wall_s\": {wall:.2},\n \"violations\": {reported}\n}}\n",
            quote(&prop),
            quote(if thorough { "thorough" } else { "quick" }),
            distinct.len(),
            quote(plan.rule),
            samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", "),
            per_hour,
            quote("the code reads no clock and has no timers; simulated time is the count of events"),
            map(&faults, "fault."),
            map(&faults, "input."),
            map(&faults, "schedule."),
            map(&faults, "op."),
            map(&faults, "probe."),
            map(&worlds, ""),
            distinct.len(),
            quote(plan.real),
            quote(plan.stub),
            total.get("foreign").copied().unwrap_or(0),
            quote(&foreign_msg),
        );
        let ev = root.join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        std::fs::write(ev.join(format!("{prop}.json")), json).expect("evidence file");
        println!(
            "{done} runs, {} distinct non-trivial histories, {events} events, {fired} faults fired, {explored_s:.1} s",
            distinct.len()
        );
        if mismatches > 0 {
            println!("warning: {mismatches} of {sampled} runs differ when run again");
        }
        i32::from(reported > 0)
    }

    /// Minimises the failure and writes the replay file.
    #[allow(clippy::too_many_arguments)]
    fn report(&self, root: &Path, prop: &str, plan: &Plan, seed: u64, i: u64, kind: &str, msg: &str, start: u64, dir: &Path) -> PathBuf {
        let replays = root.join("replays");
        let _ = std::fs::create_dir_all(&replays);
        let path = replays.join(format!("{prop}-seed{seed}-run{i}.txt"));
        let mut sc = self.scenario(prop, plan, seed, i);
        println!("run {i} breaks {prop}: {kind}: {msg}");
        let deadline = Instant::now() + Duration::from_secs(60);
        let cap = if kind == "hang" { HANG } else { Duration::from_secs(10) };
        let test = |cands: &[Scenario]| -> Vec<Ended> {
            let kids: Vec<(PathBuf, Child)> = cands
                .iter()
                .enumerate()
                .map(|(n, c)| {
                    let p = dir.join(format!("cand{n}"));
                    std::fs::write(&p, c.text()).expect("candidate");
                    let k = spawn_run(&p, false);
                    (p, k)
                })
                .collect();
            kids.into_iter().map(|(_, k)| finish(k, cap)).collect()
        };
        let same = |e: &Ended| match e {
            Ended::Broken(k, p, _) => k == kind && p.iter().any(|x| x == prop),
            Ended::Died => kind == "died",
            Ended::Hung => kind == "hang",
            Ended::Ok => false,
        };
        let first = test(std::slice::from_ref(&sc)).remove(0);
        let mut text = format!("# property={prop}\n# VERIF_SEED={seed} run={i} kind={kind}\n");
        if !same(&first) {
            // Depends on what ran before it in the same process.
            let _ = writeln!(text, "# message: {msg}\n# alone the run ends as {first:?}; replay repeats the worker's runs up to it");
            let _ = writeln!(text, "# batch {seed} {start} {}", i + 1);
            text.push_str(&sc.text());
            std::fs::write(&path, text).expect("replay file");
            return path;
        }
        let mut last = first;
        if kind != "hang" {
            'outer: loop {
                let cands = shrinks(&sc);
                for part in cands.chunks(8) {
                    if Instant::now() > deadline {
                        break 'outer;
                    }
                    let ends = test(part);
                    if let Some(n) = ends.iter().position(same) {
                        sc = part[n].clone();
                        last = ends.into_iter().nth(n).expect("in range");
                        continue 'outer;
                    }
                }
                break;
            }
        }
        let what = match &last {
            Ended::Broken(_, _, m) => m.clone(),
            _ => msg.to_owned(),
        };
        let _ = writeln!(text, "# message: {what}");
        text.push_str(&self.world(&sc).map_or(String::new(), |w| w.describe(&sc)));
        text.push_str(&sc.text());
        println!("minimised: {kind}: {what}");
        print!("{}", sc.text());
        std::fs::write(&path, text).expect("replay file");
        path
    }
}

#[derive(Debug)]
enum Ended {
    Ok,
    Broken(String, Vec<String>, String),
    Died,
    Hung,
}

fn spawn_run(p: &Path, trace: bool) -> Child {
    let exe = std::env::current_exe().expect("own path");
    let mut c = Command::new(exe);
    c.arg("run").arg(p);
    if trace {
        c.arg("trace");
    }
    c.env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(if trace { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("child")
}
fn finish(mut k: Child, cap: Duration) -> Ended {
    let t0 = Instant::now();
    loop {
        match k.try_wait() {
            Ok(Some(st)) => {
                if !st.success() && st.code() != Some(2) {
                    return Ended::Died;
                }
                let mut s = String::new();
                if let Some(mut o) = k.stdout.take() {
                    let _ = std::io::Read::read_to_string(&mut o, &mut s);
                }
                let Some(rest) = s.strip_prefix("BROKEN ") else { return Ended::Ok };
                let f: Vec<&str> = rest.trim_end().splitn(4, ' ').collect();
                return Ended::Broken(
                    f[0].into(),
                    f[1].split(',').map(Into::into).collect(),
                    format!("step {}: {}", f[2], f.get(3).unwrap_or(&"")),
                );
            }
            Ok(None) if t0.elapsed() > cap => {
                let _ = k.kill();
                let _ = k.wait();
                return Ended::Hung;
            }
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    }
}
fn run_one(p: &Path, trace: bool, cap: Duration) -> Ended {
    finish(spawn_run(p, trace), cap)
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("narrow-sim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
