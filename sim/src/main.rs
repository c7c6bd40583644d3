#![allow(static_mut_refs)]
mod dict;
mod exec;
mod gen;
mod json;
mod judge;
mod mini;
mod net;
mod plan;
use exec::*;
use gen::*;
use json::{obj, J};
use judge::Judgement;
use mzops::*;
use mzrt::{fault, rng::mix, Rng};
use plan::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

const MAXDIG: usize = 1 << 19;
const MAXW: usize = 32;
/// what one worker process reports
#[repr(C)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    skipped: u64,
    bases: u64,
    calls: u64,
    steps: u64,
    pts: u64,
    switches: u64,
    vtime: u64,
    kinds: [u64; 6],
    faults: [u64; mzrt::NFAULT],
    env_hits: [u64; 8],
    rerun: u64,
    mismatch: u64,
    viol: u64,
    viol_len: u32,
    viol_msg: [u8; 600],
    harness_len: u32,
    harness_msg: [u8; 600],
    ops: [u8; 2048],
    known: [u64; 32],
    done: u64,
    ndig: u64,
    dig: [u64; MAXDIG],
}
struct Known {
    prop: String,
    sig: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let p = root().join("known-findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let mut it = r.splitn(2, ' ');
            let prop = it.next().unwrap_or("").to_string();
            let rest = it.next().unwrap_or("");
            if let Some(rest) = rest.strip_prefix("match=\"") {
                if let Some(e) = rest.find('"') {
                    v.push(Known { prop, sig: rest[..e].to_string(), text: rest[e + 1..].trim().to_string() });
                }
            }
        }
    }
    v
}
fn root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("MZSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn put(dst: &mut [u8; 600], len: &mut u32, s: &str) {
    let n = s.len().min(600);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u32;
}

/// (runs at the quick tier, at the thorough tier)
fn sizes(prop: &str) -> (u64, u64) {
    match prop {
        "C01" => (36_000, 700_000),
        "C02" => (36_000, 700_000),
        "C03" => (12_000, 150_000),
        "C04" => (40_000, 700_000),
        "C05" => (30_000, 450_000),
        "C06" => (40_000, 700_000),
        "C07" => (40_000, 800_000),
        "C08" => (6_000, 100_000),
        "C09" => (40_000, 700_000),
        "C10" => (50_000, 900_000),
        "C11" => (80_000, 1_500_000),
        "C12" => (20_000, 300_000),
        "C13" => (5_000, 45_000),
        _ => (1000, 1000),
    }
}
/// runs of the second phase, in which the optimised build makes very long histories
fn deep_sizes(prop: &str, ops: u64) -> (u64, u64) {
    match prop {
        "C08" => (3 * ops, 60 * ops),
        "C12" => (30_000, 600_000),
        "C13" => (2 * ops, 4 * ops),
        _ => (0, 0),
    }
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" => "a run is 2-9 threads making 1-4 related calls each under a seeded schedule; non-trivial: a thread was preempted inside a call at least once; distinct by the sequence of (thread, position, kind of point) of all switches",
        "C03" => "a run is 1-3 threads copying, changing and querying up to 5 objects each that descend from shared originals; non-trivial: at least one change and one query were made; distinct by schedule and by every outcome",
        "C04" => "as C01/C02 with one or more threads suspended inside a call or callback; non-trivial: a suspension took effect while another thread still had work; distinct by schedule and outcomes",
        "C05" => "a run is 1-6 queries on participants that make further calls from their callbacks, up to 3 deep (in some runs up to 1100); non-trivial: at least one nested call ran; distinct by outcomes and schedule",
        "C06" => "a run is a history of calls of which some are abandoned at a chosen callback; non-trivial: a failure was injected; distinct by outcomes and schedule",
        "C07" => "a run is a history of calls with allocation failures at chosen allocations; non-trivial: an allocation failed; distinct by outcomes and schedule",
        "C08" => "a run repeats a cycle of 1-19 calls (some abandoned, some with arguments that change) 100 to 4096 times; non-trivial: the memory in use was measured at three points; distinct by outcomes",
        "C09" => "a run is 1-5 nodes, 1-30 boxes and 5-65 network events followed by a fault-free closing phase; non-trivial: at least three merges; distinct by the sequence of events and merged boxes",
        "C10" => "a run is 2-66 calls under a disturbed environment (clock, entropy, environment, stdio, files, heap placement); non-trivial: every call was also made alone in the undisturbed environment and compared; distinct by outcomes and environment",
        "C11" => "a run is 1-3 queries or unions whose participants change between callbacks; non-trivial: a participant changed during a call; distinct by outcomes",
        "C12" => "a run is 100 GJK queries on spheres whose support points are disturbed for a while; non-trivial: at least one support point was disturbed or missing; distinct by outcomes",
        "C13" => "a run is a history of up to 150,000 calls (on one thread, several threads, or threads that end one after the other, with failures in between), each compared with the same call alone; non-trivial: more than one call was made; distinct by outcomes and schedule",
        _ => "",
    }
}
fn nontrivial(prop: &str, p: &Plan, r: &Res) -> bool {
    let f = |k: usize| r.faults[k] > 0;
    match prop {
        "C01" | "C02" => f(fault::PREEMPT),
        "C03" => p.progs.iter().any(|g| g.iter().any(|l| l.k == 1)) && p.progs.iter().any(|g| g.iter().any(|l| l.k == 2)),
        "C04" => f(fault::STALL),
        "C05" => f(fault::REENTER),
        "C06" => f(fault::PANIC_CB) || f(fault::BADKIND) || f(fault::BADSHAPE) || f(fault::SHORT),
        "C07" => f(fault::OOM),
        "C08" => r.aux[0] > 0,
        "C09" => r.aux[0] >= 3,
        "C10" => p.env.on,
        "C11" => f(fault::MOVE),
        "C12" => f(fault::JITTER) || f(fault::STALE) || f(fault::NOSUPPORT),
        "C13" => p.reps > 1 || p.tasks.iter().map(|t| t.len()).sum::<usize>() > 1,
        _ => true,
    }
}
/// a plan-level fingerprint, for runs whose schedule is not what makes them different
fn plan_digest(p: &Plan) -> u64 {
    let mut h = mix(p.kind as u64 ^ p.reps as u64);
    if p.env.on {
        h = mix(h ^ p.env.entropy ^ p.env.clock_base);
    }
    p.each_step(|t, s| {
        h = mix(h ^ s.op as u64 ^ ((t as u64) << 16) ^ ((s.a as u64) << 32) ^ ((s.b as u64) << 48));
    });
    for o in &p.objs {
        for x in &o.v {
            h = mix(h ^ x.to_bits());
        }
    }
    h
}
#[allow(clippy::too_many_arguments)]
fn worker(w: usize, prop: &str, deep: Option<bool>, seed: u64, total: u64, deadline: Instant, st: &mut Stats, (stop, next): (&AtomicU64, &AtomicU64), known: &[Known]) {
    let cp = mzrt::cpus();
    if !cp.is_empty() {
        mzrt::pin(cp[w % cp.len()]);
    }
    let mut sim = Sim::new();
    let gen = Gen { ops: Ops::new(&sim.defs), deep };
    // whoever is free takes the next run: what a run does depends on its number alone
    let mut round = 0u64;
    loop {
        let i = next.fetch_add(1, Relaxed);
        if i >= total {
            break;
        }
        round += 1;
        if stop.load(Relaxed) != 0 || Instant::now() > deadline {
            break;
        }
        let p = gen.plan(&mut sim, prop, seed, i);
        let (j, r) = sim.evaluate(&p);
        st.runs += 1;
        p.each_step(|_, s| {
            st.ops[s.op as usize & 2047] = 1;
            st.calls += 1;
        });
        for g in &p.progs {
            for l in g.iter().filter(|l| l.k != 0 && l.k != 4) {
                st.ops[l.step.op as usize & 2047] = 1;
                st.calls += 1;
            }
        }
        if let Some(r) = &r {
            st.steps += r.steps;
            st.pts += r.pts;
            st.switches += r.switches;
            st.vtime += r.vtime;
            if p.kind == Kind::Leak || p.kind == Kind::Soak {
                st.calls += r.aux[0];
            }
            if p.kind == Kind::Net {
                st.calls += r.aux[0];
                st.ops[gen.ops.union[0] as usize] = 1;
            }
            for k in 0..6 {
                st.kinds[k] += r.kinds[k];
            }
            for k in 0..mzrt::NFAULT {
                st.faults[k] += r.faults[k];
            }
            for k in 0..8 {
                st.env_hits[k] += r.env_hits[k];
            }
            if nontrivial(prop, &p, r) {
                st.nontrivial += 1;
                if (st.ndig as usize) < MAXDIG {
                    let d = match prop {
                        "C01" | "C02" => mix(r.trace ^ r.pts),
                        _ => r.digest() ^ plan_digest(&p),
                    };
                    st.dig[st.ndig as usize] = d;
                    st.ndig += 1;
                }
            }
            // one seed is one execution: some runs are repeated and compared
            if i % 61 == 7 || round == 1 {
                let (_, r2) = sim.evaluate(&p);
                st.rerun += 1;
                if r2.map(|x| x.digest()) != Some(r.digest()) {
                    st.mismatch += 1;
                }
            }
        }
        match j {
            Judgement::Ok => {}
            Judgement::Skip => st.skipped += 1,
            Judgement::Violation(m) => {
                if let Some(k) = known.iter().position(|k| k.prop == prop && m.contains(&k.sig)) {
                    st.known[k.min(31)] += 1;
                } else {
                    st.viol = i + 1;
                    put(&mut st.viol_msg, &mut st.viol_len, &m);
                    stop.store(1, Relaxed);
                    break;
                }
            }
            Judgement::Harness(m) => {
                put(&mut st.harness_msg, &mut st.harness_len, &format!("run {}: {}", i, m));
                stop.store(1, Relaxed);
                break;
            }
        }
    }
    st.bases = sim.base_runs;
    st.done = 1;
}
/// run the deliberately faulty operations through the very same machinery
fn canaries(prop: &str, seed: u64) -> (Vec<(String, u64)>, Vec<String>) {
    let list: &[&[&str]] = match prop {
        "C01" | "C02" => &[&["scratch"], &["own_threads"]],
        "C03" => &[&["global_tolerance", "read_tolerance"]],
        "C04" => &[&["lock"], &["spin"], &["three_slots"]],
        "C05" => &[&["buffer_across_callback"]],
        "C06" => &[&["depth_not_reset"], &["swallow"], &["half_union"], &["when_unwinding"], &["when_reporting"], &["hook_replaced"]],
        "C07" => &[&["oom_default"]],
        "C08" => &[&["leak"], &["leak_on_unwind"], &["system_leak"], &["worker_stays"]],
        "C09" => &[&["bad_union"]],
        "C10" => &[&["hash_order"], &["clock"], &["print"], &["env_var"], &["file"], &["cpu_count"], &["thread_refused"]],
        "C11" => &[&["read_twice"]],
        "C12" => &[&["until_equal"]],
        "C13" => &[&["every_300th"], &["memo_by_first"], &["fp_mode"], &["tls_buffer"]],
        _ => &[],
    };
    let mut found = vec![];
    let mut missed = vec![];
    for names in list {
        let mut sim = Sim::new();
        let mut ops = Ops::new(&sim.defs);
        let ids: Vec<u16> = names.iter().filter_map(|n| op_index(&sim.defs, &format!("canary.{}", n))).collect();
        if !ids.is_empty() {
            ops.writes = vec![];
            ops.alg = ids.clone();
            ops.geo = ids.clone();
            ops.all = ids.clone();
            ops.part = ids.clone();
            ops.union = ids.clone();
            ops.gjk = ids[0];
            for (i, t) in TYPES.iter().enumerate() {
                ops.by_ty[i] = ids.iter().copied().filter(|&o| sim.defs[o as usize].ta == t.0).collect();
            }
        }
        let gen = Gen { ops, deep: None };
        let mut hit = None;
        for i in 0..200 {
            let mut p = gen.plan(&mut sim, prop, seed ^ 0xca9a, i);
            p.canary = true;
            if let (Judgement::Violation(_), _) = sim.evaluate(&p) {
                hit = Some(i + 1);
                break;
            }
        }
        match hit {
            Some(n) => found.push((names.join("+"), n)),
            None => missed.push(names.join("+")),
        }
    }
    (found, missed)
}
fn replay_file(p: &Plan, msg: &str, r: &Res, sim: &Sim, prop: &str, seed: u64, index: u64) -> J {
    let fired: Vec<(&str, J)> = fault::NAMES.iter().enumerate().filter(|(k, _)| r.faults[*k] > 0).map(|(k, n)| (*n, r.faults[k].into())).collect();
    obj(vec![
        ("property", prop.into()),
        ("violation", msg.into()),
        ("digest", format!("{:016x}", r.digest()).into()),
        ("verif_seed", (seed & 0xffff_ffff).into()),
        ("build", build().into()),
        ("run_index", index.into()),
        ("replay", "bash /verif/sim/check.sh --replay <this file>".into()),
        ("faults_that_happened", obj(fired)),
        ("plan", to_json(p, &sim.defs)),
    ])
}
/// which of the two builds of the library this program contains
fn build() -> &'static str {
    if cfg!(mzfast) {
        "fast"
    } else {
        "instrumented"
    }
}
fn die(s: &str) -> ! {
    eprintln!("mzsim: {}", s);
    std::process::exit(2)
}
fn check(prop: &str, deep: bool) -> i32 {
    let t0 = Instant::now();
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if deep {
        seed ^= 0xdee9_0000_0000;
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let (q, t) = if deep { deep_sizes(prop, Ops::new(&table()).all.len() as u64) } else { sizes(prop) };
    let total = std::env::var("MZSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { t } else { q });
    let cap = std::env::var("MZSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(match (thorough, deep) {
        (true, false) if deep_sizes(prop, 1).0 > 0 => 420,
        (true, false) => 720,
        (true, true) => 300,
        _ => 150,
    });
    let known = known_findings();
    let mut violations: Vec<(String, String)> = vec![];
    std::fs::create_dir_all(root().join("replays")).ok();
    std::fs::create_dir_all(root().join("evidence")).ok();

    // values may be moved to and shared between threads freely
    let pr = traits_probe::probe();
    let n = pr.len();
    if pr[n - 1].3 || !pr[n - 1].2 || pr[n - 2].2 {
        die("the probe for thread-safe types does not work");
    }
    if prop == "C01" || prop == "C02" {
        let bad: Vec<String> =
            pr[..n - 2].iter().filter(|x| x.1 == (prop == "C01") && !(x.2 && x.3)).map(|x| format!("{} (movable: {}, shareable: {})", x.0, x.2, x.3)).collect();
        if !bad.is_empty() {
            let f = root().join("replays").join(format!("{}-types.json", prop));
            let m = format!("types that cannot be moved to or shared between threads: {}", bad.join(", "));
            let j = obj(vec![("property", prop.into()), ("violation", m.as_str().into()), ("types", bad.into()), ("probe", true.into())]);
            std::fs::write(&f, j.text()).ok();
            violations.push((m, f.display().to_string()));
        }
    }
    let (found, missed) = if deep { (vec![], vec![]) } else { canaries(prop, seed) };
    if !missed.is_empty() {
        die(&format!("self-test failed: the simulator no longer sees {}", missed.join(", ")));
    }
    let canary_s = t0.elapsed().as_secs_f64();

    let nw = mzrt::cpus().len().clamp(1, 8).min(MAXW);
    let stats: Vec<&'static mut Stats> = (0..nw).map(|_| unsafe { &mut *(mzrt::map_shared(std::mem::size_of::<Stats>()) as *mut Stats) }).collect();
    // which kinds of call, and which calls of a kind, deserve more runs
    let hot = unsafe { &mut *(mzrt::map_shared(std::mem::size_of::<Hot>()) as *mut Hot) };
    let calls = std::env::var("MZSIM_SURVEY").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 8000 } else { 1500 });
    if prop != "C09" && prop != "C12" && calls > 0 {
        let mut pids = vec![];
        let h: *mut Hot = hot;
        for w in 0..nw {
            pids.push(mzrt::spawn_child(|| {
                let cp = mzrt::cpus();
                if !cp.is_empty() {
                    mzrt::pin(cp[w % cp.len()]);
                }
                survey(&mut Sim::new(), seed, w, nw, calls, unsafe { &mut *h });
            }));
        }
        for p in pids {
            mzrt::wait_pid(p);
        }
        hot.calls = calls as u64;
        // the optimised build cannot see what is touched, and asks the other one
        if let Ok(f) = std::env::var("MZSIM_HOT_FILE") {
            let defs = table();
            if deep {
                for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
                    let Some((sig, name)) = l.split_once(' ') else { continue };
                    if let Some(i) = defs.iter().position(|d| d.name == name) {
                        hot.sig[i & 2047] |= sig.parse().unwrap_or(0);
                    }
                }
            } else {
                let l: Vec<String> = defs.iter().enumerate().filter(|(i, _)| hot.sig[i & 2047] != 0).map(|(i, d)| format!("{} {}\n", hot.sig[i & 2047], d.name)).collect();
                std::fs::write(&f, l.concat()).ok();
            }
        }
        use_hot(hot, seed);
    }
    let survey_s = t0.elapsed().as_secs_f64() - canary_s;
    if std::env::var("MZSIM_DEBUG").is_ok() {
        let defs = table();
        eprintln!("survey: {:.1} s", survey_s);
        for (i, d) in defs.iter().enumerate() {
            if hot.sig[i] != 0 || std::env::var("MZSIM_HOT").is_ok() {
                eprintln!("  {}: touches {}, {} examples", d.name, hot.sig[i], hot.n[i]);
            }
        }
    }
    // calls that leave something behind, or ask for memory, call for more runs
    let tense = !thorough && !deep && hot.sig.iter().any(|&x| x != 0);
    let (total, cap) = if tense { (total * 2, cap * 2) } else { (total, cap) };
    let shared = unsafe { &*(mzrt::map_shared(4096) as *const [AtomicU64; 64]) };
    let (stop, next): (&'static AtomicU64, &'static AtomicU64) = (&shared[0], &shared[32]);
    unsafe { mzrt::COV = mzrt::map_shared(mzrt::COVN) };
    let deadline = t0 + Duration::from_secs(cap);
    let t1 = Instant::now();
    let how = if deep { Some(thorough) } else { None };
    let mut pids = vec![];
    let mut stats = stats;
    for w in 0..nw {
        let s: *mut Stats = &mut *stats[w];
        pids.push(mzrt::spawn_child(|| worker(w, prop, how, seed, total, deadline, unsafe { &mut *s }, (stop, next), &known)));
    }
    for p in pids {
        mzrt::wait_pid(p);
    }
    let explore_s = t1.elapsed().as_secs_f64();
    for s in &stats {
        if s.harness_len > 0 {
            die(&String::from_utf8_lossy(&s.harness_msg[..s.harness_len as usize]));
        }
        if s.done != 1 {
            die("a worker did not finish");
        }
    }
    let sum = |f: &dyn Fn(&Stats) -> u64| -> u64 { stats.iter().map(|s| f(s)).sum() };
    let mut sim = Sim::new();
    let gen = Gen { ops: Ops::new(&sim.defs), deep: how };
    // the violation with the lowest index
    let mut vi: Vec<u64> = stats.iter().filter(|s| s.viol > 0).map(|s| s.viol - 1).collect();
    vi.sort();
    for i in vi.into_iter().take(1) {
        let p = gen.plan(&mut sim, prop, seed, i);
        let f = root().join("replays").join(format!("{}-{}{}-{}.json", prop, if deep { "long-" } else { "" }, seed & 0xffff_ffff, i));
        let budget = Duration::from_secs(if thorough { 120 } else { 40 });
        match mini::minimise(&mut sim, &p, budget) {
            Some((q, m, r)) => {
                std::fs::write(&f, replay_file(&q, &m, &r, &sim, prop, seed, i).text()).ok();
                violations.push((m, f.display().to_string()));
            }
            None => {
                // report the run as found
                let m = stats.iter().find(|s| s.viol == i + 1).map(|s| String::from_utf8_lossy(&s.viol_msg[..s.viol_len as usize]).into_owned()).unwrap_or_default();
                if let (_, Some(r)) = sim.evaluate(&p) {
                    std::fs::write(&f, replay_file(&p, &m, &r, &sim, prop, seed, i).text()).ok();
                }
                violations.push((m, f.display().to_string()));
            }
        }
    }
    if deep {
        return conclude_deep(prop, &stats, total, explore_s, thorough, &known, &violations);
    }
    // evidence
    let runs = sum(&|s| s.runs);
    let mut dig: HashSet<u64> = HashSet::new();
    for s in &stats {
        dig.extend(&s.dig[..s.ndig as usize]);
    }
    let mut samples = vec![];
    let mut pick = Rng::new(seed ^ 0x5a);
    for k in 0..3 {
        let i = if k == 0 { 0 } else { pick.below(runs.max(1)) };
        samples.push(Compact(&gen.plan(&mut sim, prop, seed, i), &sim.defs).json(i));
    }
    let faults: Vec<(&str, J)> = fault::NAMES.iter().enumerate().map(|(k, n)| (*n, sum(&|s| s.faults[k]))).filter(|x| x.1 > 0).map(|x| (x.0, x.1.into())).collect();
    let mut opn = HashSet::new();
    for s in &stats {
        for (i, &x) in s.ops.iter().enumerate() {
            if x != 0 && i < sim.defs.len() {
                opn.insert(i);
            }
        }
    }
    let edges = unsafe { (0..mzrt::COVN).filter(|&i| *mzrt::COV.add(i) != 0).count() };
    let total_ops = sim.defs.iter().filter(|d| d.grp != Grp::Canary).count();
    let per_h = |x: u64| (x as f64 / explore_s.max(0.001) * 3600.0) as u64;
    let kinds = ["static", "library_heap", "shared_memory", "edge", "other", "between_calls"];
    let cov = obj(vec![
        ("evaluations", runs.into()),
        ("distinct_nontrivial", dig.len().into()),
        ("nontrivial_runs", sum(&|s| s.nontrivial).into()),
        ("rule", rule(prop).into()),
        ("samples", J::Arr(samples)),
        ("runs_planned", total.into()),
        ("seeds_per_hour", per_h(runs).into()),
        ("runs_per_hour_with_reference_runs", per_h(runs + sum(&|s| s.bases)).into()),
        ("reference_runs_in_pristine_processes", sum(&|s| s.bases).into()),
        ("calls_made", sum(&|s| s.calls).into()),
        ("runs_not_judged_because_a_reference_run_does_not_end", sum(&|s| s.skipped).into()),
        (
            "simulated_time",
            obj(vec![("instrumented_steps", sum(&|s| s.steps).into()), ("logical_clock_ticks", sum(&|s| s.vtime).into())]),
        ),
        ("scheduling_points", J::Obj(kinds.iter().enumerate().map(|(k, n)| (n.to_string(), sum(&|s| s.kinds[k]).into())).collect())),
        ("thread_switches", sum(&|s| s.switches).into()),
        ("faults_injected", obj(faults)),
        (
            "environment_accesses_by_library_code",
            obj(vec![
                ("clock", sum(&|s| s.env_hits[0]).into()),
                ("entropy", sum(&|s| s.env_hits[1]).into()),
                ("environment", sum(&|s| s.env_hits[2]).into()),
                ("stdio", sum(&|s| s.env_hits[3]).into()),
                ("files", sum(&|s| s.env_hits[4]).into()),
                ("process", sum(&|s| s.env_hits[5]).into()),
                ("starting_threads", sum(&|s| s.env_hits[6]).into()),
            ]),
        ),
        ("kinds_of_call_exercised", opn.len().into()),
        ("kinds_of_call_known", total_ops.into()),
        ("edges_of_library_and_dispatch_reached", edges.into()),
        ("edges_of_library_and_dispatch", mzrt::guards().into()),
        ("repeated_to_check_determinism", sum(&|s| s.rerun).into()),
        ("repetitions_that_differed", sum(&|s| s.mismatch).into()),
        (
            "seam_self_test",
            J::Obj(found.iter().map(|(n, k)| (n.clone(), format!("detected after {} runs", k).into())).collect()),
        ),
        ("real_components", J::Arr(vec!["all of mazth, compiled from /repo's working tree without optimisation".into(), "std's locks, thread-locals, formatting and collections as used by it".into()])),
        (
            "simulated_components",
            J::Arr(vec![
                "thread scheduler and futex".into(),
                "heap of the library".into(),
                "clock, entropy, environment variables, stdio, file opening as seen by the library".into(),
                "user-supplied shapes and bounds (they delegate to real mazth objects)".into(),
                if prop == "C09" { "network, node storage and node crashes".into() } else { "none other".into() },
            ]),
        ),
        ("workers", nw.into()),
        ("canary_wall_s", canary_s.into()),
        ("survey_wall_s", survey_s.into()),
    ]);
    let ev = obj(vec![
        ("property", prop.into()),
        ("tier", if thorough { "thorough".into() } else { "quick".into() }),
        ("seed", seed.into()),
        ("level", "exploration".into()),
        ("coverage", cov),
        (
            "assumptions",
            J::Arr(vec![
                "interleavings are sequentially consistent and switch at instrumented accesses and edges of mazth and the dispatch code (not inside uninstrumented std)".into(),
                "threads the library itself would start are not under the scheduler".into(),
            ]),
        ),
        ("wall_s", t0.elapsed().as_secs_f64().into()),
        ("violations", violations.len().into()),
    ]);
    if let Err(e) = std::fs::write(root().join("evidence").join(format!("{}.json", prop)), ev.text()) {
        die(&format!("cannot write evidence: {}", e));
    }
    if sum(&|s| s.mismatch) > 0 {
        eprintln!("mzsim: {} of {} repeated runs differed", sum(&|s| s.mismatch), sum(&|s| s.rerun));
    }
    for (k, f) in known.iter().enumerate() {
        if f.prop == prop {
            println!("KNOWN-FINDING: property={} {} (seen {} times)", prop, f.text, sum(&|s| s.known[k.min(31)]));
        }
    }
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} calls, {:.1} s",
        prop,
        if thorough { "thorough" } else { "quick" },
        runs,
        dig.len(),
        sum(&|s| s.calls),
        t0.elapsed().as_secs_f64()
    );
    for (m, f) in &violations {
        println!("  {}", m);
        println!("VIOLATION property={} replay={}", prop, f);
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}
/// the second phase adds what it did to the evidence of the first
fn conclude_deep(prop: &str, stats: &[&'static mut Stats], total: u64, secs: f64, thorough: bool, known: &[Known], violations: &[(String, String)]) -> i32 {
    let sum = |f: &dyn Fn(&Stats) -> u64| -> u64 { stats.iter().map(|s| f(s)).sum() };
    let mut dig: HashSet<u64> = HashSet::new();
    for s in stats {
        dig.extend(&s.dig[..s.ndig as usize]);
    }
    let faults: Vec<(&str, J)> = fault::NAMES.iter().enumerate().map(|(k, n)| (*n, sum(&|s| s.faults[k]))).filter(|x| x.1 > 0).map(|x| (x.0, x.1.into())).collect();
    let part = obj(vec![
        ("build", "all of mazth from /repo's working tree, optimised, with callbacks at control-flow edges only".into()),
        ("runs", sum(&|s| s.runs).into()),
        ("runs_planned", total.into()),
        ("distinct_nontrivial", dig.len().into()),
        ("runs_per_hour", ((sum(&|s| s.runs) as f64 / secs.max(0.001) * 3600.0) as u64).into()),
        ("calls_made", sum(&|s| s.calls).into()),
        ("reference_runs_in_pristine_processes", sum(&|s| s.bases).into()),
        ("faults_injected", obj(faults)),
        ("repeated_to_check_determinism", sum(&|s| s.rerun).into()),
        ("repetitions_that_differed", sum(&|s| s.mismatch).into()),
        ("wall_s", secs.into()),
    ]);
    let f = root().join("evidence").join(format!("{}.json", prop));
    let Some(mut ev) = std::fs::read_to_string(&f).ok().and_then(|t| J::parse(&t)) else { die("the evidence of the first phase is missing") };
    if let J::Obj(v) = &mut ev {
        for (k, x) in v.iter_mut() {
            match (k.as_str(), x) {
                ("coverage", J::Obj(c)) => {
                    let add = [("evaluations", sum(&|s| s.runs)), ("distinct_nontrivial", dig.len() as u64), ("calls_made", sum(&|s| s.calls))];
                    for (n, y) in c.iter_mut() {
                        if let Some(a) = add.iter().find(|a| a.0 == n) {
                            *y = (y.u() + a.1).into();
                        }
                    }
                    c.push(("long_histories".into(), part.clone()));
                }
                ("wall_s", y) => *y = (y.f() + secs).into(),
                ("violations", y) => *y = (y.u() + violations.len() as u64).into(),
                _ => {}
            }
        }
    }
    if let Err(e) = std::fs::write(&f, ev.text()) {
        die(&format!("cannot write evidence: {}", e));
    }
    for (k, f) in known.iter().enumerate() {
        let n = sum(&|s| s.known[k.min(31)]);
        if f.prop == prop && n > 0 {
            println!("KNOWN-FINDING: property={} {} (seen {} times)", prop, f.text, n);
        }
    }
    println!(
        "{} {}, long histories: {} runs, {} distinct non-trivial, {} calls, {:.1} s",
        prop,
        if thorough { "thorough" } else { "quick" },
        sum(&|s| s.runs),
        dig.len(),
        sum(&|s| s.calls),
        secs
    );
    for (m, f) in violations {
        println!("  {}", m);
        println!("VIOLATION property={} replay={}", prop, f);
    }
    !violations.is_empty() as i32
}
struct Compact<'a>(&'a Plan, &'a [OpDef]);
impl<'a> Compact<'a> {
    fn json(&self, i: u64) -> J {
        let mut p = self.0.clone();
        // long runs are cut for the sample
        for t in &mut p.tasks {
            t.truncate(4);
        }
        p.objs.truncate(10);
        p.evs.truncate(20);
        obj(vec![("run_index", i.into()), ("plan", to_json(&p, self.1).line().into())])
    }
}
fn replay(file: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else { die("cannot read the replay file") };
    let Some(j) = J::parse(&t) else { die("not a replay file") };
    let prop = j.get("property").s().to_string();
    if j.get("probe").b() {
        let bad: Vec<String> = traits_probe::probe().iter().rev().skip(2).filter(|x| !(x.2 && x.3)).map(|x| x.0.to_string()).collect();
        println!("types that are not movable and shareable: {:?}", bad);
        if !bad.is_empty() {
            println!("VIOLATION property={} replay={}", prop, file);
            return 1;
        }
        return 0;
    }
    let mut sim = Sim::new();
    let Some(p) = from_json(j.get("plan"), &sim.defs) else { die("the plan in the replay file does not fit") };
    if let Some(c) = mzrt::cpus().first() {
        mzrt::pin(*c);
    }
    match sim.evaluate(&p) {
        (Judgement::Violation(m), Some(r)) => {
            let same = m == j.get("violation").s() && format!("{:016x}", r.digest()) == j.get("digest").s();
            println!("{}", m);
            println!("digest {:016x}, {} switches, {} steps; {}", r.digest(), r.switches, r.steps, if same { "exactly as recorded" } else { "NOT as recorded" });
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        (Judgement::Harness(m), _) => die(&m),
        (Judgement::Skip, _) => die("a reference run does not end"),
        _ => {
            println!("no violation of {}", prop);
            0
        }
    }
}
fn main() {
    if !mzrt::aslr_off() && std::env::var("MZSIM_REEXEC").is_err() {
        use std::os::unix::process::CommandExt;
        mzrt::large_stack();
        let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("MZSIM_REEXEC", "1").exec();
        eprintln!("mzsim: could not restart: {}", e);
    }
    mzrt::watch_counter();
    mzrt::init_arena();
    mzrt::remember_main();
    mzrt::install_oom_hook();
    dict::load(&root());
    let debug = std::env::var("MZSIM_DEBUG").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        exec::HOOKED.fetch_add(1, Relaxed);
        mzops::in_hook();
        if debug || !exec::quiet() {
            eprintln!("{}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let rc = match s(1) {
        "check" => check(s(2), false),
        "deep" => check(s(2), true),
        "replay" => replay(s(2)),
        "run" => {
            let mut sim = Sim::new();
            let gen = Gen { ops: Ops::new(&sim.defs), deep: if std::env::var("MZSIM_DEEP").is_ok() { Some(false) } else { None } };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let p = gen.plan(&mut sim, s(2), seed, s(3).parse().unwrap_or(0));
            println!("{}", to_json(&p, &sim.defs).text());
            match sim.evaluate(&p) {
                (Judgement::Ok, Some(r)) => println!("ok digest {:016x} steps {} pts {} switches {}", r.digest(), r.steps, r.pts, r.switches),
                (Judgement::Violation(m), _) => println!("violation: {}", m),
                (Judgement::Harness(m), _) => println!("harness: {}", m),
                _ => println!("skipped"),
            }
            0
        }
        "ops" => {
            for d in table() {
                println!("{} {} {} {:?} part {} {}", d.name, ty_name(d.ta), ty_name(d.tb), d.grp, d.part, d.inplace);
            }
            0
        }
        _ => die("usage: mzsim check PROP | replay FILE | run PROP INDEX | ops"),
    };
    std::process::exit(rc);
}
