mod exec;
mod gen;
mod oracle;
mod shrink;
mod sim;

use simrt::{gram, model, rng, rt, scen};
use rt::{Shm, C, COUNTER_NAMES};
use sim::{Judged, Stats};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[global_allocator]
static GLOBAL: rt::Alloc = rt::Alloc;

const PROPS: [&str; 20] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22"];

fn new_shm() -> *mut Shm {
    rt::shared_mem(std::mem::size_of::<Shm>()) as *mut Shm
}

/// Simulated runs of the quick tier; thorough multiplies.
fn runs(prop: &str) -> u64 {
    match prop {
        "C14" | "C15" => 16_000,
        "C16" => 20_000,
        "C18" => 24_000,
        "C21" => 6_000,
        "C01" | "C02" | "C03" | "C04" | "C17" => 100_000,
        _ => 40_000,
    }
}

const KEEP: usize = 1 << 20;
#[repr(C)]
struct Worker {
    runs: u64,
    skipped: u64,
    forks: u64,
    steps: u64,
    points: u64,
    sim_ns: u64,
    ctr: [u64; C::N_ as usize],
    n: u64,
    trace: [u64; KEEP],
    order: [u64; KEEP],
    flags: [u8; KEEP], // non-trivial
    broken: [u8; 512],
    broken_len: u64,
}
#[repr(C)]
struct Control {
    bad: AtomicU64,    // lowest violating index
    broken: AtomicU64, // harness errors
    stop: AtomicU64,
}

fn confirm(path: &str) -> i32 {
    let e = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(path).stdout(std::process::Stdio::null()).status();
    e.ok().and_then(|s| s.code()).unwrap_or(-1)
}

fn check(prop: &str) -> i32 {
    let env = |k: &str| std::env::var(k).ok();
    let root = env("VERIF_ROOT").unwrap_or("/verif".into());
    let tier = if env("VERIF_TIER").as_deref() == Some("thorough") { "thorough" } else { "quick" };
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let nw: usize = env("SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(8));
    let n: u64 = env("SIM_RUNS").and_then(|s| s.parse().ok()).unwrap_or(runs(prop) * if tier == "thorough" { 60 } else { 1 });
    let cap: u64 = env("SIM_WALL").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 720 } else { 60 });
    println!("property {} tier {} seed {} runs {} workers {}", prop, tier, seed, n, nw);
    let t0 = Instant::now();
    let ctl = unsafe { &*(rt::shared_mem(std::mem::size_of::<Control>()) as *const Control) };
    ctl.bad.store(u64::MAX, SeqCst);
    let mut ws: Vec<*mut Worker> = vec![];
    let mut pids = vec![];
    for w in 0..nw {
        let wk = rt::shared_mem(std::mem::size_of::<Worker>()) as *mut Worker;
        let shm = new_shm();
        ws.push(wk);
        let pid = unsafe { rt::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { rt::prctl(1, 9, 0, 0, 0) };
            let work = || {
                let k = unsafe { &mut *wk };
                let mut i = w as u64;
                while i < n && i < ctl.bad.load(SeqCst) && ctl.stop.load(SeqCst) == 0 {
                    if t0.elapsed().as_secs() > cap {
                        break;
                    }
                    let sc = gen::scenario(prop, seed, i);
                    let mut st = Stats::new();
                    let j = sim::judge(shm, &sc, &mut st, false);
                    k.runs += 1;
                    k.forks += st.forks;
                    k.steps += st.steps;
                    k.points += st.points;
                    k.sim_ns += st.sim_ns;
                    for c in 0..C::N_ as usize {
                        k.ctr[c] += st.ctr[c];
                    }
                    if (k.n as usize) < KEEP {
                        k.trace[k.n as usize] = st.trace;
                        k.order[k.n as usize] = st.order;
                        k.flags[k.n as usize] = st.nontrivial as u8;
                        k.n += 1;
                    }
                    match j {
                        Judged::Fine => {}
                        Judged::Skipped => k.skipped += 1,
                        Judged::Bad(..) => {
                            ctl.bad.fetch_min(i, SeqCst);
                        }
                        Judged::Broken(m) => {
                            ctl.broken.fetch_add(1, SeqCst);
                            ctl.stop.store(1, SeqCst);
                            let m = format!("run {}: {}", i, m);
                            let l = m.len().min(512);
                            k.broken[..l].copy_from_slice(&m.as_bytes()[..l]);
                            k.broken_len = l as u64;
                        }
                    }
                    i += nw as u64;
                }
            };
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(work)).is_ok();
            unsafe { rt::_exit(if ok { 0 } else { 3 }) };
        }
        pids.push(pid);
    }
    let mut failed_workers = 0;
    for p in pids {
        let mut s = 0;
        while unsafe { rt::waitpid(p, &mut s, 0) } < 0 {}
        if s != 0 {
            failed_workers += 1;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let bad = ctl.bad.load(SeqCst);
    let done: u64 = ws.iter().map(|w| unsafe { (**w).runs }).sum();
    if bad == u64::MAX && done < n && search_s < cap as f64 && failed_workers == 0 && ctl.broken.load(SeqCst) == 0 {
        eprintln!("ERROR only {} of {} runs were made", done, n);
        return 2;
    }
    if bad == u64::MAX && (ctl.broken.load(SeqCst) > 0 || failed_workers > 0) {
        for w in &ws {
            let k = unsafe { &**w };
            if k.broken_len > 0 {
                eprintln!("ERROR {}", String::from_utf8_lossy(&k.broken[..k.broken_len as usize]));
            }
        }
        eprintln!("ERROR the harness failed ({} workers died)", failed_workers);
        return 2;
    }
    // is one seed one execution? the same indices again, in other processes
    let shm = new_shm();
    let (mut again, mut differ) = (0, 0);
    if bad == u64::MAX {
        for s in 0..24u64 {
            let i = rng::derive(seed, 0xD0 + s) % n;
            let (w, pos) = ((i % nw as u64) as usize, (i / nw as u64) as usize);
            let k = unsafe { &*ws[w] };
            if pos < k.n as usize {
                let mut st = Stats::new();
                sim::judge(shm, &gen::scenario(prop, seed, i), &mut st, false);
                again += 1;
                if st.trace != k.trace[pos] {
                    differ += 1;
                }
            }
        }
        if differ > 0 {
            println!("WARNING {} of {} repeated runs did not repeat exactly", differ, again);
        }
    }
    let mut code = 0;
    let mut violation = None;
    if bad != u64::MAX {
        let sc = gen::scenario(prop, seed, bad);
        let mut st = Stats::new();
        let (class, msg) = match sim::judge(shm, &sc, &mut st, false) {
            Judged::Bad(c, m) => (c, m),
            _ => {
                eprintln!("ERROR run {} failed in the search but not when repeated", bad);
                return 2;
            }
        };
        let (small, msg) = shrink::shrink(shm, &sc, &class, &msg, 1500, 45);
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-seed{}-run{}.replay", dir, prop, seed, bad);
        let text = scen::to_text(&small, &format!("violation of {} ({})\n{}\nsearch seed {} run {}", prop, class, msg, seed, bad));
        std::fs::write(&path, &text).expect("write replay");
        let again: Vec<i32> = (0..2).map(|_| confirm(&path)).collect();
        if again != [1, 1] {
            // fall back to the scenario as generated
            let text = scen::to_text(&sc, &format!("violation of {} ({})\nnot minimised\nsearch seed {} run {}", prop, class, seed, bad));
            std::fs::write(&path, &text).expect("write replay");
            if confirm(&path) != 1 {
                eprintln!("ERROR run {} does not replay", bad);
                return 2;
            }
        }
        println!("run {} (seed {}): {}\n{}\n--- minimised replay {}\n{}", bad, seed, class, msg, path, text);
        println!("VIOLATION property={} replay={}", prop, path);
        violation = Some((class, msg, path));
        code = 1;
    }
    evidence(&root, prop, tier, seed, nw, n, &ws, search_s, t0.elapsed().as_secs_f64(), again, differ, violation);
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(root: &str, prop: &str, tier: &str, seed: u64, nw: usize, planned: u64, ws: &[*mut Worker], search_s: f64, wall: f64, again: u64, differ: u64, v: Option<(String, String, String)>) {
    let mut ctr = [0u64; C::N_ as usize];
    let (mut runs, mut skipped, mut forks, mut steps, mut points, mut sim_ns) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut orders: BTreeSet<u64> = BTreeSet::new();
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    for w in ws {
        let k = unsafe { &**w };
        runs += k.runs;
        skipped += k.skipped;
        forks += k.forks;
        steps += k.steps;
        points += k.points;
        sim_ns += k.sim_ns;
        for c in 0..C::N_ as usize {
            ctr[c] += k.ctr[c];
        }
        for i in 0..k.n as usize {
            traces.insert(k.trace[i]);
            if k.order[i] != 0 {
                orders.insert(k.order[i]);
            }
            if k.flags[i] == 1 {
                nontrivial.insert(k.trace[i]);
            }
        }
    }
    if v.is_none() && runs >= 2000 {
        let panics = ["f_panic_symbol_clone", "f_panic_symbol_eq", "f_panic_symbol_hash", "f_panic_lexeme_clone", "f_panic_source", "f_panic_solver"];
        let damage = ["f_source_cut", "f_source_loss", "f_source_dup", "f_source_reorder", "f_source_corrupt", "f_source_unknown"];
        let answers = ["f_solver_refusal", "f_solver_repair", "f_solver_repair_past_end"];
        let reentrant = ["f_reentrant_from_source", "f_reentrant_from_solver"];
        let expected: Vec<&str> = match prop {
            "C14" | "C18" | "C21" => [&panics[..], &damage[..], &reentrant[..]].concat(),
            "C15" => [&damage[..], &reentrant[..], &answers[..]].concat(),
            "C10" => ["f_source_nonfused", "f_source_odd_hint", "f_caller_slow"].to_vec(),
            "C09" | "C05" | "C07" | "C08" => damage.to_vec(),
            "C12" | "C13" => answers.to_vec(),
            "C22" => [&damage[..], &["f_reentrant_from_source", "r_supplied_sets"]].concat(),
            "C16" => ["f_hash_collisions", "f_addresses_scattered", "f_caller_slow"].to_vec(),
            _ => vec![],
        };
        for e in expected {
            match COUNTER_NAMES.iter().position(|n| *n == e) {
                Some(i) if ctr[i] > 0 => {}
                _ => println!("WARNING the fault {} was never injected", &e[2..]),
            }
        }
    }
    let map = |pre: &str, strip: bool| {
        let mut o = String::from("{");
        let mut first = true;
        for (i, n) in COUNTER_NAMES.iter().enumerate() {
            if n.starts_with(pre) && (pre != "" || !n.starts_with("f_") && !n.starts_with("r_")) {
                if !first {
                    o.push_str(", ");
                }
                first = false;
                let _ = write!(o, "{}: {}", js(if strip { &n[2..] } else { n }), ctr[i]);
            }
        }
        o.push('}');
        o
    };
    let mut samples = String::from("[");
    for (k, i) in [0u64, runs / 2, runs.saturating_sub(1)].iter().enumerate() {
        if k > 0 {
            samples.push_str(", ");
        }
        let mut t = scen::to_text(&gen::scenario(prop, seed, *i), "");
        if t.len() > 1500 {
            t.truncate(1500);
            t.push_str("...");
        }
        samples.push_str(&js(&t));
    }
    samples.push(']');
    let rate = if search_s > 0.0 { runs as f64 * 3600.0 / search_s } else { 0.0 };
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",", js(prop), js(tier), seed);
    let _ = writeln!(o, " \"coverage\": {{");
    let _ = writeln!(o, "  \"evaluations\": {}, \"distinct_nontrivial\": {},", runs, nontrivial.len());
    let _ = writeln!(o, "  \"rule\": {},", js("one evaluation is one simulated run: a scenario (grammars, parsers, operations, token streams, faults, tasks, hash seed, schedule) made from (VERIF_SEED, run number) alone and executed in its own forked process under the simulator. Runs are distinct when the hash of the whole sequence of caller-code callbacks, task switches and non-terminal visiting orders differs; non-trivial when the oracle judged at least one operation of the run that entered the library and called back."));
    let _ = writeln!(o, "  \"samples\": {},", samples);
    let _ = writeln!(o, "  \"planned_runs\": {}, \"runs_skipped_by_precondition\": {}, \"processes_simulated\": {}, \"workers\": {},", planned, skipped, forks, nw);
    let _ = writeln!(o, "  \"runs_per_hour\": {:.0}, \"seeds_per_hour\": {:.0},", rate, rate);
    let _ = writeln!(o, "  \"simulated_steps\": {}, \"simulated_time\": {}, \"callback_points\": {},", steps, js(&format!("{:.1} hours on the simulated clock (which the library has not been seen to read: see clock_reads), passed in {} steps (callbacks into caller code, allocations, yields)", sim_ns as f64 / 3.6e12, steps)), points);
    let _ = writeln!(o, "  \"distinct_execution_traces\": {}, \"distinct_visiting_orders\": {},", traces.len(), orders.len());
    let _ = writeln!(o, "  \"faults_injected\": {},", map("f_", true));
    let _ = writeln!(o, "  \"rare_conditions_reached\": {},", map("r_", true));
    let _ = writeln!(o, "  \"counts\": {},", map("", false));
    let _ = writeln!(o, "  \"determinism\": {{\"runs_repeated_in_other_processes\": {}, \"not_identical\": {}}},", again, differ);
    let _ = writeln!(o, "  \"real_components\": [\"all of artlr_syntax, compiled from /repo's working tree\", \"std collections, RandomState hashing, locks and allocator\"],");
    let _ = writeln!(o, "  \"stubbed_components\": [\"token source, error solver, symbol and lexeme types (caller code)\", \"getrandom\", \"clock_gettime\", \"getpid, sched_getaffinity, getenv\", \"pthread_create and pthread_join, where the library calls them\", \"choice between two addresses at each small allocation, in half of the runs\", \"futex wait/wake, sched_yield, nanosleep\", \"choice of the running thread\"]");
    let _ = writeln!(o, " }},");
    let _ = writeln!(o, " \"assumptions\": [\"sampling, not enumeration: a clean batch is evidence, not proof\", \"preemption happens at callbacks into caller code, allocations and lock waits; for C14, C15 and C18 also at every basic block and memory access of the library; memory is sequentially consistent\", \"grammars up to 40 non-terminals (a few of 60 to 270), a few with some 300 alternatives or outputs of some 250 symbols; streams up to 1500 tokens (a few up to some 65000); at most 4 tasks (a few runs up to 16)\", \"the reference model and the independent grammar facts in /verif/sim/src are right\"],");
    if let Some((c, m, p)) = &v {
        let _ = writeln!(o, " \"violation\": {{\"class\": {}, \"what\": {}, \"replay\": {}}},", js(c), js(m), js(p));
    }
    let _ = writeln!(o, " \"wall_s\": {:.2}, \"violations\": {}\n}}", wall, v.is_some() as u32);
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop), o).expect("write evidence");
    println!(
        "{} runs ({} distinct non-trivial) in {:.1}s; {} operations judged; repeated {} runs, {} differed",
        runs,
        nontrivial.len(),
        wall,
        ctr[C::ops_judged as usize],
        again,
        differ
    );
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("ERROR {}: {}", path, e);
            return 2;
        }
    };
    let sc = match scen::from_text(&t) {
        Some(s) => s,
        None => {
            eprintln!("ERROR {} is not a replay file", path);
            return 2;
        }
    };
    let shm = new_shm();
    let mut st = Stats::new();
    let j = sim::judge(shm, &sc, &mut st, true);
    print!("{}", sim::text_of(shm));
    println!("trace {:016x} steps {}", st.trace, st.steps);
    match j {
        Judged::Bad(c, m) => {
            println!("{}\n{}", c, m);
            println!("VIOLATION property={} replay={}", sc.prop, path);
            1
        }
        Judged::Fine => {
            println!("held");
            0
        }
        Judged::Skipped => {
            println!("held (vacuously)");
            0
        }
        Judged::Broken(m) => {
            eprintln!("ERROR {}", m);
            2
        }
    }
}

fn main() {
    rt::fixed_addresses();
    // trees are as deep as streams are long
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).expect("spawn");
    std::process::exit(t.join().unwrap_or(2));
}
fn real_main() -> i32 {
    rt::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(1) {
        "check" if PROPS.contains(&arg(2)) => check(arg(2)),
        "replay" => replay(arg(2)),
        "show" => {
            print!("{}", scen::to_text(&gen::scenario(arg(2), num(3), num(4)), ""));
            0
        }
        // trace of every run of a range, for comparing processes and worker counts
        "traces" => {
            let shm = new_shm();
            for i in num(4)..num(5) {
                let sc = gen::scenario(arg(2), num(3), i);
                let rt_ok = scen::from_text(&scen::to_text(&sc, "x")).as_ref() == Some(&sc);
                let mut st = Stats::new();
                let j = match sim::judge(shm, &sc, &mut st, false) {
                    Judged::Fine => "fine".to_string(),
                    Judged::Skipped => "skipped".to_string(),
                    Judged::Bad(c, m) => format!("bad {} {}", c, m.replace('\n', " ")),
                    Judged::Broken(m) => format!("broken {}", m),
                };
                println!("{} {} {:016x} {:016x} {} {} text={} wf={}", arg(2), i, st.trace, st.order, st.steps, j, rt_ok, sim::well_formed(&sc));
            }
            0
        }
        _ => {
            eprintln!("usage: sim check C01..C18 C21 C22 | replay FILE | show PROP SEED RUN | traces PROP SEED FROM TO");
            2
        }
    };
    code
}
