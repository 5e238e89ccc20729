//! One run: the scenario in a forked process, its reference runs in others, and the verdict.
use crate::exec::{self, BOOT};
use crate::gen::FRACTION;
use crate::model::{self, Ans};
use crate::oracle;
use crate::rng::{derive, Fnv};
use crate::rt::*;
use crate::scen::*;

pub enum Judged {
    Fine,
    Skipped,
    Bad(String, String),
    Broken(String), // of the harness
}
pub struct Stats {
    pub ctr: [u64; C::N_ as usize],
    pub steps: u64,
    pub points: u64,
    pub sim_ns: u64,
    pub forks: u64,
    pub trace: u64,
    pub order: u64,
    pub nontrivial: bool,
}
impl Stats {
    pub fn new() -> Self {
        Stats { ctr: [0; C::N_ as usize], steps: 0, points: 0, sim_ns: 0, forks: 0, trace: 0, order: 0, nontrivial: false }
    }
}

fn status_name(s: u32) -> &'static str {
    match s {
        ST_HANG => "did not end within its work bound",
        ST_DEADLOCK => "waits forever (every task is blocked)",
        ST_ABORT => "killed the process",
        ST_CPU => "did not end (CPU limit)",
        _ => "?",
    }
}
/// Forks, executes, and (in the child) runs `judge`.
fn go(shm: *mut Shm, sc: &Scenario, st: &mut Stats, main: bool, judge: bool, text: bool) -> u32 {
    let s = forked(shm, || {
        exec::execute(shm, sc);
        if text {
            let mut t = String::new();
            for (i, o) in exec::world().out.iter().enumerate() {
                t.push_str(&format!("op {}: {}\n", i, o.describe()));
                if !o.log.is_empty() {
                    t.push_str(&format!("  asked {}\n", o.log_text()));
                }
            }
            let r = crate::rt::shm();
            let b = t.as_bytes();
            let n = b.len().min(r.text.len());
            r.text[..n].copy_from_slice(&b[..n]);
            r.text_len = n as u32;
        }
        if judge {
            oracle::judge_here();
        }
    });
    let r = unsafe { &*shm };
    for k in 0..C::N_ as usize {
        st.ctr[k] += r.ctr[k];
    }
    st.steps += r.steps;
    st.points += r.points;
    st.sim_ns += r.sim_ns;
    st.forks += 1;
    if main {
        let mut h = Fnv::new();
        h.add(r.trace);
        h.add(r.order);
        st.trace = h.0;
        st.order = r.order;
        st.nontrivial = r.ctr[C::ops_executed as usize] > r.ctr[C::vacuous_ops as usize] && r.points > 0;
    }
    s
}
pub fn text_of(shm: *mut Shm) -> String {
    let r = unsafe { &*shm };
    String::from_utf8_lossy(&r.text[..r.text_len as usize]).into_owned()
}
fn viol(shm: *mut Shm) -> (String, String) {
    let r = unsafe { &*shm };
    let t = String::from_utf8_lossy(&r.viol[..r.viol_len as usize]).into_owned();
    match t.split_once('\n') {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => (t, String::new()),
    }
}
pub fn switches(shm: *mut Shm) -> Vec<(u64, u32)> {
    let r = unsafe { &*shm };
    r.sw[..r.nsw as usize].to_vec()
}

/// Is every op something the properties speak of, and small enough for the model?
pub fn well_formed(sc: &Scenario) -> bool {
    if sc.tasks.is_empty() || sc.tasks.len() > MAXCALLERS || sc.ops.len() > MAXOPS {
        return false;
    }
    let known: Vec<_> = sc.grammars.iter().map(exec::know).collect();
    for g in 0..sc.grammars.len() {
        let builds_only = sc.prop == "C04";
        if !builds_only && known[g].is_none() || !oracle::unknown_is_unused(&sc.grammars[g]) {
            return false;
        }
    }
    let mut used = vec![0; sc.ops.len()];
    for t in &sc.tasks {
        for o in t {
            used[*o] += 1;
        }
    }
    for op in &sc.ops {
        if let What::Parse(p) = &op.what {
            let g = sc.grammar_of(&p.p);
            let k = match &known[g] {
                Some(k) => k,
                None => return false,
            };
            if p.toks.is_empty() || k.facts.left_recursive {
                return false;
            }
            // within the bound whatever part of the script is in force
            let script = exec::script_of(sc, p);
            if model::parse(&k.facts, &k.table, sc.grammars[g].init, &p.toks, script, exec::model_cap(p.toks.len())).is_err() {
                return false;
            }
            for (_, o) in p.src.reent.iter().chain(&p.sreent) {
                used[*o] += 1;
            }
        }
    }
    used.iter().all(|u| *u == 1)
}

#[derive(Clone, Copy)]
struct Solo {
    status: u32,
    done: bool,
    res: u64,
    log: u64,
    kinds: [u32; NKIND],
}
fn solo(shm: *mut Shm, sc: &Scenario, i: usize, st: &mut Stats) -> Solo {
    let status = go(shm, &sc.solo(i), st, false, false, false);
    let r = unsafe { &(*shm).op[i] };
    Solo { status, done: r.done == 1, res: r.res, log: r.log, kinds: r.kinds }
}
/// Turns crash positions given as fractions into counts of the op's own callbacks.
pub fn resolve(shm: *mut Shm, sc: &Scenario, st: &mut Stats) -> Result<Scenario, u32> {
    let mut s = sc.clone();
    for i in 0..s.ops.len() {
        if let Some((m, k)) = s.ops[i].crash {
            if k >= FRACTION {
                let x = solo(shm, sc, i, st);
                if x.status != ST_DONE || !x.done {
                    return Err(x.status);
                }
                let total: u64 = (0..NKIND).filter(|j| m & (1 << j) != 0).map(|j| x.kinds[j] as u64).sum();
                s.ops[i].crash = if total == 0 { None } else { Some((m, 1 + (k - FRACTION) * total / 65536)) };
            }
        }
    }
    Ok(s)
}
fn harness(shm: *mut Shm, what: &str) -> Judged {
    let _ = shm;
    Judged::Broken(format!("the harness itself failed ({})", what))
}
fn is_parse(sc: &Scenario, i: usize) -> bool {
    matches!(sc.ops.get(i).map(|o| &o.what), Some(What::Parse(_)))
}
fn with_solver(sc: &Scenario, i: usize) -> bool {
    match &sc.ops[i].what {
        What::Parse(p) => sc.ctor_of(&p.p) == Ctor::Solver,
        _ => false,
    }
}

/// Runs and judges a scenario; `st` takes the counts. With `text`, the outcomes are left in the record.
pub fn judge(shm: *mut Shm, sc: &Scenario, st: &mut Stats, text: bool) -> Judged {
    let prop = sc.prop.as_str();
    match prop {
        "C14" | "C15" => return against_solos(shm, sc, st, text),
        "C16" => return variants(shm, sc, st, text),
        "C21" => return growth(shm, sc, st, text),
        _ => {}
    }
    let sc = &match resolve(shm, sc, st) {
        Ok(s) => s,
        Err(ST_HARNESS) => return harness(shm, "crash position"),
        Err(_) => return Judged::Skipped,
    };
    let status = go(shm, sc, st, true, true, text);
    let (culprit, stage, signal) = unsafe { ((*shm).culprit, (*shm).stage, (*shm).signal) };
    match status {
        ST_DONE => Judged::Fine,
        ST_VIOL => {
            let (c, m) = viol(shm);
            Judged::Bad(c, m)
        }
        ST_HANG | ST_ABORT | ST_CPU | ST_DEADLOCK => {
            let c = culprit as usize;
            let boot = culprit >= BOOT;
            let blame = match prop {
                "C17" => boot || !is_parse(sc, c),
                "C01" | "C02" => !boot && stage == 1,
                "C03" => !boot && stage >= 2,
                "C04" => true,
                "C06" | "C07" | "C09" => !boot && is_parse(sc, c),
                "C22" => match sc.ops.get(c).map(|o| &o.what) {
                    Some(What::Supply(..)) => true,
                    Some(What::Parse(p)) => matches!(sc.ctor_of(&p.p), Ctor::Supplied(_)),
                    _ => boot && sc.prop == "C22" && !sc.parsers.is_empty(),
                },
                "C12" => !boot && is_parse(sc, c) && with_solver(sc, c),
                "C13" => {
                    // only if a repair was in play
                    !boot && is_parse(sc, c) && with_solver(sc, c) && match &sc.ops[c].what {
                        What::Parse(p) => p.script.iter().any(|a| matches!(a, Ans::Fix(..))),
                        _ => false,
                    }
                }
                "C11" => {
                    // the same parse without a solver ends
                    match sc.pairs.iter().find(|p| p.1 == c) {
                        Some((plain, _)) if !boot => solo(shm, sc, *plain, st).status == ST_DONE,
                        _ => false,
                    }
                }
                _ => false,
            };
            let what = if boot { format!("setting up grammar {}", culprit - BOOT) } else { format!("op {}", c) };
            if blame {
                Judged::Bad(format!("no-result-{}", status), format!("{} {} (signal {})", what, status_name(status), signal))
            } else {
                Judged::Skipped
            }
        }
        _ => harness(shm, "main run"),
    }
}

fn against_solos(shm: *mut Shm, sc: &Scenario, st: &mut Stats, text: bool) -> Judged {
    let sc = &match resolve(shm, sc, st) {
        Ok(s) => s,
        Err(ST_HARNESS) => return harness(shm, "crash position"),
        Err(_) => return Judged::Skipped,
    };
    let mut solos = vec![];
    for i in 0..sc.ops.len() {
        let x = solo(shm, sc, i, st);
        if x.status == ST_HARNESS {
            return harness(shm, "solo run");
        }
        if x.status != ST_DONE || !x.done {
            return Judged::Skipped; // what runs alone is not this property's business
        }
        solos.push(x);
    }
    let status = go(shm, sc, st, true, false, text);
    let r = unsafe { &*shm };
    match status {
        ST_DONE => {}
        ST_HARNESS => return harness(shm, "main run"),
        _ => {
            return Judged::Bad(
                format!("no-result-{}", status),
                format!("op {} {} (signal {}), though every operation alone ends", r.culprit, status_name(status), r.signal),
            )
        }
    }
    let mut bad = None;
    for i in 0..sc.ops.len() {
        let o = &r.op[i];
        if o.done == 0 {
            continue;
        }
        st.ctr[C::ops_judged as usize] += 1;
        if o.fired == 1 {
            let mut h = Fnv::new();
            h.bytes(format!("unwound with the injected panic of op {}", i).as_bytes());
            if o.res != h.0 {
                bad = Some(("panic-lost".to_string(), format!("op {}: caller code panicked during it, but it did not unwind with that panic", i)));
                break;
            }
        } else if o.res != solos[i].res {
            bad = Some(("affected".to_string(), format!("op {}: not the result it gives running alone", i)));
            break;
        } else if o.log != solos[i].log {
            bad = Some(("affected".to_string(), format!("op {}: not the solver questions it asks running alone", i)));
            break;
        }
    }
    match bad {
        Some((c, m)) => Judged::Bad(c, m),
        None => Judged::Fine,
    }
}

fn variants(shm: *mut Shm, sc: &Scenario, st: &mut Stats, text: bool) -> Judged {
    let n = sc.ops.len();
    let mut base: Option<Vec<OpRec>> = None;
    let mut statuses = vec![];
    for v in 0..3u64 {
        let mut s = sc.clone();
        if v > 0 {
            s.hash_seed = derive(sc.hash_seed, v);
            s.hash_mode = if v == 1 { sc.hash_mode } else { (sc.hash_mode + 1 + (s.hash_seed % 3) as u32) % 4 };
            let big = sc.grammars.iter().any(|g| g.prods.len() > 60);
            if big {
                s.hash_mode = 0;
            }
        }
        let status = go(shm, &s, st, v == 0, true, text && v == 0);
        if status == ST_VIOL {
            let (c, m) = viol(shm);
            return Judged::Bad(c, m);
        }
        if status == ST_HARNESS {
            return harness(shm, "variant run");
        }
        statuses.push(status);
        if status != ST_DONE {
            continue;
        }
        let rec = unsafe { (&(*shm).op)[..n].to_vec() };
        match &base {
            None => base = Some(rec),
            Some(b) => {
                for i in 0..n {
                    st.ctr[C::ops_judged as usize] += 1;
                    if b[i].done == 1 && rec[i].done == 1 && (b[i].res != rec[i].res || b[i].log != rec[i].log) {
                        return Judged::Bad("hash-dependent".into(), format!("op {}: another result, or other solver questions, in a process with hash seed {} and hashing {} than with seed {} and hashing {}", i, s.hash_seed, s.hash_mode, sc.hash_seed, sc.hash_mode));
                    }
                }
            }
        }
    }
    if statuses.iter().all(|s| *s == ST_DONE) {
        return Judged::Fine;
    }
    if statuses.iter().any(|s| *s == ST_DONE) {
        let bad = statuses.iter().find(|s| **s != ST_DONE).unwrap();
        return Judged::Bad(format!("hash-dependent-{}", bad), format!("with one hash seed every operation ends, with another one {}: {:?}", status_name(*bad), statuses));
    }
    Judged::Skipped
}

/// Every operation some 30, 60, 120.. times over: the memory in use in the end must settle.
fn growth(shm: *mut Shm, sc: &Scenario, st: &mut Stats, text: bool) -> Judged {
    let sc = &match resolve(shm, sc, st) {
        Ok(s) => s,
        Err(ST_HARNESS) => return harness(shm, "crash position"),
        Err(_) => return Judged::Skipped,
    };
    // a few long operations fewer times, so that no run takes long
    let before = st.steps;
    match go(shm, sc, st, false, false, false) {
        ST_DONE => {}
        ST_HARNESS => return harness(shm, "first run"),
        _ => return Judged::Skipped,
    }
    let base = (1_000_000 / (st.steps - before + 1)).clamp(3, 30) as u32;
    let mut live: Vec<i64> = vec![];
    for k in 0..8 {
        let rounds = base << k;
        let mut s = sc.clone();
        for o in sc.tasks.iter().flatten() {
            s.ops[*o].again = rounds - 1;
        }
        match go(shm, &s, st, k == 0, false, text && k == 0) {
            ST_DONE => {}
            ST_HARNESS => return harness(shm, "main run"),
            _ => return Judged::Skipped, // whether calls end is not this property's business
        }
        live.push(unsafe { (*shm).live });
        st.ctr[C::ops_judged as usize] += sc.tasks.iter().flatten().count() as u64;
        if k > 0 && live[k] - live[k - 1] < (rounds / 2) as i64 {
            return Judged::Fine;
        }
    }
    Judged::Bad("memory-grows".into(), format!("with every operation made {}, {}, {}.. times the bytes left allocated are {:?}", base, base * 2, base * 4, live.iter().map(|l| l - live[0]).collect::<Vec<_>>()))
}
