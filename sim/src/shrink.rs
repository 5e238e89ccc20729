//! Minimises a failing scenario while it keeps failing in the same class.
use crate::gen::FRACTION;
use crate::rt::Shm;
use crate::scen::*;
use crate::sim::{self, Judged, Stats};
use std::time::{Duration, Instant};

pub struct Shrinker {
    pub shm: *mut Shm,
    pub class: String,
    pub msg: String,
    pub tries: u32,
    pub until: Instant,
}
impl Shrinker {
    /// No more tries: not even candidates need to be made.
    fn over(&self) -> bool {
        self.tries == 0 || Instant::now() > self.until
    }
    fn fails(&mut self, sc: &Scenario) -> bool {
        if self.over() || !sim::well_formed(sc) {
            return false;
        }
        self.tries -= 1;
        let mut st = Stats::new();
        match sim::judge(self.shm, sc, &mut st, false) {
            Judged::Bad(c, m) if c == self.class => {
                self.msg = m;
                true
            }
            _ => false,
        }
    }
    fn keep(&mut self, best: &mut Scenario, cand: Scenario) -> bool {
        if cand != *best && self.fails(&cand) {
            *best = cand;
            return true;
        }
        false
    }
}
fn drop_op(sc: &Scenario, i: usize) -> Scenario {
    // nested ops of the dropped one go too
    let mut gone = vec![i];
    let mut k = 0;
    while k < gone.len() {
        if let What::Parse(p) = &sc.ops[gone[k]].what {
            gone.extend(p.src.reent.iter().chain(&p.sreent).map(|x| x.1));
        }
        k += 1;
    }
    let map: Vec<Option<usize>> = {
        let mut n = 0;
        (0..sc.ops.len())
            .map(|o| {
                if gone.contains(&o) {
                    None
                } else {
                    n += 1;
                    Some(n - 1)
                }
            })
            .collect()
    };
    let mut s = sc.clone();
    s.ops = sc.ops.iter().enumerate().filter(|(o, _)| map[*o].is_some()).map(|(_, x)| x.clone()).collect();
    for op in &mut s.ops {
        if let What::Parse(p) = &mut op.what {
            for l in [&mut p.src.reent, &mut p.sreent] {
                *l = l.iter().filter_map(|(a, o)| map[*o].map(|n| (*a, n))).collect();
            }
        }
    }
    s.tasks = sc.tasks.iter().map(|t| t.iter().filter_map(|o| map[*o]).collect::<Vec<_>>()).filter(|t| !t.is_empty()).collect();
    s.pairs = sc.pairs.iter().filter_map(|(a, b)| Some((map[*a]?, map[*b]?))).collect();
    if s.tasks.len() != sc.tasks.len() {
        s.explicit = None;
    }
    s
}
/// Grammars and parsers nobody uses.
fn drop_unused(sc: &Scenario) -> Scenario {
    let mut s = sc.clone();
    let used_p: Vec<bool> = (0..s.parsers.len()).map(|i| s.ops.iter().any(|o| matches!(&o.what, What::Parse(p) if p.p == PRef::Shared(i)))).collect();
    let pm: Vec<usize> = used_p.iter().scan(0, |n, u| { let r = *n; *n += *u as usize; Some(r) }).collect();
    s.parsers = s.parsers.iter().zip(&used_p).filter(|x| *x.1).map(|x| *x.0).collect();
    for o in &mut s.ops {
        if let What::Parse(p) = &mut o.what {
            if let PRef::Shared(i) = &mut p.p {
                *i = pm[*i];
            }
        }
    }
    let used_g: Vec<bool> = (0..s.grammars.len())
        .map(|g| {
            s.parsers.iter().any(|p| p.0 == g)
                || s.ops.iter().any(|o| match &o.what {
                    What::Analyze(x) | What::Supply(x, _) | What::Build(x) => *x == g,
                    What::Parse(p) => matches!(p.p, PRef::Fresh(x, _) if x == g),
                })
        })
        .collect();
    let gm: Vec<usize> = used_g.iter().scan(0, |n, u| { let r = *n; *n += *u as usize; Some(r) }).collect();
    s.grammars = s.grammars.iter().zip(&used_g).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    for p in &mut s.parsers {
        p.0 = gm[p.0];
    }
    for o in &mut s.ops {
        match &mut o.what {
            What::Analyze(g) | What::Supply(g, _) | What::Build(g) => *g = gm[*g],
            What::Parse(p) => {
                if let PRef::Fresh(g, _) = &mut p.p {
                    *g = gm[*g];
                }
            }
        }
    }
    s
}
fn tokens(sc: &Scenario) -> Vec<Vec<crate::model::Tok>> {
    let mut v: Vec<Vec<crate::model::Tok>> = vec![];
    for o in &sc.ops {
        if let What::Parse(p) = &o.what {
            if !v.contains(&p.toks) {
                v.push(p.toks.clone());
            }
        }
    }
    v
}
fn with_tokens(sc: &Scenario, old: &[crate::model::Tok], new: &[crate::model::Tok]) -> Scenario {
    let mut s = sc.clone();
    for o in &mut s.ops {
        if let What::Parse(p) = &mut o.what {
            if p.toks == old {
                p.toks = new.to_vec();
                p.sentence = false;
            }
        }
    }
    s
}

pub fn shrink(shm: *mut Shm, start: &Scenario, class: &str, msg: &str, tries: u32, secs: u64) -> (Scenario, String) {
    let mut z = Shrinker { shm, class: class.into(), msg: msg.into(), tries, until: Instant::now() + Duration::from_secs(secs) };
    let mut best = start.clone();
    // crash positions become counts, so that edits elsewhere do not move them
    if best.ops.iter().any(|o| o.crash.map_or(false, |c| c.1 >= FRACTION)) {
        let mut st = Stats::new();
        if let Ok(s) = sim::resolve(shm, &best, &mut st) {
            z.keep(&mut best, s);
        }
    }
    for _round in 0..4 {
        let before = best.clone();
        // fewer operations
        let mut i = best.ops.len();
        while i > 0 {
            i -= 1;
            if i < best.ops.len() && best.ops.len() > 1 {
                let c = drop_op(&best, i);
                if !c.ops.is_empty() {
                    z.keep(&mut best, c);
                }
            }
        }
        let c = drop_unused(&best);
        z.keep(&mut best, c);
        // one task, plain hashing, no preemption
        if best.tasks.len() > 1 {
            let mut c = best.clone();
            c.tasks = vec![best.tasks.iter().flatten().copied().collect()];
            c.explicit = None;
            if !z.keep(&mut best, c) && best.tasks.len() > 2 {
                for k in 1..best.tasks.len() {
                    let mut c = best.clone();
                    if k >= c.tasks.len() {
                        break;
                    }
                    let t = c.tasks.remove(k);
                    c.tasks[0].extend(t);
                    c.explicit = None;
                    z.keep(&mut best, c);
                }
            }
        }
        for (mode, prob) in [(0, 0), (0, best.sched_prob), (best.hash_mode, 0)] {
            let mut c = best.clone();
            c.hash_mode = mode;
            c.sched_prob = prob;
            z.keep(&mut best, c);
        }
        if best.explicit.is_none() && best.sched_gap > 0 {
            let mut c = best.clone();
            c.sched_gap = 0;
            z.keep(&mut best, c);
        }
        // simpler operations
        for i in 0..best.ops.len() {
            let mut c = best.clone();
            c.ops[i].crash = None;
            z.keep(&mut best, c);
            let mut c = best.clone();
            c.ops[i].own = false;
            z.keep(&mut best, c);
            let n = best.ops[i].again;
            for m in [0, 1, n / 16, n / 4, n / 2, n.saturating_sub(1)] {
                if m < n {
                    let mut c = best.clone();
                    c.ops[i].again = m;
                    if z.keep(&mut best, c) {
                        break;
                    }
                }
            }
            if let What::Parse(p) = best.ops[i].what.clone() {
                for e in 0..5 {
                    let mut q = p.clone();
                    match e {
                        0 => q.src.hint = 0,
                        1 => q.src.extra.truncate(1),
                        2 => q.src.extra.clear(),
                        3 => q.src.damage = [0; 6],
                        _ => {
                            q.script.pop();
                        }
                    }
                    let mut c = best.clone();
                    // keep what earlier edits of this loop achieved
                    if let What::Parse(now) = &mut c.ops[i].what {
                        match e {
                            0 => now.src.hint = q.src.hint,
                            1 | 2 => now.src.extra = if e == 1 { now.src.extra.iter().take(1).copied().collect() } else { vec![] },
                            3 => now.src.damage = q.src.damage,
                            _ => {
                                now.script.pop();
                            }
                        }
                    }
                    z.keep(&mut best, c);
                }
            }
        }
        // smaller grammars, alike where they are alike
        let mut seen: Vec<crate::gram::Spec> = vec![];
        for g in 0..best.grammars.len() {
            let spec = best.grammars[g].clone();
            if seen.contains(&spec) {
                continue;
            }
            let mut cur = spec.clone();
            let put = |b: &Scenario, old: &crate::gram::Spec, new: &crate::gram::Spec| {
                let mut c = b.clone();
                for x in &mut c.grammars {
                    if x == old {
                        *x = new.clone();
                    }
                }
                c
            };
            let mut chunk = (cur.prods.len() / 2).max(1);
            loop {
                let mut k = 0;
                while k < cur.prods.len() && !z.over() {
                    let mut n = cur.clone();
                    n.prods.drain(k..(k + chunk).min(n.prods.len()));
                    if z.keep_put(&mut best, put, &cur, &n) {
                        cur = n;
                    } else {
                        k += chunk;
                    }
                }
                if chunk == 1 || z.over() {
                    break;
                }
                chunk /= 2;
            }
            for k in 0..cur.prods.len() {
                let mut j = 0;
                while k < cur.prods.len() && j < cur.prods[k].1.len() && !z.over() {
                    let mut n = cur.clone();
                    n.prods[k].1.remove(j);
                    if z.keep_put(&mut best, put, &cur, &n) {
                        cur = n;
                    } else {
                        j += 1;
                    }
                }
            }
            seen.push(cur);
        }
        // shorter streams
        for old in tokens(&best) {
            let mut cur = old;
            let mut chunk = (cur.len() / 2).max(1);
            loop {
                let mut k = 0;
                while k < cur.len() && !z.over() {
                    let mut n = cur.clone();
                    n.drain(k..(k + chunk).min(n.len()));
                    if n.is_empty() {
                        break;
                    }
                    let c = with_tokens(&best, &cur, &n);
                    if z.keep(&mut best, c) {
                        cur = n;
                    } else {
                        k += chunk;
                    }
                }
                if chunk == 1 || z.over() {
                    break;
                }
                chunk /= 2;
            }
        }
        // the schedule as an explicit, minimal list of switches
        if best.tasks.len() > 1 {
            if best.explicit.is_none() {
                let mut st = Stats::new();
                sim::judge(shm, &best, &mut st, false);
                let sw = sim::switches(shm);
                let mut c = best.clone();
                c.explicit = Some(sw);
                z.keep(&mut best, c);
            }
            if let Some(x) = best.explicit.clone() {
                let mut cur = x;
                let mut chunk = (cur.len() / 2).max(1);
                loop {
                    let mut k = 0;
                    while k < cur.len() && !z.over() {
                        let mut n = cur.clone();
                        n.drain(k..(k + chunk).min(n.len()));
                        let mut c = best.clone();
                        c.explicit = Some(n.clone());
                        if z.keep(&mut best, c) {
                            cur = n;
                        } else {
                            k += chunk;
                        }
                    }
                    if chunk == 1 || cur.is_empty() || z.over() {
                        break;
                    }
                    chunk /= 2;
                }
            }
        }
        // smaller crash positions
        for i in 0..best.ops.len() {
            if let Some((m, k)) = best.ops[i].crash {
                for n in [1, k / 4, k / 2, k.saturating_sub(1)] {
                    if n >= 1 && n < k {
                        let mut c = best.clone();
                        c.ops[i].crash = Some((m, n));
                        if z.keep(&mut best, c) {
                            break;
                        }
                    }
                }
            }
        }
        if best == before || z.over() {
            break;
        }
    }
    (best, z.msg)
}
impl Shrinker {
    fn keep_put(&mut self, best: &mut Scenario, put: impl Fn(&Scenario, &crate::gram::Spec, &crate::gram::Spec) -> Scenario, old: &crate::gram::Spec, new: &crate::gram::Spec) -> bool {
        let c = put(best, old, new);
        self.keep(best, c)
    }
}
