//! G05: runs of the tool that share a data directory, a node's patience, or a full disk.
use crate::nets::{self, Net};
use crate::proc::Scratch;
use crate::tool::{files, fin_at, judge, knobs, starts, story, Served, Tool, LONG};
use crate::web::Web;
use chain_sim::Sim;
use serde_json::{json, Value};
use ssz_rs::prelude::Serialize;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::{Duration, Instant};
use support::{fingerprint, Monitor, Rng};

const STATES: &str = "/eth/v2/debug/beacon/states/";

#[derive(Clone, PartialEq, Debug)]
struct Job {
    net: usize,
    epoch: u64,
    verify: bool,
}
struct End {
    job: Job,
    well: Option<bool>,
    said: String,
}
struct Place<'a> {
    n: &'a Net,
    node: Served,
    head: u64,
    /// where a run can start, its journal, and where the next one starts
    good: Vec<(u64, Vec<u8>, u64)>,
}

pub fn g05() -> i32 {
    let mut m = Monitor::new("G05", 30, 500, "distinct (chains, runs under way at the same time in one data directory, what was there before) and (chain, request limit)");
    m.assume("the simulated chain follows the consensus specification; the beacon node's interface is served from it over HTTP");
    m.assume("the guest is the network's guest program run as a process");
    for (e, n) in [("crowd_ended", 8), ("same_start_at_once", 2), ("same_epoch_of_both_networks", 1), ("fetched_by_several", 1), ("states_stored", 8), ("again_without_states", 4), ("limited", 1), ("limited:slow", 1), ("disk_full", 2), ("after_the_disk_was_full", 2)] {
        m.require(e, n);
    }
    let mut rng = m.rng("share");
    let mut i: u64 = 0;
    while m.go(i, 2, m.scale(60, 5000), 1.0) {
        i += 1;
        let nets = nets::both();
        let base = nets[0].fulu + 5 + rng.below(60_000);
        let places: Vec<Place> = nets.iter().map(|n| place(&mut rng, n, base)).collect();
        crowd(&mut m, &mut rng, &places);
        if !m.violated() {
            limited(&mut m, &mut rng, &places[(i % 2) as usize]);
        }
        if !m.violated() {
            full(&mut m, &mut rng, &places[(i % 2) as usize]);
        }
    }
    m.finish()
}
/// a chain of the network at these epochs, which can be followed
fn place<'a>(rng: &mut Rng, n: &'a Net, base: u64) -> Place<'a> {
    loop {
        let mut k = knobs(rng, n);
        k.base = base;
        let sim = Sim::new(rng, k);
        let head = sim.head();
        let good: Vec<_> = starts(&sim, n, head).into_iter().filter(|x| x.0 < fin_at(&sim, head)).filter_map(|(e, w)| w.ok().map(|w| (e, w.0, w.1))).collect();
        if !good.is_empty() {
            return Place { n, node: Served::on(sim, Web::crowded(3)), head, good };
        }
    }
}
fn start(p: &Place, job: &Job, dir: &Path, log: &Path, more: &[&str]) -> Tool {
    let e = job.epoch.to_string();
    let args: Vec<&str> = more.iter().copied().chain(if job.verify { ["verify", "--trusted-epoch", &e] } else { ["build-input", "--finalized-epoch", &e] }).collect();
    Tool::start_in(&p.node, p.n.name, dir, &args, &[], log.to_path_buf())
}
/// all at once, a few moments apart
fn together(rng: &mut Rng, places: &[Place], jobs: &[Job], dir: &Path, logs: &Path) -> Vec<End> {
    let mut running = vec![];
    for (i, j) in jobs.iter().enumerate() {
        running.push((j.clone(), start(&places[j.net], j, dir, &logs.join(i.to_string()), &[])));
        if rng.chance(1, 3) {
            std::thread::sleep(Duration::from_millis(rng.below(150)));
        }
    }
    running
        .into_iter()
        .map(|(job, mut t)| {
            let well = t.end(LONG);
            End { job, well, said: t.said() }
        })
        .collect()
}
fn asked(p: &Place) -> BTreeMap<u64, usize> {
    let mut v = BTreeMap::new();
    for q in p.node.web.taken() {
        if let Some(s) = q.strip_prefix(STATES).and_then(|s| s.parse().ok()) {
            *v.entry(s).or_insert(0) += 1;
        }
    }
    v
}
fn tree(dir: &Path) -> Vec<String> {
    fn walk(d: &Path, root: &Path, v: &mut Vec<String>) {
        for x in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = x.path();
            if p.is_dir() {
                walk(&p, root, v);
            } else {
                v.push(p.strip_prefix(root).unwrap().to_string_lossy().into_owned());
            }
        }
    }
    let mut v = vec![];
    walk(dir, dir, &mut v);
    v.sort();
    v
}

fn crowd(m: &mut Monitor, rng: &mut Rng, places: &[Place]) {
    let (dir, logs) = (Scratch::new(), Scratch::new());
    let both: BTreeSet<u64> = places[0].good.iter().map(|g| g.0).filter(|e| places[1].good.iter().any(|g| g.0 == *e)).collect();
    let mut jobs: Vec<Job> = vec![];
    // one start twice or three times
    let net = rng.idx(2);
    let first = rng.pick(&places[net].good).0;
    for _ in 0..rng.urange(2, 3) {
        jobs.push(Job { net, epoch: first, verify: rng.chance(1, 4) });
    }
    // one epoch of both networks
    if let Some(e) = (!both.is_empty()).then(|| *rng.pick(&both.iter().copied().collect::<Vec<_>>())) {
        jobs.extend([0, 1].map(|net| Job { net, epoch: e, verify: rng.chance(1, 6) }));
    }
    // and others
    for _ in 0..rng.urange(1, 2) {
        let net = rng.idx(2);
        jobs.push(Job { net, epoch: rng.pick(&places[net].good).0, verify: rng.bool() });
    }
    rng.shuffle(&mut jobs);
    // one may have been there before
    let mut kept: BTreeSet<(usize, u64)> = BTreeSet::new();
    for p in places {
        p.node.web.taken();
    }
    if rng.chance(1, 3) {
        let j = rng.pick(&jobs).clone();
        let p = &places[j.net];
        let mut t = start(p, &j, dir.path(), &logs.path().join("before"), &[]);
        t.end(LONG);
        kept.extend(asked(p).into_keys().map(|s| (j.net, s)));
        m.event("something_there_before");
    }
    let ends = together(rng, places, &jobs, dir.path(), logs.path());
    let fetched: Vec<BTreeMap<u64, usize>> = places.iter().map(asked).collect();
    let tale = |e: &End| -> Value {
        let p = &places[e.job.net];
        json!({"runs": jobs.iter().map(|j| format!("{} {} from {}", places[j.net].n.name, if j.verify { "verify" } else { "build-input" }, j.epoch)).collect::<Vec<_>>(), "this_one": format!("{:?}", e.job),
            "ended_well": e.well, "files": tree(dir.path()), "chain": story(&p.node.sim.lock().unwrap(), p.n, e.job.epoch, p.head, e.said.clone())})
    };
    m.case(&(places.iter().map(|p| p.node.sim.lock().unwrap().seed).collect::<Vec<_>>(), fingerprint(&format!("{jobs:?}")), kept.len()), true);
    for e in &ends {
        m.event("crowd_ended");
        if ends.iter().any(|o| !std::ptr::eq(o, e) && o.job.net != e.job.net && o.job.epoch == e.job.epoch) {
            m.event("same_epoch_of_both_networks");
        }
        if ends.iter().filter(|o| o.job.net == e.job.net && o.job.epoch == e.job.epoch).count() > 1 {
            m.event("same_start_at_once");
        }
        m.check(e.well == Some(true), "disturbed", "a run fails because of others that use the same data directory", || tale(e));
        if m.violated() {
            return;
        }
    }
    // what each network's rules give, in the network's own place
    let mut due: BTreeSet<String> = BTreeSet::new();
    for e in ends.iter().filter(|e| !e.job.verify) {
        let p = &places[e.job.net];
        let want = &p.good.iter().find(|g| g.0 == e.job.epoch).unwrap().1;
        judge(m, &p.node.sim.lock().unwrap(), p.n, dir.path(), e.job.epoch, want, p.head, e.said.clone());
        due.insert(format!("{}/inputs/{}_stdin.bin", p.n.name, e.job.epoch));
        due.insert(format!("{}/journals/{}_journal.bin", p.n.name, e.job.epoch));
    }
    let before: Vec<String> = if kept.is_empty() { vec![] } else { tree(dir.path()) };
    for f in tree(dir.path()) {
        let known = due.contains(&f) || places.iter().any(|p| f.starts_with(&format!("{}/states/", p.n.name)));
        m.check(known || before.contains(&f), "elsewhere", "a run leaves files that are neither its network's states nor its own input and journal", || json!({"file": f, "runs": tale(&ends[0])}));
    }
    // the states of each network, once and whole
    for (i, p) in places.iter().enumerate() {
        let slots: BTreeSet<u64> = fetched[i].keys().copied().chain(kept.iter().filter(|k| k.0 == i).map(|k| k.1)).collect();
        m.events_n("fetched_by_several", fetched[i].values().filter(|n| **n > 1).count() as u64);
        let mut want: Vec<u64> = {
            let sim = p.node.sim.lock().unwrap();
            slots.iter().filter_map(|s| sim.state(*s)).map(|s| { let mut b = vec![]; s.serialize(&mut b).expect("a state"); fingerprint(&b) }).collect()
        };
        want.sort();
        let here = dir.path().join(p.n.name).join("states");
        let mut have: Vec<u64> = std::fs::read_dir(&here).into_iter().flatten().flatten().map(|f| fingerprint(&std::fs::read(f.path()).unwrap_or_default())).collect();
        have.sort();
        m.events_n("states_stored", want.len() as u64);
        m.check(want == have, "states", "a network's stored states are not those its runs asked for, each once", || json!({"network": p.n.name, "asked": slots, "runs": tale(&ends[0])}));
    }
    if m.violated() {
        return;
    }
    // once more, now from what is stored
    let was: BTreeMap<String, u64> = tree(dir.path()).into_iter().map(|f| (f.clone(), fingerprint(&std::fs::read(dir.path().join(&f)).unwrap()))).collect();
    let mut again = jobs.clone();
    again.dedup();
    let ends = together(rng, places, &again, dir.path(), logs.path());
    for e in &ends {
        m.event("again_without_states");
        m.check(e.well == Some(true), "again-fails", "a run fails where the same one has succeeded before", || tale(e));
    }
    for p in places {
        let a = asked(p);
        m.check(a.is_empty(), "asked-again", "the node is asked for states that are stored", || json!({"network": p.n.name, "slots": a, "runs": tale(&ends[0])}));
    }
    let now: BTreeMap<String, u64> = tree(dir.path()).into_iter().map(|f| (f.clone(), fingerprint(&std::fs::read(dir.path().join(&f)).unwrap()))).collect();
    m.check(was == now, "not-the-same", "the same runs once more leave other files", || tale(&ends[0]));
    if m.wants_sample() {
        m.sample(|| json!({"runs": format!("{jobs:?}"), "files": now.keys().collect::<Vec<_>>(), "asked": fetched}));
    }
}

/// --rps: never more requests than that many per second, after a first burst of that many
fn limited(m: &mut Monitor, rng: &mut Rng, p: &Place) {
    let (dir, logs) = (Scratch::new(), Scratch::new());
    let job = Job { net: 0, epoch: rng.pick(&p.good).0, verify: rng.bool() };
    // how many it needs
    p.node.times.lock().unwrap().clear();
    let whole = Scratch::new();
    start(p, &job, whole.path(), &logs.path().join("unlimited"), &[]).end(LONG);
    let needs = std::mem::take(&mut *p.node.times.lock().unwrap()).len() as u64;
    // mostly done in a few seconds, and otherwise watched for a few
    let slow = rng.bool();
    let r = if slow { rng.range(1, 3) } else { (needs * 2 / rng.range(5, 9)).max(2) };
    let option = if rng.bool() { "--rps" } else { "-r" };
    let t0 = Instant::now();
    let mut t = start(p, &job, dir.path(), &logs.path().join("limited"), &[option, &r.to_string()]);
    let end = t.end(if slow { Duration::from_millis(3300) } else { LONG });
    let times: Vec<f64> = std::mem::take(&mut *p.node.times.lock().unwrap()).iter().map(|t| t.duration_since(t0).as_secs_f64()).collect();
    m.event(if slow { "limited:slow" } else { "limited" });
    m.events_n("limited_requests", times.len() as u64);
    m.case(&(p.node.sim.lock().unwrap().seed, job.epoch, r), true);
    let d = || json!({"network": p.n.name, "run": format!("{job:?}"), "limit": r, "requests_at_seconds": times, "needed_without_limit": needs, "ended_well": end, "tool_said": t.said()});
    m.check(end == Some(true) || slow && end.is_none(), "limited-fails", "a run with a request limit fails", d);
    let over = times.iter().enumerate().find(|(i, t)| (*i as f64 + 1.0) > r as f64 * (1.0 + **t) + 1e-6);
    m.check(over.is_none(), "limit-exceeded", "more requests arrive than the limit allows", d);
    // any part of it, with room for what was held up on the way
    let over = times.iter().enumerate().any(|(i, a)| times[i..].iter().enumerate().any(|(k, b)| k as f64 + 1.0 > r as f64 * (1.0 + b - a + 0.5) + 1.0));
    m.check(!over, "limit-exceeded-within", "more requests arrive within a while than the limit allows", d);
}

/// a run that cannot write what it has to says so
fn full(m: &mut Monitor, rng: &mut Rng, p: &Place) {
    let (dir, logs) = (Scratch::new(), Scratch::new());
    let job = Job { net: 0, epoch: rng.pick(&p.good).0, verify: false };
    let e = job.epoch;
    let all = [format!("inputs/{e}_stdin.bin"), format!("journals/{e}_journal.bin")];
    for (k, f) in all.iter().enumerate() {
        let f = dir.path().join(p.n.name).join(f);
        std::fs::create_dir_all(f.parent().unwrap()).expect("a directory");
        // (an earlier run may have left it empty)
        let _ = std::fs::remove_file(&f);
        std::os::unix::fs::symlink("/dev/full", &f).expect("a link");
        let mut t = start(p, &job, dir.path(), &logs.path().join(k.to_string()), &[]);
        let end = t.end(LONG);
        // (what replaces the link instead of writing through it, succeeds)
        let there = std::fs::symlink_metadata(&f).is_ok_and(|x| x.file_type().is_symlink());
        m.event("disk_full");
        m.check(end == Some(!there), "silent-loss", "a run that could not write its files ends well", || json!({"network": p.n.name, "file": all[k], "ended_well": end, "tool_said": t.said()}));
        let _ = std::fs::remove_file(&f);
        if m.violated() {
            return;
        }
    }
    m.case(&(p.node.sim.lock().unwrap().seed, e, "full"), true);
    let mut t = start(p, &job, dir.path(), &logs.path().join("then"), &[]);
    let end = t.end(LONG);
    m.event("after_the_disk_was_full");
    let sim = p.node.sim.lock().unwrap();
    m.check(end == Some(true), "not-recovered", "once there is room again, the run fails", || story(&sim, p.n, e, p.head, t.said()));
    if end == Some(true) {
        let want = &p.good.iter().find(|g| g.0 == e).unwrap().1;
        judge(m, &sim, p.n, dir.path(), e, want, p.head, t.said());
        let f = files(dir.path(), p.n.name, e);
        m.check(f.input.is_some(), "files-missing", "a step that succeeded did not write both files", || json!({"epoch": e}));
    }
}
