//! G03 (and the tool's part of G02): the command line tool as a process, following a simulated chain over HTTP.
use crate::guests::words;
use crate::nets::{self, Net};
use crate::proc::{bin, guest, Scratch};
use crate::web::{Reply, Web};
use chain_sim::walk::{deserved_at, walk, Want};
use chain_sim::{Knobs, Sim, SPE};
use core_model::ffg::Cp;
use host::mainnet::{BeaconState, ElectraBeaconState};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use support::{hex, Monitor, Rng};

/// a beacon node for the chain, as far as it has got
pub struct Served {
    pub web: Web,
    pub sim: Arc<Mutex<Sim>>,
    pub head: Arc<Mutex<u64>>,
    /// queries that are answered with a failure: by the number of queries before
    pub fail: Arc<Mutex<BTreeMap<u64, Reply>>>,
    /// when it was asked
    pub times: Arc<Mutex<Vec<Instant>>>,
}
impl Served {
    pub fn new(sim: Sim) -> Served {
        Served::on(sim, Web::new())
    }
    pub fn on(sim: Sim, web: Web) -> Served {
        let s = Served { web, head: Arc::new(Mutex::new(sim.head())), sim: Arc::new(Mutex::new(sim)), fail: Arc::default(), times: Arc::default() };
        let (sim, head, fail, times) = (s.sim.clone(), s.head.clone(), s.fail.clone(), s.times.clone());
        let mut made: HashMap<u64, Arc<Vec<u8>>> = HashMap::new();
        let mut n = 0;
        s.web.script(move |path| {
            n += 1;
            times.lock().unwrap().push(Instant::now());
            if let Some(r) = fail.lock().unwrap().remove(&n) {
                return r;
            }
            answer(&sim.lock().unwrap(), *head.lock().unwrap(), &mut made, path)
        });
        s
    }
}
fn ok(v: Value) -> Reply {
    Reply::Full(200, Arc::new(v.to_string().into_bytes()))
}
fn none() -> Reply {
    Reply::Full(404, Arc::new(json!({"code": 404, "message": "NOT_FOUND"}).to_string().into_bytes()))
}
fn answer(sim: &Sim, head: u64, made: &mut HashMap<u64, Arc<Vec<u8>>>, path: &str) -> Reply {
    let parts: Vec<&str> = path.trim_start_matches('/').split('/').collect();
    let slot = |id: &str| -> Option<u64> {
        let s = if id == "head" {
            head
        } else if let Some(h) = id.strip_prefix("0x") {
            *sim.by_root.get(<&[u8; 32]>::try_from(&hex_bytes(h)?[..]).ok()?)?
        } else {
            id.parse().ok()?
        };
        (s <= head).then_some(s)
    };
    let cp = |c: &Cp| json!({"epoch": c.e.to_string(), "root": format!("0x{}", hex(&c.r))});
    match parts[..] {
        ["eth", "v1", "beacon", "headers", id] => match slot(id).and_then(|s| sim.blocks.get(&s)) {
            Some(b) => ok(json!({"execution_optimistic": false, "finalized": false, "data": {"root": format!("0x{}", hex(&b.root)), "canonical": true,
                "header": {"message": serde_json::to_value(b.hdr.real()).unwrap(), "signature": format!("0x{}", hex(&[0; 96]))}}})),
            None => none(),
        },
        ["eth", "v2", "beacon", "blocks", id] => match slot(id).and_then(|s| sim.blocks.get(&s)) {
            Some(b) => ok(json!({"version": "electra", "execution_optimistic": false, "finalized": false,
                "data": {"message": serde_json::to_value(&b.block).unwrap(), "signature": format!("0x{}", hex(&[0; 96]))}})),
            None => none(),
        },
        ["eth", "v1", "beacon", "states", id, "finality_checkpoints"] => match slot(id).and_then(|s| sim.snap(s)) {
            Some(s) => ok(json!({"execution_optimistic": false, "finalized": false, "data": {"previous_justified": cp(&s.pj), "current_justified": cp(&s.cj), "finalized": cp(&s.fin)}})),
            None => none(),
        },
        ["eth", "v2", "debug", "beacon", "states", id] => {
            let Some(s) = slot(id) else { return none() };
            if let Some(b) = made.get(&s) {
                return Reply::Full(200, b.clone());
            }
            let (v, d) = if s == 0 {
                let mut x = ElectraBeaconState::default();
                x.genesis_validators_root = sim.gvr.into();
                ("electra", serde_json::to_string(&BeaconState::Electra(x)).unwrap())
            } else {
                let Some(x) = sim.state(s) else { return none() };
                (if matches!(*x, BeaconState::Fulu(_)) { "fulu" } else { "electra" }, serde_json::to_string(&*x).unwrap())
            };
            let b = Arc::new(format!("{{\"version\":\"{v}\",\"execution_optimistic\":false,\"finalized\":false,\"data\":{d}}}").into_bytes());
            made.insert(s, b.clone());
            Reply::Full(200, b)
        }
        _ => none(),
    }
}
fn hex_bytes(h: &str) -> Option<Vec<u8>> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
}

pub struct Tool {
    child: Child,
    log: PathBuf,
}
impl Tool {
    pub fn start(node: &Served, network: &str, dir: &Path, args: &[&str]) -> Tool {
        Tool::start_with(node, network, dir, args, &[])
    }
    pub fn start_with(node: &Served, network: &str, dir: &Path, args: &[&str], env: &[(&str, &str)]) -> Tool {
        Tool::start_in(node, network, dir, args, env, dir.join("log"))
    }
    pub fn start_in(node: &Served, network: &str, dir: &Path, args: &[&str], env: &[(&str, &str)], log: PathBuf) -> Tool {
        let f = std::fs::OpenOptions::new().create(true).append(true).open(&log).expect("a log");
        let child = Command::new(bin("zkasper_cli"))
            .args(["--beacon-api", node.web.url.as_str(), "--network", network, "--data-dir"])
            .arg(dir)
            .args(args)
            .env_remove("BEACON_RPC_URL")
            .env_remove("RUST_LOG")
            .env_remove("STANDIN_GUEST")
            .env("LOG_LEVEL", "warn")
            .envs(env.iter().copied())
            .stdin(Stdio::null())
            .stdout(f.try_clone().unwrap())
            .stderr(f)
            .spawn()
            .expect("the tool");
        Tool { child, log }
    }
    pub fn running(&mut self) -> bool {
        self.child.try_wait().expect("the tool's state").is_none()
    }
    /// has it ended well? (none: still running)
    pub fn end(&mut self, patience: Duration) -> Option<bool> {
        let t = Instant::now();
        loop {
            if let Some(s) = self.child.try_wait().expect("the tool's state") {
                return Some(s.success());
            }
            if t.elapsed() > patience {
                return None;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    /// everything said, by earlier tools in the same directory, too
    pub fn all(&self) -> String {
        std::fs::read_to_string(&self.log).unwrap_or_default()
    }
    pub fn said(&self) -> String {
        let s = self.all();
        s.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect()
    }
}
impl Drop for Tool {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub const LONG: Duration = Duration::from_secs(120);

pub fn knobs(rng: &mut Rng, n: &Net) -> Knobs {
    let mut k = Knobs::eventful(rng);
    k.n = rng.urange(34, 60);
    k.spec = n.spec.clone();
    k.late = 0;
    // activations the guest cannot foresee are another property's finding
    k.waiting = 0;
    k.deposits = 0;
    k.base = match rng.below(4) {
        0 => n.fulu - rng.below(k.epochs),
        1 => n.fulu + rng.below(50_000),
        _ => rng.range(n.electra + 5, n.fulu),
    };
    k
}
fn cp_at(sim: &Sim, e: u64) -> Cp {
    sim.checkpoint(e)
}
/// the journal a run from this epoch has to give, and the next epoch to run from
fn due(sim: &Sim, n: &Net, e: u64, head: u64) -> Result<(Vec<u8>, u64), String> {
    let cp = cp_at(sim, e);
    match walk(sim, &cp, head) {
        Want::Go { start, links, end } => {
            if !deserved_at(sim, &n.cfg, &cp, &links, head) {
                return Err("support".into());
            }
            let slot = *sim.by_root.get(&end.f.r).ok_or("no block")?;
            Ok((words(&start, &end, slot), end.f.e))
        }
        w => Err(format!("{w:?}")),
    }
}
pub struct Files {
    pub input: Option<Vec<u8>>,
    pub journal: Option<Vec<u8>>,
}
pub fn files(dir: &Path, n: &str, e: u64) -> Files {
    Files { input: std::fs::read(dir.join(n).join("inputs").join(format!("{e}_stdin.bin"))).ok(), journal: std::fs::read(dir.join(n).join("journals").join(format!("{e}_journal.bin"))).ok() }
}
fn written(dir: &Path, n: &str) -> Vec<String> {
    let mut v = vec![];
    for d in ["inputs", "journals"] {
        if let Ok(r) = std::fs::read_dir(dir.join(n).join(d)) {
            v.extend(r.flatten().map(|x| format!("{d}/{}", x.file_name().to_string_lossy())));
        }
    }
    v.sort();
    v
}
pub fn story(sim: &Sim, n: &Net, e: u64, head: u64, log: String) -> Value {
    let k = &sim.k;
    json!({"network": n.name, "base": k.base, "epochs": k.epochs, "validators": k.n, "finalized_epoch": e, "head": head, "participation": k.part,
        "states": (k.base..k.base + k.epochs).map(|e| sim.cons(e).map(|s| format!("{}: justified {} finalized {}", e, s.j.e, s.f.e))).collect::<Vec<_>>(),
        "starts_missing": (k.base..k.base + k.epochs).filter(|e| !sim.blocks.contains_key(&(e * SPE))).collect::<Vec<_>>(), "tool_said": log})
}

/// the files of one step: one frame, leading the guest to the journal, which is the expected one
pub fn judge(m: &mut Monitor, sim: &Sim, n: &Net, dir: &Path, e: u64, want: &[u8], head: u64, log: String) {
    let f = files(dir, n.name, e);
    let d = |x: &str| json!({"what": x, "chain": story(sim, n, e, head, log.clone()), "journal": f.journal.as_ref().map(|j| hex(j)), "expected": hex(want), "input_bytes": f.input.as_ref().map(|i| i.len())});
    let (Some(i), Some(j)) = (&f.input, &f.journal) else {
        m.violate("files-missing", "a step that succeeded did not write both files", d("missing"));
        return;
    };
    let framed = i.len() >= 4 && u32::from_le_bytes(i[..4].try_into().unwrap()) as usize == i.len() - 4;
    m.check(framed, "not-one-frame", "the input file is not one length-prefixed frame", || d("frame"));
    m.check(j == want, "wrong-journal", "the journal file is not that of the chain's step from this checkpoint", || d("journal"));
    let g = guest(n.guest, i);
    m.check(g.as_ref() == Some(j), "guest-disagrees", "the guest does not publish the journal written next to its input", || json!({"guest": g.as_ref().map(|g| hex(g)), "more": d("guest")}));
    m.event("step_checked");
    m.event(&format!("step_checked:{}", n.name));
}

pub fn g03() -> i32 {
    let mut m = Monitor::new("G03", 40, 600, "distinct (chain history, starting epoch, way of running) with at least one step");
    m.assume("the simulated chain follows the consensus specification; the beacon node's interface is served from it over HTTP");
    m.assume("the guest is the network's guest program run as a process");
    for (e, n) in [("step_checked:mainnet", 1), ("step_checked:sepolia", 1), ("single", 1), ("continuous_steps", 2), ("waited", 1), ("resumed", 1), ("failing_node", 1), ("over_older_files", 1)] {
        m.require(e, n);
    }
    let mut rng = m.rng("tool");
    let mut i: u64 = 0;
    while m.go(i, 6, m.scale(60, 4000), 1.0) {
        let both = nets::both();
        let n = &both[(i as usize + m.seed as usize) % 2];
        i += 1;
        let mut sim;
        loop {
            let mut k = knobs(&mut rng, n);
            if i % 3 == 2 {
                k.late = rng.below(12);
            }
            sim = Sim::new(&mut rng, k);
            let top = sim.head();
            if starts(&sim, n, top).iter().any(|x| x.0 < fin_at(&sim, top) && x.1.is_ok()) {
                break;
            }
        }
        let node = Served::new(sim);
        match i % 3 {
            1 => continuous(&mut m, &mut rng, n, &node),
            2 => singles(&mut m, &mut rng, n, &node),
            _ => disturbed(&mut m, &mut rng, n, &node),
        }
    }
    m.finish()
}

pub fn starts(sim: &Sim, n: &Net, head: u64) -> Vec<(u64, Result<(Vec<u8>, u64), String>)> {
    (sim.k.base..sim.k.base + sim.k.epochs).filter(|e| *e >= n.electra).map(|e| (e, due(sim, n, e, head))).collect()
}
pub fn fin_at(sim: &Sim, head: u64) -> u64 {
    sim.snap(head).unwrap().fin.e
}

/// one run per starting epoch
fn singles(m: &mut Monitor, rng: &mut Rng, n: &Net, node: &Served) {
    let dir = Scratch::new();
    let head = *node.head.lock().unwrap();
    let (all, last) = {
        let sim = node.sim.lock().unwrap();
        (starts(&sim, n, head), fin_at(&sim, head))
    };
    let mut good: Vec<_> = all.iter().filter(|x| x.0 < last && x.1.is_ok()).cloned().collect();
    let mut bad: Vec<_> = all.iter().filter(|x| x.0 < last && x.1.is_err()).cloned().collect();
    rng.shuffle(&mut good);
    rng.shuffle(&mut bad);
    good.truncate(2);
    bad.truncate(1);
    for (k, (e, want)) in good.into_iter().chain(bad).enumerate() {
        let es = e.to_string();
        // another chain's files may be there, longer or shorter ones
        if want.is_ok() && (k == 0 || rng.bool()) {
            m.event("over_older_files");
            for (d, f) in [("inputs", format!("{e}_stdin.bin")), ("journals", format!("{e}_journal.bin"))] {
                let d = dir.path().join(n.name).join(d);
                let len = if k == 0 { 6_000_000 } else { *rng.pick(&[0, 100, 289]) };
                std::fs::create_dir_all(&d).and_then(|_| std::fs::write(d.join(f), vec![rng.below(256) as u8; len])).expect("older files");
            }
        }
        let mut t = Tool::start(node, n.name, dir.path(), &["build-input", "--finalized-epoch", &es, "--retry-interval", "1"]);
        let end = t.end(LONG);
        let log = t.said();
        let sim = node.sim.lock().unwrap();
        m.case(&(sim.seed, e, "single"), true);
        let d = || json!({"chain": story(&sim, n, e, head, log.clone()), "expected": want.as_ref().map(|w| hex(&w.0)).map_err(|e| e.clone()), "ended_well": end});
        match (&want, end) {
            (Ok((j, _)), Some(true)) => {
                m.event("single");
                judge(m, &sim, n, dir.path(), e, j, head, log);
            }
            (Ok(_), _) => m.violate("single-fails", "an input for a finalized epoch could not be built", d()),
            (Err(_), Some(false)) => {
                m.event("single_refused");
                m.check(files(dir.path(), n.name, e).journal.is_none(), "refused-yet-written", "a journal was written although the step failed", d);
            }
            (Err(_), _) => m.violate("undeserved-step", "a step the chain does not support was written", d()),
        }
        if m.violated() {
            return;
        }
        drop(sim);
        // asking again gives the same
        if want.is_ok() && rng.chance(1, 3) {
            let a = files(dir.path(), n.name, e);
            let mode = *rng.pick(&["build", "native", "r0vm"]);
            let args = if mode == "build" { vec!["build-input", "--finalized-epoch", &es] } else { vec!["verify", "--mode", mode, "--trusted-epoch", &es] };
            let mut t = Tool::start(node, n.name, dir.path(), &args);
            let end = t.end(LONG);
            let b = files(dir.path(), n.name, e);
            m.event(&format!("again:{mode}"));
            m.check(end == Some(true), &format!("again-fails-{mode}"), "what was built cannot be built or verified again", || json!({"network": n.name, "epoch": e, "mode": mode, "tool_said": t.said()}));
            m.check(a.input == b.input && a.journal == b.journal, "again-differs", "building the same step again gives other files", || json!({"network": n.name, "epoch": e}));
        }
    }
}

// ------------------------------------------------------------------------------------------------ G04
pub fn g04() -> i32 {
    let mut m = Monitor::new("G04", 25, 500, "distinct (chain history, starting point, mode, way in which the guest goes wrong) of a verification or of a run over the chain");
    m.assume("the simulated chain follows the consensus specification; the beacon node's interface is served from it over HTTP");
    m.assume("the guest is the network's guest program run as a process; a guest that goes wrong is one whose run fails or whose journal is changed afterwards");
    for (e, n) in [("verified", 6), ("verified:r0vm", 2), ("refused:chain", 2), ("refused:guest", 26), ("guest_not_asked", 1), ("synced", 2), ("synced:apart", 1), ("sync_steps", 4), ("sync_spoiled", 1)] {
        m.require(e, n);
    }
    let mut rng = m.rng("verify");
    let mut i: u64 = 0;
    while m.go(i, 4, m.scale(400, 100_000), 1.0) {
        let both = nets::both();
        let n = &both[(i as usize + m.seed as usize) % 2];
        i += 1;
        let mut sim;
        let mut tries = 0;
        loop {
            let mut k = knobs(&mut rng, n);
            if rng.chance(1, 3) {
                k.late = rng.below(12);
            }
            sim = Sim::new(&mut rng, k);
            let top = sim.head();
            // every fourth with justification ahead by more than an epoch, and a step from there
            let apart = (sim.k.base * SPE..=top).step_by(7).any(|s| sim.snap(s).is_some_and(|x| x.cj.e > x.fin.e + 1 && x.fin.e >= sim.k.base.max(n.electra) && due(&sim, n, x.fin.e, top).is_ok()));
            if i % 4 == 0 && !apart {
                tries += 1;
                if tries < 200 {
                    continue;
                }
            }
            if starts(&sim, n, top).iter().any(|x| x.0 < fin_at(&sim, top) && x.1.is_ok()) {
                break;
            }
        }
        let node = Served::new(sim);
        if i % 2 == 1 {
            verifying(&mut m, &mut rng, n, &node);
        } else {
            let before = m.count("synced");
            sync(&mut m, &mut rng, n, &node, false);
            if !m.violated() && m.count("synced") > before {
                sync(&mut m, &mut rng, n, &node, true);
            }
        }
    }
    m.finish()
}
const MODES: [&str; 3] = ["native", "ssz", "r0vm"];
/// how a guest goes wrong: always something that the host must not take for its own result
fn spoil(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => "panic,0".into(),
        // up to, but not including the last byte of the states
        1 => format!("cut,{}", *rng.pick(&[0, 1, 32, 127, 128, 129, 192, 224, 255])),
        2 => "swap,0".into(),
        3 => "stay,0".into(),
        4 => "skip,0".into(),
        _ => {
            // a bit that counts: roots whole, epochs their last eight bytes
            let word = rng.below(8);
            let byte = if word % 2 == 1 { rng.below(32) } else { rng.range(24, 31) };
            format!("flip,{}", (word * 32 + byte) * 8 + rng.below(8))
        }
    }
}
/// `verify` from single epochs; many at once
fn verifying(m: &mut Monitor, rng: &mut Rng, n: &Net, node: &Served) {
    let top = *node.head.lock().unwrap();
    for round in 0..2 {
        let head = if round == 1 { rng.range(top - 4 * SPE, top) } else { top };
        *node.head.lock().unwrap() = head;
        let (good, bad) = {
            let sim = node.sim.lock().unwrap();
            let last = fin_at(&sim, head);
            // beyond what is finalized, the node has no answer
            let all: Vec<_> = starts(&sim, n, head).into_iter().filter(|x| x.0 <= head / SPE && (x.0 < last || x.1.is_err())).collect();
            all.into_iter().partition::<Vec<_>, _>(|x| x.1.is_ok())
        };
        let mut runs: Vec<(u64, Result<Vec<u8>, String>, &str, Option<String>)> = vec![];
        for x in bad.iter().take(4) {
            runs.push((x.0, Err(x.1.as_ref().err().unwrap().clone()), *rng.pick(&MODES), None));
        }
        if !good.is_empty() {
            for _ in 0..3 {
                let (e, w) = rng.pick(&good).clone();
                // a guest that is not asked cannot go wrong
                let mode = *rng.pick(&MODES);
                let s = (mode != "r0vm" && rng.bool()).then(|| format!("0,{}", spoil(rng)));
                runs.push((e, w.map(|w| w.0), mode, s));
            }
            // one start, and everything that can be wrong with its guest
            let (e, w) = rng.pick(&good).clone();
            let w = w.map(|w| w.0);
            runs.push((e, w.clone(), "r0vm", None));
            for word in 0..8 {
                let byte = if word % 2 == 1 { rng.below(32) } else { rng.range(24, 31) };
                runs.push((e, w.clone(), "r0vm", Some(format!("0,flip,{}", (word * 32 + byte) * 8 + rng.below(8)))));
            }
            for what in ["panic,0", "swap,0", "stay,0", "skip,0"] {
                runs.push((e, w.clone(), "r0vm", Some(format!("0,{what}"))));
            }
            runs.push((e, w.clone(), "r0vm", Some(format!("0,cut,{}", *rng.pick(&[0, 1, 32, 127, 128, 129, 192, 224, 255])))));
        }
        let next = std::sync::atomic::AtomicUsize::new(0);
        let ended: std::sync::Mutex<Vec<(usize, Option<bool>, String)>> = Default::default();
        std::thread::scope(|t| {
            for _ in 0..6 {
                t.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let Some((e, _, mode, spoiled)) = runs.get(i) else { return };
                        let dir = Scratch::new();
                        let env: Vec<(&str, &str)> = spoiled.iter().map(|s| ("STANDIN_GUEST", s.as_str())).collect();
                        let mut t = Tool::start_with(node, n.name, dir.path(), &["verify", "--mode", mode, "--trusted-epoch", &e.to_string()], &env);
                        let end = t.end(LONG);
                        ended.lock().unwrap().push((i, end, t.said()));
                    }
                });
            }
        });
        let mut ended = ended.into_inner().unwrap();
        ended.sort();
        let sim = node.sim.lock().unwrap();
        for (i, end, said) in ended {
            let (e, want, mode, spoiled) = &runs[i];
            m.case(&(sim.seed, e, head, mode, spoiled), true);
            let d = || json!({"chain": story(&sim, n, *e, head, said.clone()), "mode": mode, "guest_goes_wrong": spoiled, "expected": want.as_ref().map(|w| hex(w)).map_err(|e| e.clone()), "ended_well": end});
            match want {
                Err(_) => {
                    m.event("refused:chain");
                    m.check(end == Some(false), "undeserved", "a step that the chain does not support is reported as verified", d);
                }
                Ok(_) if *mode == "r0vm" && spoiled.is_some() => {
                    m.event("refused:guest");
                    m.check(end == Some(false), "guest-ignored", "a step is reported as verified although the guest did not publish its states", d);
                }
                Ok(_) => {
                    m.event("verified");
                    m.event(&format!("verified:{mode}"));
                    if spoiled.is_some() {
                        m.event("guest_not_asked");
                    }
                    m.check(end == Some(true), "deserved", "a step that the chain supports is not verified", d);
                }
            }
            if m.violated() {
                return;
            }
        }
    }
}
/// `sync` logs one line per step, until the chain ends
fn sync(m: &mut Monitor, rng: &mut Rng, n: &Net, node: &Served, wrong: bool) {
    let dir = Scratch::new();
    let head = *node.head.lock().unwrap();
    let (slot, start, steps) = {
        let sim = node.sim.lock().unwrap();
        // a start whose state's finalized checkpoint the node still knows
        let c: Vec<u64> = (sim.k.base * SPE..=head).filter(|s| sim.snap(*s).is_some_and(|x| x.fin.e >= sim.k.base.max(n.electra))).collect();
        if c.is_empty() {
            return;
        }
        // mostly early
        let mut s = *rng.pick(&c);
        if rng.chance(2, 3) {
            s = s.min(*rng.pick(&c)).min(*rng.pick(&c));
        }
        // from where justification is further ahead than usual, if there is such a place
        let apart: Vec<u64> = c.iter().copied().filter(|s| sim.snap(*s).is_some_and(|x| x.cj.e > x.fin.e + 1 && due(&sim, n, x.fin.e, head).is_ok())).step_by(5).collect();
        if !wrong && !apart.is_empty() {
            s = *rng.pick(&apart);
            m.event("synced:apart");
        }
        let x = sim.snap(s).unwrap();
        let start = [hex(&x.cj.r), hex(&x.fin.r)];
        let mut e = x.fin.e;
        let mut v = vec![];
        while let Ok((j, next)) = due(&sim, n, e, head) {
            v.push(j);
            e = next;
        }
        (s, start, v)
    };
    let log = dir.path().join("logs").join("sync.log");
    // every other time, a guest that goes wrong after some of the steps
    let asked = wrong && !steps.is_empty();
    let mode = if asked { "r0vm" } else { *rng.pick(&MODES) };
    let from = rng.below(steps.len().max(1) as u64) as usize;
    let spoiled = (asked || mode != "r0vm" && rng.bool()).then(|| format!("{from},{}", spoil(rng)));
    let env: Vec<(&str, &str)> = spoiled.iter().map(|s| ("STANDIN_GUEST", s.as_str())).collect();
    let mut t = Tool::start_with(node, n.name, dir.path(), &["sync", "--mode", mode, "--start-slot", &slot.to_string(), "--log-path", log.to_str().unwrap()], &env);
    let end = t.end(LONG);
    let said = t.said();
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let lines: Vec<&str> = text.lines().collect();
    let seed = node.sim.lock().unwrap().seed;
    m.case(&(seed, slot, mode, &spoiled, "sync"), !steps.is_empty());
    // until the guest goes wrong
    let good = if asked { from } else { steps.len() };
    m.event("synced");
    m.events_n("sync_steps", good as u64);
    m.events_n("sync_spoiled", (steps.len() - good) as u64);
    let d = || json!({"network": n.name, "mode": mode, "start_slot": slot, "start": start, "guest_goes_wrong": spoiled, "steps_of_the_chain": steps.iter().map(|s| hex(s)).collect::<Vec<_>>(), "log": text, "tool_said": said});
    m.check(end.is_some() && lines.len() >= good && lines[..good].iter().all(|l| l.ends_with("\tOk")), "sync-diverges", "following the chain step by step does not confirm every step", d);
    if m.violated() {
        return;
    }
    m.check(lines[good..].iter().all(|l| !l.ends_with("\tOk")), "sync-too-good", "a step that was not verified is logged as verified", d);
    m.check(lines.len() <= steps.len(), "sync-beyond", "more steps are logged than the chain has", d);
    // each line from where the one before ended
    let mut was = start.clone();
    for (l, j) in lines.iter().zip(&steps) {
        let now = [hex(&j[160..192]), hex(&j[224..256])];
        let names = |part: &str, s: &[String; 2]| part.find(&s[0]).is_some_and(|i| part[i..].contains(&s[1]));
        let named = l.split_once(" -> ").is_some_and(|(a, b)| names(a, &was) && names(b, &now));
        m.check(named, "sync-other-states", "a logged step is not the one of the chain", || json!({"line": l, "from": was, "to": now, "more": d()}));
        was = now;
    }
}

/// waits until it holds, or the tool ended, or patience runs out
fn until(t: &mut Tool, mut f: impl FnMut() -> bool) -> bool {
    let s = Instant::now();
    while !f() {
        if !t.running() || s.elapsed() > LONG {
            return f();
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    true
}
fn polls(node: &Served) -> usize {
    node.web.asked.lock().unwrap().iter().filter(|p| p.ends_with("/states/head/finality_checkpoints")).count()
}

/// one continuous run over a chain that grows in steps
fn continuous(m: &mut Monitor, rng: &mut Rng, n: &Net, node: &Served) {
    let dir = Scratch::new();
    let (top, ends) = {
        let sim = node.sim.lock().unwrap();
        (sim.head(), sim.k.base)
    };
    // a starting epoch, and heads from before it is finalized
    let (first, mut heads) = {
        let sim = node.sim.lock().unwrap();
        let c: Vec<u64> = starts(&sim, n, top).into_iter().filter(|x| x.1.is_ok()).map(|x| x.0).collect();
        // mostly the first one, and at times one that the chain has to reach first
        let later = rng.chance(1, 3) && c.len() > 1;
        let Some(&first) = (if later { Some(rng.pick(&c[1..])) } else { c.first() }) else {
            m.event("nothing_to_follow");
            return;
        };
        let mut h: Vec<u64> = (0..2).map(|_| (ends + 1) * SPE + rng.below(top - (ends + 1) * SPE)).collect();
        if rng.bool() {
            // the very slot at which finality moves
            if let Some(e) = (ends + 1..ends + sim.k.epochs).filter(|e| fin_at(&sim, e * SPE) > fin_at(&sim, e * SPE - 1)).nth(rng.idx(3)) {
                h[0] = e * SPE;
                h[1] = top;
            }
        }
        h.sort();
        if rng.bool() {
            // from before the starting epoch's finality
            if let Some(x) = ((ends + 1) * SPE..top).rev().find(|x| sim.snap(*x).is_some_and(|s| s.fin.e < first)) {
                h[0] = rng.range((ends + 1) * SPE, x);
                h[1] = h[1].max(h[0]);
            }
        }
        (first, h)
    };
    if rng.chance(1, 2) {
        heads[1] = top;
    }
    let fs = first.to_string();
    let mut steps: Vec<(u64, Vec<u8>)> = vec![];
    let mut e = first;
    let mut t: Option<Tool> = None;
    for head in heads {
        *node.head.lock().unwrap() = head;
        node.web.taken();
        if t.is_none() {
            t = Some(Tool::start(node, n.name, dir.path(), &["build-input", "--finalized-epoch", &fs, "--continuous", "--retry-interval", "1"]));
        }
        let t = t.as_mut().unwrap();
        // the steps that are possible now
        let mut fails = None;
        {
            let sim = node.sim.lock().unwrap();
            while fin_at(&sim, head) > e {
                match due(&sim, n, e, head) {
                    Ok((j, next)) => {
                        steps.push((e, j));
                        e = next;
                    }
                    Err(x) => {
                        fails = Some(x);
                        break;
                    }
                }
            }
        }
        let names: Vec<String> = {
            let mut v: Vec<String> = steps.iter().flat_map(|(e, _)| [format!("inputs/{e}_stdin.bin"), format!("journals/{e}_journal.bin")]).collect();
            v.sort();
            v
        };
        let d = |t: &Tool, what: &str| json!({"chain": story(&node.sim.lock().unwrap(), n, first, head, t.said()), "what": what, "steps_due": steps.iter().map(|s| s.0).collect::<Vec<_>>(), "written": written(dir.path(), n.name), "then": fails, "running_from": e});
        if let Some(x) = &fails {
            // a step that the chain does not support ends the run
            m.event("continuous_ended");
            let end = t.end(LONG);
            let w = written(dir.path(), n.name);
            if end != Some(false) || w != names {
                let x = d(t, x);
                m.violate("continuous-beyond", "a continuous run goes past a step the chain does not support", x);
            }
        } else {
            // all of them, and then it asks again, for nothing more
            let all = until(t, || written(dir.path(), n.name) == names || written(dir.path(), n.name).len() > names.len());
            if !all || written(dir.path(), n.name) != names {
                let x = d(t, "steps");
                m.violate("continuous-steps", "a continuous run does not write the steps of the chain, one after the other", x);
                return;
            }
            // (by the second time it has decided to wait)
            let p = polls(node);
            let again = until(t, || polls(node) > p + 1);
            if !again || !t.running() || written(dir.path(), n.name) != names {
                let x = d(t, "wait");
                m.violate("does-not-wait", "a continuous run does not wait while the chain has not progressed", x);
                return;
            }
            m.event("waited");
            if fin_at(&node.sim.lock().unwrap(), head) < first {
                m.event("waited_for_the_start");
            }
        }
        let sim = node.sim.lock().unwrap();
        m.case(&(sim.seed, head, "continuous"), !steps.is_empty());
        for (e, j) in &steps {
            judge(m, &sim, n, dir.path(), *e, j, head, t.said());
        }
        // consecutive journals: where one ends the next begins
        let js: Vec<Vec<u8>> = steps.iter().filter_map(|(e, _)| files(dir.path(), n.name, *e).journal).collect();
        for x in js.windows(2) {
            m.event("continuous_steps");
            let linked = x[0].len() == 288 && x[1].len() == 288 && x[0][128 + 64..256] == x[1][64..128];
            m.check(linked, "journals-do-not-chain", "consecutive journals do not chain: the next does not start from the checkpoint the previous finalized", || json!({"first": hex(&x[0]), "second": hex(&x[1])}));
        }
        if fails.is_some() || m.violated() {
            return;
        }
    }
    drop(t);
    // another run, from where it stopped
    if rng.bool() {
        *node.head.lock().unwrap() = top;
        let sim = node.sim.lock().unwrap();
        let want = due(&sim, n, e, top);
        let ahead = fin_at(&sim, top) > e;
        drop(sim);
        if let (Ok((j, _)), true) = (want, ahead) {
            let mut t = Tool::start(node, n.name, dir.path(), &["build-input", "--finalized-epoch", &e.to_string()]);
            let end = t.end(LONG);
            let sim = node.sim.lock().unwrap();
            m.event("continued");
            m.check(end == Some(true), "cannot-continue", "a run from where the previous one ended fails", || story(&sim, n, e, top, t.said()));
            judge(m, &sim, n, dir.path(), e, &j, top, t.said());
        }
    }
}

/// interrupted at any moment, or by a failing node: nothing wrong is left that a later run would keep
fn disturbed(m: &mut Monitor, rng: &mut Rng, n: &Net, node: &Served) {
    let dir = Scratch::new();
    let top = *node.head.lock().unwrap();
    let (e, j, count) = {
        let sim = node.sim.lock().unwrap();
        let c: Vec<_> = starts(&sim, n, top).into_iter().filter(|x| x.0 < fin_at(&sim, top)).filter_map(|x| Some((x.0, x.1.ok()?.0))).collect();
        if c.is_empty() {
            m.event("nothing_to_follow");
            return;
        }
        let (e, j) = rng.pick(&c).clone();
        (e, j, 60)
    };
    let es = e.to_string();
    let args = ["build-input", "--finalized-epoch", es.as_str(), "--retry-interval", "1"];
    // how long it takes undisturbed
    let whole = {
        let dir = Scratch::new();
        let s = Instant::now();
        let mut t = Tool::start(node, n.name, dir.path(), &args);
        let end = t.end(LONG);
        m.check(end == Some(true), "single-fails", "an input for a finalized epoch could not be built", || story(&node.sim.lock().unwrap(), n, e, top, t.said()));
        s.elapsed().as_micros() as u64
    };
    for k in 0..6 {
        let mut t = Tool::start(node, n.name, dir.path(), &args);
        if k % 2 == 0 {
            std::thread::sleep(Duration::from_micros(rng.range(whole / 20, whole * 4 / 5)));
            let was = t.running();
            drop(t);
            m.event(if was { "interrupted" } else { "too_late" });
        } else {
            let bodies = Arc::new(b"{\"data\":".to_vec());
            let r = match rng.below(4) {
                0 => Reply::Full(500, Arc::new(vec![])),
                1 => Reply::Hangup,
                2 => Reply::Full(200, bodies),
                _ => Reply::Full(503, Arc::new(b"{}".to_vec())),
            };
            let f: BTreeMap<u64, Reply> = (0..100_000).filter(|x| x % rng.clone().range(7, count) == 3).map(|x| (x, r.clone())).collect();
            *node.fail.lock().unwrap() = f;
            let end = t.end(LONG);
            node.fail.lock().unwrap().clear();
            m.event("failing_node");
            m.check(end.is_some(), "hangs", "the tool neither ends nor waits for the chain", || json!({"network": n.name, "epoch": e}));
            if end == Some(true) {
                let sim = node.sim.lock().unwrap();
                judge(m, &sim, n, dir.path(), e, &j, top, t.said());
            }
        }
        if m.violated() {
            return;
        }
    }
    let mut t = Tool::start(node, n.name, dir.path(), &args);
    let end = t.end(LONG);
    let sim = node.sim.lock().unwrap();
    m.case(&(sim.seed, e, "disturbed"), true);
    m.event("resumed");
    m.check(end == Some(true), "not-resumed", "after an interruption the step can no longer be built", || story(&sim, n, e, top, t.said()));
    judge(m, &sim, n, dir.path(), e, &j, top, t.said());
}

// ------------------------------------------------------------------------------------------------ G02
/// the tool's networks: their thresholds, and what happens if they are mixed up
pub fn networks(m: &mut Monitor, rng: &mut Rng) {
    let nets = nets::both();
    for (i, n) in nets.iter().enumerate() {
        let mut k = Knobs::calm(rng);
        k.n = 60;
        k.spec = n.spec.clone();
        k.base = n.fulu + 20 + rng.below(40_000);
        // between the thresholds of the two networks
        k.part = vec![rng.range(740, 800)];
        let sim = Sim::new(rng, k);
        let node = Served::new(sim);
        let top = *node.head.lock().unwrap();
        let sim = node.sim.lock().unwrap();
        let c: Vec<_> = starts(&sim, n, top).into_iter().filter(|x| x.0 < fin_at(&sim, top)).collect();
        let Some((e, want)) = c.into_iter().find(|x| n.name == "mainnet" || x.1.is_ok()) else {
            m.event("generator_missed");
            continue;
        };
        drop(sim);
        let es = e.to_string();
        for x in [n, &nets[1 - i]] {
            let dir = Scratch::new();
            let mut t = Tool::start(&node, x.name, dir.path(), &["build-input", "--finalized-epoch", &es]);
            let end = t.end(LONG);
            let sim = node.sim.lock().unwrap();
            let log = t.said();
            m.case(&("tool", n.name, x.name, sim.seed), true);
            m.event(&format!("{}:cli", x.name));
            if x.name == n.name && want.is_ok() {
                m.check(end == Some(true), &format!("tool-{}-refuses", n.name), "the tool refuses what its network's rules allow", || story(&sim, n, e, top, log.clone()));
                if end == Some(true) {
                    judge(m, &sim, n, dir.path(), e, &want.as_ref().unwrap().0, top, log);
                }
            } else {
                let key = format!("tool-{}-on-{}", x.name, n.name);
                let f = files(dir.path(), x.name, e);
                m.check(end == Some(false) && f.journal.is_none(), &key, "the tool accepts a step that its network's rules do not allow", || json!({"ended_well": end, "tool": x.name, "written": written(dir.path(), x.name), "chain": story(&sim, n, e, top, log)}));
            }
        }
    }
}
