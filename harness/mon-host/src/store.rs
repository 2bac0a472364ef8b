//! H05-H07: state providers, interrupted saves, checkpoints.
use crate::fault::{self, Mode};
use crate::states::Made;
use crate::web::{Reply, Web};
use chain_sim::serve::{Ask, Node};
use chain_sim::{Knobs, Sim, SPE};
use core_model::ffg::Cp;
use host::mainnet::BeaconState;
use host::{BeaconClient, CacheStateProvider, FileProvider, PersistentApiStateProvider, StateProvider, StateProviderError};
use serde_json::{json, Value};
use ssz_rs::prelude::HashTreeRoot;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;
use support::{fingerprint, hex, observe, Monitor, Outcome, Rng};
use z_core::{Epoch, MainnetEthSpec as E, Slot};

/// a scratch directory that goes away with its owner
pub struct Scratch(pub PathBuf);
static SCRATCH: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::temp_dir();
        let n = SCRATCH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = base.join(format!("mon-host-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("a scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// a state with its encoding
#[derive(Clone)]
pub struct Known {
    pub slot: u64,
    pub state: Arc<BeaconState>,
    pub ssz: Arc<Vec<u8>>,
    pub json: Arc<Vec<u8>>,
    pub name: String,
}
pub fn known(rng: &mut Rng, slot: u64, fork: usize, json: bool) -> Known {
    let made = Made::at(rng, fork, slot);
    let ssz = made.ssz();
    let state: BeaconState = ssz_rs::deserialize(&ssz).expect("a valid state");
    Known { slot, state: Arc::new(state), json: Arc::new(if json { made.json().into_bytes() } else { vec![] }), ssz: Arc::new(ssz), name: crate::ssz_model::FORKS[fork].into() }
}
pub fn same(s: &BeaconState, k: &Known) -> bool {
    s.version() == k.state.version() && ssz_rs::serialize(s).map(|b| b == *k.ssz).unwrap_or(false)
}
/// a fast fingerprint of a file's content
pub fn words(b: &[u8]) -> u64 {
    b.chunks(8).fold(b.len() as u64, |h, c| {
        let mut x = [0; 8];
        x[..c.len()].copy_from_slice(c);
        (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
    })
}
pub fn listing(dir: &Path) -> BTreeMap<String, u64> {
    let mut v = BTreeMap::new();
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let p = e.path();
        if p.is_dir() {
            v.insert(format!("{n}/"), std::fs::read_dir(&p).unwrap().count() as u64);
        } else {
            v.insert(n, words(&std::fs::read(&p).unwrap()));
        }
    }
    v
}
pub fn lookup(p: &impl StateProvider, slot: u64) -> Outcome<Result<Arc<BeaconState>, StateProviderError>> {
    observe(|| p.state_at_slot(Slot::from(slot)))
}
pub fn tell(o: &Outcome<Result<Arc<BeaconState>, StateProviderError>>) -> String {
    match o {
        Outcome::Ret(Ok(s)) => format!("the {} state of slot {}", s.version(), s.slot()),
        Outcome::Ret(Err(e)) => format!("error: {e}"),
        Outcome::Panic(p) => format!("panic: {p}"),
    }
}

/// names other programs could leave in the directory; none is one the store uses
fn foreign(rng: &mut Rng, slots: &[u64]) -> String {
    let s = *rng.pick(slots);
    match rng.below(12) {
        0 => format!("{s}_notes.txt"),
        1 => format!("{s}"),
        2 => format!("{s}_beacon_state.ssz.bak"),
        3 => format!("000{s}_beacon_state.ssz"),
        4 => format!("{s}_beacon_state.json"),
        5 => format!("{s}_dir/"),
        6 => format!("x{s}_beacon_state.ssz"),
        7 => format!("{s}_beacon_state.ssz~"),
        8 => format!("-{s}_beacon_state.ssz"),
        9 => format!("{s}_"),
        10 => format!("+{s}_beacon_state.ssz"),
        _ => "README".into(),
    }
}

// ------------------------------------------------------------------------------------------------ H05
pub fn h05() -> i32 {
    let mut m = Monitor::new("H05", 16, 240, "distinct (operation, kind of provider, slot, contents of the store) with a store or cache that is not empty");
    m.assume("a beacon node serves a state whose content belongs to the slot it records");
    m.assume("the HTTP client is a stand-in with the real one's interface; the requests go over the loopback network");
    for (e, n) in [
        ("file_saved", 20),
        ("file_found", 15),
        ("file_absent", 15),
        ("overwrite_refused", 8),
        ("cleared_states", 6),
        ("kept_states", 6),
        ("foreign_kept", 10),
        ("cache_hit", 100),
        ("cache_filled", 50),
        ("cache_failure_not_kept", 30),
        ("api_stored", 3),
        ("api_hit", 3),
        ("api_failure", 3),
        ("threads_found", 20),
        ("wrong_slot_refused", 1),
    ] {
        m.require(e, n);
    }
    let mut rng = m.rng("store");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let web = Web::new();
    let mut i = 0;
    while m.go(i, 3, m.scale(60, 2_000), 1.0) {
        i += 1;
        let e = *rng.pick(&[1, 3, 31, 100, 12_345]);
        let mut slots: BTreeSet<u64> = [e * SPE - 1, e * SPE, e * SPE + 1, (e + 1) * SPE - 1, (e + 1) * SPE].into();
        slots.extend([1, 9, 10, 99, 100]);
        let mut slots: Vec<u64> = slots.into_iter().collect();
        rng.shuffle(&mut slots);
        slots.truncate(7);
        let mut pool: Vec<Known> = vec![];
        for (j, s) in slots.iter().enumerate() {
            let fork = if j < 5 { *rng.pick(&[4, 5, 6]) } else { rng.idx(7) };
            pool.push(known(&mut rng, *s, fork, j < 2));
        }
        files(&mut m, &mut rng, &pool, e);
        if m.violated() {
            break;
        }
        for _ in 0..6 {
            cache(&mut m, &mut rng, &pool);
        }
        api(&mut m, &mut rng, &pool, &web, &rt, e);
        if i % 2 == 1 {
            threads(&mut m, &mut rng, &pool, e);
        }
        if m.violated() {
            break;
        }
    }
    m.finish()
}

fn files(m: &mut Monitor, rng: &mut Rng, pool: &[Known], e: u64) {
    let dir = Scratch::new();
    let slots: Vec<u64> = pool.iter().map(|k| k.slot).collect();
    let mut others = BTreeSet::new();
    for _ in 0..rng.below(6) {
        let n = foreign(rng, &slots);
        if let Some(d) = n.strip_suffix('/') {
            if others.contains(d) {
                continue;
            }
            std::fs::create_dir_all(dir.0.join(d)).unwrap();
        } else {
            std::fs::write(dir.0.join(&n), rng.bytes(17)).unwrap();
        }
        others.insert(n);
    }
    let open = || FileProvider::<E>::new(&dir.0).expect("a provider on an existing directory");
    let mut p = open();
    // slot -> its file
    let mut stored: BTreeMap<u64, String> = BTreeMap::new();
    let mut now = listing(&dir.0);
    for _ in 0..rng.range(14, 26) {
        if rng.chance(1, 6) {
            p = open();
        }
        let k = rng.pick(pool);
        let detail = |x: Value, stored: &BTreeMap<u64, String>| json!({"slot": k.slot, "fork": k.name, "stored": stored.keys().collect::<Vec<_>>(), "foreign": others, "what": x});
        match rng.below(10) {
            0..=4 => {
                let r = observe(|| p.save_state(&k.state));
                let after = listing(&dir.0);
                m.case(&("save", k.slot, fingerprint(&stored)), true);
                if stored.contains_key(&k.slot) {
                    m.event("overwrite_refused");
                    if !m.check(matches!(r, Outcome::Ret(Err(_))) && after == now, "overwritten", "saving over a stored state is not refused without effect", || detail(json!(format!("{:?}", r)), &stored)) {
                        return;
                    }
                } else {
                    let new: Vec<_> = after.keys().filter(|n| !now.contains_key(*n)).cloned().collect();
                    let kept = now.iter().all(|(n, f)| after.get(n) == Some(f));
                    if !m.check(matches!(r, Outcome::Ret(Ok(()))) && new.len() == 1 && kept, "save", "saving a state does not add exactly one file", || detail(json!({"result": format!("{r:?}"), "new": new, "kept": kept}), &stored)) {
                        return;
                    }
                    stored.insert(k.slot, new[0].clone());
                    m.event("file_saved");
                }
                now = after;
            }
            5..=7 => {
                let k = match rng.below(3) {
                    // one that is there
                    0 if !stored.is_empty() => pool.iter().find(|k| stored.contains_key(&k.slot)).unwrap(),
                    _ => k,
                };
                let detail = |x: Value, stored: &BTreeMap<u64, String>| json!({"slot": k.slot, "fork": k.name, "stored": stored.keys().collect::<Vec<_>>(), "foreign": others, "what": x});
                let r = lookup(&p, k.slot);
                m.case(&("lookup", k.slot, fingerprint(&stored)), !stored.is_empty());
                let ok = match (&r, stored.contains_key(&k.slot)) {
                    (Outcome::Ret(Ok(s)), true) => {
                        m.event("file_found");
                        same(s, k)
                    }
                    (Outcome::Ret(Err(StateProviderError::NotFound(s))), false) => {
                        m.event("file_absent");
                        s.as_u64() == k.slot
                    }
                    _ => false,
                };
                if !m.check(ok, "lookup", "a lookup does not give the stored state, or not-found if none is stored", || detail(json!(tell(&r)), &stored)) {
                    return;
                }
                if !m.check(listing(&dir.0) == now, "lookup_writes", "a lookup changes the directory", || detail(json!(null), &stored)) {
                    return;
                }
            }
            _ => {
                let before = *rng.pick(&[0, 1, e - 1, e, e + 1, e + 2]);
                let r = observe(|| p.clear_states_before(Epoch::from(before)));
                let gone: Vec<u64> = stored.keys().copied().filter(|s| *s < before * SPE).collect();
                let mut want = now.clone();
                for s in &gone {
                    want.remove(&stored.remove(s).unwrap());
                }
                m.case(&("clear", before, fingerprint(&stored), fingerprint(&others)), !now.is_empty());
                m.events_n("cleared_states", gone.len() as u64);
                m.events_n("kept_states", stored.len() as u64);
                m.events_n("foreign_kept", others.len() as u64);
                let after = listing(&dir.0);
                let lost: Vec<_> = want.keys().filter(|n| !after.contains_key(*n)).collect();
                let left: Vec<_> = after.keys().filter(|n| !want.contains_key(*n)).collect();
                if !m.check(matches!(r, Outcome::Ret(Ok(()))) && after == want, "clear", "clearing does not remove exactly the stored states of earlier slots", || {
                    detail(json!({"before epoch": before, "result": format!("{r:?}"), "wrongly removed": lost, "left behind": left}), &stored)
                }) {
                    return;
                }
                now = after;
            }
        }
        if m.wants_sample() && stored.len() > 2 {
            m.sample(|| json!({"stored": stored, "foreign": others, "cleared around epoch": e}));
        }
    }
    drop(p);
    // a directory is needed
    let none = FileProvider::<E>::new(dir.0.join("none"));
    m.check(none.is_err(), "no_directory", "a provider on a missing directory is not refused", || json!(null));
}

/// a source with scripted failures that counts
struct Source {
    pool: Vec<Known>,
    failing: RefCell<BTreeSet<u64>>,
    asked: RefCell<Vec<u64>>,
    odd: Cell<bool>,
}
#[derive(Clone)]
struct Src(Rc<Source>);
impl StateProvider for Src {
    type Spec = E;
    fn state_at_slot(&self, slot: Slot) -> Result<Arc<BeaconState>, StateProviderError> {
        let s = slot.as_u64();
        self.0.asked.borrow_mut().push(s);
        if self.0.failing.borrow().contains(&s) {
            return Err(if self.0.odd.get() { StateProviderError::Other(anyhow::anyhow!("injected")) } else { StateProviderError::NotFound(slot) });
        }
        self.0.pool.iter().find(|k| k.slot == s).map(|k| k.state.clone()).ok_or(StateProviderError::NotFound(slot))
    }
}
fn cache(m: &mut Monitor, rng: &mut Rng, pool: &[Known]) {
    let src = Rc::new(Source { pool: pool.to_vec(), failing: Default::default(), asked: Default::default(), odd: Cell::new(false) });
    let mut c = CacheStateProvider::new(Src(src.clone()));
    let mut have: BTreeSet<u64> = BTreeSet::new();
    for _ in 0..rng.range(10, 40) {
        src.failing.borrow_mut().clear();
        src.odd.set(rng.bool());
        for k in pool {
            if rng.chance(1, 4) {
                src.failing.borrow_mut().insert(k.slot);
            }
        }
        if rng.chance(1, 12) {
            // a clone remembers what was known when it was made
            c = c.clone();
        }
        let slot = if rng.chance(1, 8) { 77_777 } else { rng.pick(pool).slot };
        let fails = src.failing.borrow().contains(&slot) || slot == 77_777;
        src.asked.borrow_mut().clear();
        let r = lookup(&c, slot);
        let asked = src.asked.borrow().clone();
        m.case(&("cache", slot, fails, fingerprint(&have)), !have.is_empty());
        let d = || json!({"slot": slot, "source fails": fails, "known": have, "asked": asked, "result": tell(&r)});
        let right = |s: &Arc<BeaconState>| pool.iter().any(|k| k.slot == slot && Arc::ptr_eq(&k.state, s)) || pool.iter().any(|k| k.slot == slot && same(s, k));
        if have.contains(&slot) {
            m.event("cache_hit");
            if !m.check(asked.is_empty(), "asked_again", "the source is asked again for a state it already returned", d) {
                return;
            }
            if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if right(s)), "cached_state", "a cached state is not the one of its slot", d) {
                return;
            }
        } else if fails {
            m.event("cache_failure_not_kept");
            let err = match &r {
                Outcome::Ret(Err(StateProviderError::NotFound(s))) => s.as_u64() == slot && (!src.odd.get() || slot == 77_777),
                Outcome::Ret(Err(StateProviderError::Other(e))) => src.odd.get() && e.to_string() == "injected",
                _ => false,
            };
            if !m.check(err && asked == [slot], "cache_failure", "a failing source is not reported as its failure, asked once", d) {
                return;
            }
        } else {
            m.event("cache_filled");
            if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if right(s)) && asked == [slot], "cache_fill", "the source's state is not returned as it is, asked once", d) {
                return;
            }
            have.insert(slot);
        }
    }
}

pub fn client(web: &Web) -> BeaconClient {
    BeaconClient::builder(web.url.clone()).build()
}
fn api(m: &mut Monitor, rng: &mut Rng, pool: &[Known], web: &Web, rt: &tokio::runtime::Runtime, e: u64) {
    let dir = Scratch::new();
    let served: Vec<&Known> = pool.iter().filter(|k| !k.json.is_empty()).collect();
    let mut p = PersistentApiStateProvider::<E>::new(&dir.0, client(web)).expect("a provider");
    let mut stored: BTreeSet<u64> = BTreeSet::new();
    let mut done = BTreeSet::new();
    for step in 0..rng.range(8, 12) {
        if rng.chance(1, 4) {
            p = PersistentApiStateProvider::<E>::new(&dir.0, client(web)).expect("a provider");
        }
        if rng.chance(1, 8) && !stored.is_empty() {
            let before = *rng.pick(&[e, e + 1, e + 2]);
            let r = observe(|| p.clear_states_before(Epoch::from(before)));
            if !m.check(matches!(r, Outcome::Ret(Ok(()))), "api_clear", "clearing fails", || json!(format!("{r:?}"))) {
                return;
            }
            stored.retain(|s| *s >= before * SPE);
            m.event("api_cleared");
            continue;
        }
        let k = *rng.pick(&served);
        // what the node will answer
        let wrap = |version: &str, data: &[u8]| {
            let mut b = format!("{{\"version\":\"{version}\",\"execution_optimistic\":false,\"finalized\":true,\"data\":").into_bytes();
            b.extend(data);
            b.push(b'}');
            Arc::new(b)
        };
        let good = wrap(&k.name, &k.json);
        let kind = if step < 3 { rng.below(8) } else { rng.below(14) };
        let other = served.iter().find(|o| o.slot != k.slot);
        let reply = match kind {
            0 => Reply::Full(*rng.pick(&[404, 400, 429, 500, 503]), Arc::new(b"{\"code\":404,\"message\":\"no\"}".to_vec())),
            1 => Reply::Cut(200, good.clone(), rng.idx(good.len())),
            2 => Reply::Full(200, Arc::new(good[..rng.idx(good.len())].to_vec())),
            3 => Reply::Hangup,
            4 => Reply::Full(200, wrap(if k.name == "deneb" { "capella" } else { "deneb" }, &k.json)),
            5 if other.is_some() => {
                let o = other.unwrap();
                Reply::Full(200, wrap(&o.name, &o.json))
            }
            _ => Reply::Full(200, good),
        };
        let wrong_slot = kind == 5 && other.is_some();
        let ok = kind > 5 || (kind == 5 && !wrong_slot);
        web.taken();
        let r2 = reply.clone();
        web.script(move |_| r2.clone());
        let r = rt.block_on(async { lookup(&p, k.slot) });
        let asked = web.taken();
        m.case(&("api", k.slot, kind, fingerprint(&stored)), true);
        let d = || json!({"slot": k.slot, "answer": kind, "stored": stored, "asked": asked, "result": tell(&r)});
        let path = format!("/eth/v2/debug/beacon/states/{}", k.slot);
        if stored.contains(&k.slot) {
            m.event("api_hit");
            if !m.check(asked.is_empty() && matches!(&r, Outcome::Ret(Ok(s)) if same(s, k)), "api_hit", "a stored state is asked for again or not returned as it is", d) {
                return;
            }
        } else if ok {
            m.event("api_stored");
            if !m.check(asked == [path] && matches!(&r, Outcome::Ret(Ok(s)) if same(s, k)), "api_fetch", "a state served by the node is not returned as it is, asked once", d) {
                return;
            }
            stored.insert(k.slot);
            done.insert(k.slot);
        } else {
            m.event(if wrong_slot { "wrong_slot_refused" } else { "api_failure" });
            if !m.check(matches!(&r, Outcome::Ret(Err(_))), if wrong_slot { "api_wrong_slot" } else { "api_failure" }, "an unusable answer is not reported as an error", d) {
                return;
            }
            if !m.check(asked == [path], "api_asked", "the node is asked other than once", d) {
                return;
            }
        }
        // what is stored shows in the files, without the node
        let plain = FileProvider::<E>::new(&dir.0).unwrap();
        for k in &served {
            let r = lookup(&plain, k.slot);
            let ok = match &r {
                Outcome::Ret(Ok(s)) => stored.contains(&k.slot) && same(s, k),
                Outcome::Ret(Err(StateProviderError::NotFound(_))) => !stored.contains(&k.slot),
                _ => false,
            };
            if !m.check(ok, "api_files", "the stored files do not hold exactly the states fetched so far", || json!({"slot": k.slot, "after answer": kind, "stored": stored, "file": tell(&r)})) {
                return;
            }
        }
    }
}

/// lookups while states are saved and cleared by others
fn threads(m: &mut Monitor, rng: &mut Rng, pool: &[Known], e: u64) {
    let dir = Scratch::new();
    let bad: std::sync::Mutex<Vec<String>> = Default::default();
    let found = std::sync::atomic::AtomicU64::new(0);
    let absent = std::sync::atomic::AtomicU64::new(0);
    let pool = &pool[..pool.len().min(4)];
    let seeds: Vec<u64> = (0..6).map(|_| rng.u64()).collect();
    let stop = std::time::Instant::now() + std::time::Duration::from_millis(if m.thorough() { 3000 } else { 700 });
    std::thread::scope(|s| {
        for (t, seed) in seeds.iter().enumerate() {
            let (dir, bad, found, absent) = (&dir.0, &bad, &found, &absent);
            s.spawn(move || {
                let mut rng = Rng::new(*seed);
                let p = FileProvider::<E>::new(dir).unwrap();
                while std::time::Instant::now() < stop && bad.lock().unwrap().is_empty() {
                    let k = rng.pick(pool);
                    match t {
                        0 => {
                            let _ = p.clear_states_before(Epoch::from(e + rng.below(3)));
                            std::thread::sleep(std::time::Duration::from_millis(rng.below(20)));
                        }
                        1 | 2 => {
                            let _ = p.save_state(&k.state);
                        }
                        _ => {
                            let r = observe(|| p.state_at_slot(Slot::from(k.slot)));
                            let ok = match &r {
                                Outcome::Ret(Ok(s)) => {
                                    found.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                    same(s, k)
                                }
                                Outcome::Ret(Err(StateProviderError::NotFound(_))) => {
                                    absent.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                    true
                                }
                                // removed between looking and reading
                                Outcome::Ret(Err(StateProviderError::Other(x))) => x.chain().any(|c| c.downcast_ref::<std::io::Error>().is_some_and(|c| c.kind() == std::io::ErrorKind::NotFound)),
                                _ => false,
                            };
                            if !ok {
                                bad.lock().unwrap().push(format!("slot {}: {}", k.slot, tell(&r)));
                            }
                        }
                    }
                }
            });
        }
    });
    m.events_n("threads_found", found.into_inner());
    m.events_n("threads_absent", absent.into_inner());
    let bad = bad.into_inner().unwrap();
    m.case(&("threads", fingerprint(&seeds)), true);
    m.check(bad.is_empty(), "threads", "a lookup while others save and clear gives neither the state nor not-found", || json!(bad));
}

// ------------------------------------------------------------------------------------------------ H06
/// what the child reports when it got to the end
const SAVED: i32 = 10;
const FAILED: i32 = 11;

pub fn h06() -> i32 {
    let mut m = Monitor::new("H06", 18, 240, "distinct (fault, call or byte it hits, state)");
    m.assume("process death, failing and partial file operations, and power loss with loss of unsynced data are injected at the C library's file operations; resource limits and kill signals are real");
    for (e, n) in [("died", 20), ("save_reported_failure", 10), ("power_lost", 3), ("absent_afterwards", 20), ("complete_afterwards", 5), ("killed", 3), ("limit_death", 3), ("limit_error", 3), ("api_save_failed", 2)] {
        m.require(e, n);
    }
    unsafe {
        let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &no);
    }
    let mut rng = m.rng("faults");
    let mut i = 0u64;
    while m.go(i, 2, m.scale(60, 2_000), 0.85) {
        let e = rng.range(1, 5000);
        let fork = if i == 0 { 5 } else { rng.idx(7) };
        let slot = e * SPE + rng.below(3);
        let k = known(&mut rng, slot, fork, false);
        let other = known(&mut rng, e * SPE + 7, 6, false);
        i += 1;
        // how many file operations a save makes
        let (_, calls) = one_fault(&mut m, &mut rng, &k, &other, Fault::Plan(Mode::Count, usize::MAX, 0, 0));
        if m.violated() {
            break;
        }
        m.events_n("file_operations_of_a_save", calls as u64);
        if !m.check(calls > 0, "unseen", "a save makes no file operation the monitor sees", || json!(null)) {
            break;
        }
        for t in 0..calls.min(24) {
            for mode in [Mode::DieBefore, Mode::DieAfter, Mode::Fail, Mode::FailOn, Mode::PartDie, Mode::PartFail, Mode::Short, Mode::Power] {
                if m.violated() {
                    break;
                }
                let errno = *rng.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EACCES, libc::EINTR]);
                // an interrupted call is tried again: only once
                let errno = if errno == libc::EINTR && mode != Mode::Fail { libc::EIO } else { errno };
                let part = *rng.pick(&[0, 1, 250, 500, 999]);
                one_fault(&mut m, &mut rng, &k, &other, Fault::Plan(mode, t, errno, part));
            }
        }
        one_fault(&mut m, &mut rng, &k, &other, Fault::Plan(Mode::Power, usize::MAX, 0, 300));
        for _ in 0..6 {
            if m.violated() {
                break;
            }
            let n = k.ssz.len() as u64;
            let at = *rng.pick(&[0, 1, 4095, 4096, n / 2, n - 1]);
            let at = if rng.bool() { at } else { rng.below(n) };
            let quiet = rng.bool();
            one_fault(&mut m, &mut rng, &k, &other, Fault::Limit(at, quiet));
            let us = rng.below(4000);
            one_fault(&mut m, &mut rng, &k, &other, Fault::Kill(us));
        }
        if m.violated() {
            break;
        }
    }
    if !m.violated() {
        through_api(&mut m, &mut rng);
    }
    m.finish()
}

#[derive(Clone, Copy, Debug, Hash)]
enum Fault {
    Plan(Mode, usize, i32, u64),
    /// no file may grow beyond; the signal is ignored or deadly
    Limit(u64, bool),
    /// killed after that many microseconds
    Kill(u64),
}

fn one_fault(m: &mut Monitor, rng: &mut Rng, k: &Known, other: &Known, fault: Fault) -> (i32, usize) {
    let dir = Scratch::new();
    let p = FileProvider::<E>::new(&dir.0).unwrap();
    let with_other = rng.chance(1, 3);
    if with_other {
        p.save_state(&other.state).unwrap();
    }
    std::fs::write(dir.0.join("notes.txt"), b"keep").unwrap();
    let mut pipe = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(pipe.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        // the child: saves under the fault, reports, ends without cleaning up
        unsafe {
            libc::alarm(15);
            if let Fault::Limit(n, quiet) = fault {
                libc::signal(libc::SIGXFSZ, if quiet { libc::SIG_IGN } else { libc::SIG_DFL });
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
        }
        if let Fault::Plan(mode, t, errno, part) = fault {
            fault::arm(mode, t, errno, part);
        }
        let r = observe(|| p.save_state(&k.state));
        if let Fault::Plan(Mode::Power, ..) = fault {
            fault::power();
        }
        let n = fault::disarm() as u64;
        let code = match r {
            Outcome::Ret(Ok(())) => SAVED,
            Outcome::Ret(Err(_)) => FAILED,
            Outcome::Panic(_) => 12,
        };
        unsafe {
            libc::syscall(libc::SYS_write, pipe[1], n.to_le_bytes().as_ptr(), 8);
            libc::_exit(code)
        }
    }
    unsafe { libc::close(pipe[1]) };
    if let Fault::Kill(us) = fault {
        std::thread::sleep(std::time::Duration::from_micros(us));
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    let mut st = 0;
    assert_eq!(unsafe { libc::waitpid(pid, &mut st, 0) }, pid);
    let mut n = [0u8; 8];
    unsafe {
        libc::syscall(libc::SYS_read, pipe[0], n.as_mut_ptr(), 8);
        libc::close(pipe[0]);
    }
    let calls = u64::from_le_bytes(n) as usize;
    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -libc::WTERMSIG(st) };
    m.case(&(fault, fingerprint(&*k.ssz)), true);
    match (code, fault) {
        (77, Fault::Plan(Mode::Power, ..)) => m.event("power_lost"),
        (77, _) => m.event("died"),
        (FAILED, Fault::Limit(..)) => m.event("limit_error"),
        (FAILED, _) => m.event("save_reported_failure"),
        (SAVED, _) => m.event("save_reported_success"),
        (12, _) => m.event("save_panicked"),
        (_, Fault::Kill(_)) => m.event("killed"),
        (_, Fault::Limit(..)) => m.event("limit_death"),
        _ => m.event("ended_otherwise"),
    }
    // afterwards
    let p = FileProvider::<E>::new(&dir.0).unwrap();
    let d = |x: Value| json!({"fault": format!("{fault:?}"), "child": code, "slot": k.slot, "size": k.ssz.len(), "files": std::fs::read_dir(&dir.0).unwrap().flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), e.metadata().map(|m| m.len()).unwrap_or(0))).collect::<BTreeMap<_, _>>(), "what": x});
    let r = lookup(&p, k.slot);
    let there = match &r {
        Outcome::Ret(Ok(s)) => {
            m.event("complete_afterwards");
            same(s, k).then_some(true)
        }
        Outcome::Ret(Err(StateProviderError::NotFound(_))) => {
            m.event("absent_afterwards");
            Some(false)
        }
        _ => None,
    };
    let Some(there) = there else {
        m.violate("broken", "an interrupted save leaves a state that is neither absent nor complete", d(json!(tell(&r))));
        return (code, calls);
    };
    if !m.check(there || code != SAVED, "lost", "a save reported as successful is not found", || d(json!(null))) {
        return (code, calls);
    }
    // and again
    let again = observe(|| p.save_state(&k.state));
    if !m.check(there || matches!(again, Outcome::Ret(Ok(()))), "stuck", "a state that could not be saved cannot be saved later either", || d(json!(format!("{again:?}")))) {
        return (code, calls);
    }
    let r = lookup(&p, k.slot);
    if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if same(s, k)), "again", "saving again does not store the state", || d(json!(tell(&r)))) {
        return (code, calls);
    }
    if with_other {
        let r = lookup(&p, other.slot);
        m.check(matches!(&r, Outcome::Ret(Ok(s)) if same(s, other)), "other", "an interrupted save damages another state", || d(json!(tell(&r))));
    }
    m.check(std::fs::read(dir.0.join("notes.txt")).ok().as_deref() == Some(b"keep"), "foreign", "an interrupted save damages a foreign file", || d(json!(null)));
    (code, calls)
}

/// a state fetched while saving fails
fn through_api(m: &mut Monitor, rng: &mut Rng) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let web = Web::new();
    let k = known(rng, 320, 5, true);
    let body = Arc::new([format!("{{\"version\":\"{}\",\"data\":", k.name).as_bytes(), &k.json, b"}"].concat());
    web.script(move |_| Reply::Full(200, body.clone()));
    let mut t = 0;
    loop {
        let dir = Scratch::new();
        let p = PersistentApiStateProvider::<E>::new(&dir.0, client(&web)).unwrap();
        fault::arm(*rng.pick(&[Mode::Fail, Mode::FailOn, Mode::PartFail]), t, libc::ENOSPC, 400);
        let r = rt.block_on(async { lookup(&p, k.slot) });
        let n = fault::disarm();
        if n <= t {
            break;
        }
        t += 1;
        m.case(&("api", t), true);
        let d = |r: &Outcome<_>| json!({"failing file operation": t - 1, "result": tell(r)});
        match &r {
            Outcome::Ret(Ok(s)) if same(s, &k) => m.event("api_save_survived"),
            Outcome::Ret(Err(_)) => m.event("api_save_failed"),
            _ => {
                m.violate("api_state", "a failing save yields a different state", d(&r));
                return;
            }
        }
        // the next lookup gets it, and so does one without the node
        let r = rt.block_on(async { lookup(&p, k.slot) });
        if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if same(s, &k)), "api_again", "after a failed save the state cannot be fetched again", || d(&r)) {
            return;
        }
        let r = lookup(&FileProvider::<E>::new(&dir.0).unwrap(), k.slot);
        if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if same(s, &k)), "api_restored", "after a failed save the state cannot be stored again", || d(&r)) {
            return;
        }
    }
}

// ------------------------------------------------------------------------------------------------ H07
struct Bent<'a> {
    node: Node<'a>,
    slot: u64,
    state: Arc<BeaconState>,
}
impl StateProvider for Bent<'_> {
    type Spec = E;
    fn state_at_slot(&self, slot: Slot) -> Result<Arc<BeaconState>, StateProviderError> {
        if slot.as_u64() == self.slot {
            return Ok(self.state.clone());
        }
        self.node.state_at_slot(slot)
    }
}
fn bend(rng: &mut Rng, s: &BeaconState) -> (BeaconState, &'static str) {
    let mut s = s.clone();
    macro_rules! go {
        ($x:expr) => {{
            let x = $x;
            match rng.below(9) {
                0 => {
                    x.eth1_deposit_index ^= 1;
                    "deposit index"
                }
                1 => {
                    let i = rng.idx(x.validators.len());
                    x.validators[i].exit_epoch ^= 1;
                    "exit epoch"
                }
                2 => {
                    let i = rng.idx(65536);
                    x.randao_mixes[i] = chain_sim::byte_vector(&rng.bytes32());
                    "randao mix"
                }
                3 => {
                    x.latest_block_header.body_root = rng.bytes32().into();
                    "header body"
                }
                4 => {
                    x.latest_block_header.parent_root = rng.bytes32().into();
                    "header parent"
                }
                5 => {
                    x.latest_block_header.proposer_index ^= 1;
                    "header proposer"
                }
                6 => {
                    x.finalized_checkpoint.epoch ^= 1;
                    "finalized"
                }
                7 => {
                    x.earliest_exit_epoch ^= 1;
                    "exit queue"
                }
                _ => {
                    let i = rng.idx(x.balances.len());
                    x.balances[i] ^= 1 << rng.below(40);
                    "balance"
                }
            }
        }};
    }
    let what = match &mut s {
        BeaconState::Electra(x) => go!(x),
        BeaconState::Fulu(x) => go!(x),
        _ => unreachable!(),
    };
    (s, what)
}

pub fn h07() -> i32 {
    let mut m = Monitor::new("H07", 14, 240, "distinct (chain history, checkpoint or boundary asked, tampering)");
    m.assume("the simulated chain stands for a node that serves, for a slot without block, the latest block's state advanced to that slot");
    for (e, n) in [("resolved", 60), ("resolved_over_empty_start", 20), ("refused_wrong_root", 100), ("refused_wrong_epoch", 40), ("refused_tampered", 40), ("provider_failure_reported", 30), ("boundary", 60), ("shared_block", 3), ("tampered:header state root", 20), ("tampered:advanced", 5)] {
        m.require(e, n);
    }
    let mut rng = m.rng("boundaries");
    let mut i = 0;
    while m.go(i, 6, m.scale(300, 20_000), 1.0) {
        i += 1;
        let mut k = Knobs::calm(&mut rng);
        k.epochs = rng.range(4, 7);
        k.n = rng.urange(34, 60);
        k.miss = *rng.pick(&[0, 20, 60, 90]);
        k.miss_start = *rng.pick(&[0, 50, 80, 100]);
        k.miss_run = *rng.pick(&[0, 30, 90]);
        if rng.chance(1, 3) {
            k.spec.fulu_fork_epoch = Some(Epoch::new(k.base + rng.below(k.epochs)));
        }
        let sim = Sim::new(&mut rng, k);
        one_h07(&mut m, &mut rng, &sim);
        if m.violated() {
            break;
        }
    }
    m.finish()
}
fn one_h07(m: &mut Monitor, rng: &mut Rng, sim: &Sim) {
    let node = Node::new(sim);
    let mut last = 0;
    for e in sim.k.base + 1..sim.k.base + sim.k.epochs {
        let start = e * SPE;
        let Some((&bslot, block)) = sim.blocks.range(..=start).next_back() else { continue };
        if !block.anchored || sim.snap(start).is_none() {
            continue;
        }
        let cp = sim.checkpoint(e);
        let want = sim.state(bslot).unwrap();
        let d = |x: Value| json!({"epoch": e, "checkpoint": [cp.e, hex(&cp.r)], "boundary block": bslot, "slots before the start": start - bslot, "what": x});
        let seed = sim.seed;
        let right = |s: &BeaconState| *s == *want;
        // the right one
        let r = observe(|| node.state_at_checkpoint(cp.real()));
        m.case(&(seed, e, "right"), true);
        if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if right(s)), "resolve", "a checkpoint does not resolve to the state of its block", || d(json!(tell(&r)))) {
            return;
        }
        m.event("resolved");
        if bslot < start {
            m.event("resolved_over_empty_start");
        }
        if last == bslot {
            m.event("shared_block");
        }
        last = bslot;
        // the boundary alone
        let r = observe(|| node.state_at_epoch_boundary(Epoch::new(e)));
        m.event("boundary");
        if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if right(s)), "boundary", "the epoch boundary is not the state of the last block at or before the epoch's start", || d(json!(tell(&r)))) {
            return;
        }
        let r = observe(|| node.state_at_epoch(Epoch::new(e)));
        if !m.check(matches!(&r, Outcome::Ret(Ok(s)) if s.slot() == start && **s == *sim.state(start).unwrap()), "epoch_state", "the state at an epoch is not the one of its first slot", || d(json!(tell(&r)))) {
            return;
        }
        // wrong roots and epochs
        let mut wrong: Vec<(Cp, &str)> = vec![];
        for bit in [0, 255, rng.below(256)] {
            let mut r = cp.r;
            r[(bit / 8) as usize] ^= 1 << (bit % 8);
            wrong.push((Cp::new(e, r), "refused_wrong_root"));
        }
        wrong.push((Cp::new(e, [0; 32]), "refused_wrong_root"));
        // the root of the unfinished header, of the state, of the parent, of a later block
        let h = want.latest_block_header().clone();
        wrong.push((Cp::new(e, h.hash_tree_root().unwrap().0), "refused_wrong_root"));
        wrong.push((Cp::new(e, want.hash_tree_root().unwrap().0), "refused_wrong_root"));
        wrong.push((Cp::new(e, block.hdr.parent), "refused_wrong_root"));
        if let Some((_, b)) = sim.blocks.range(start + 1..).next() {
            wrong.push((Cp::new(e, b.root), "refused_wrong_root"));
        }
        for o in [e - 1, e + 1] {
            if o > sim.k.base && o * SPE <= sim.head() && sim.checkpoint_root(o) != cp.r {
                wrong.push((Cp::new(o, cp.r), "refused_wrong_epoch"));
            }
        }
        for (w, ev) in wrong {
            if w == cp || !sim.snaps_has(w.e * SPE) {
                continue;
            }
            let r = observe(|| node.state_at_checkpoint(w.real()));
            m.case(&(seed, w.e, w.r), true);
            m.event(ev);
            if !m.check(matches!(&r, Outcome::Ret(Err(StateProviderError::InvalidCheckpoint))), "wrong", "a checkpoint with another block's root is not reported as invalid", || d(json!({"asked": [w.e, hex(&w.r)], "result": tell(&r)}))) {
                return;
            }
        }
        // a provider that returns a state the block does not commit to
        for kind in 0..3 {
            let (mut bent, mut what) = bend(rng, &want);
            if kind == 2 {
                // one that claims, in its header, to be the right one
                what = "header state root";
                if rng.bool() {
                    // and is it, but for slots without block
                    bent = (*want).clone();
                    if let Some(s) = (bslot + 1..bslot + 5).find(|s| rng.bool() && !sim.blocks.contains_key(s) && sim.snap(*s).is_some()) {
                        bent = (*sim.state(s).unwrap()).clone();
                        what = "advanced";
                    }
                }
                let root = want.hash_tree_root().unwrap();
                match &mut bent {
                    BeaconState::Electra(x) => x.latest_block_header.state_root = root,
                    BeaconState::Fulu(x) => x.latest_block_header.state_root = root,
                    _ => unreachable!(),
                }
            }
            let p = Bent { node: node.clone(), slot: bslot, state: Arc::new(bent) };
            let r = observe(|| p.state_at_checkpoint(cp.real()));
            m.case(&(seed, e, what), true);
            m.event("refused_tampered");
            m.event(&format!("tampered:{what}"));
            if !m.check(matches!(&r, Outcome::Ret(Err(StateProviderError::InvalidCheckpoint))), "tampered", "a state that the checkpoint's block does not commit to is accepted", || d(json!({"changed": what, "result": tell(&r)}))) {
                return;
            }
        }
        // failures of the provider are failures
        for s in BTreeSet::from([start, bslot]) {
            node.log.fail.borrow_mut().insert(Ask::State(s));
            let r = observe(|| node.state_at_checkpoint(cp.real()));
            node.log.fail.borrow_mut().clear();
            m.event("provider_failure_reported");
            if !m.check(matches!(&r, Outcome::Ret(Err(StateProviderError::Other(_)))), "failure", "a failing provider is not reported as such", || d(json!({"failing slot": s, "result": tell(&r)}))) {
                return;
            }
        }
        if m.wants_sample() {
            m.sample(|| json!({"epoch": e, "boundary block": bslot, "first slot": start}));
        }
    }
}
