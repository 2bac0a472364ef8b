//! H12: many lookups at a time over the same store.
use crate::store::{client, known, listing, lookup, same, tell, words, Known, Scratch};
use crate::web::{Reply, Web};
use host::{CacheStateProvider, PersistentApiStateProvider};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use support::{fingerprint, Monitor, Outcome, Rng};
use z_core::{Epoch, MainnetEthSpec as E};

#[derive(Clone)]
enum Call {
    Found(bool),
    Failed(String),
}
struct Entry {
    who: usize,
    slot: u64,
    from: Instant,
    to: Instant,
    call: Call,
}

struct Leaving<'a>(&'a AtomicUsize);
impl Drop for Leaving<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

pub fn h12() -> i32 {
    let mut m = Monitor::new("H12", 14, 240, "distinct (slots, participants and their providers, failures of the node, what was stored before) of a round with calls under way at the same time");
    m.assume("the HTTP client is a stand-in with the real one's interface; the requests go over the loopback network");
    for (e, n) in [("found", 300), ("at_once:same_slot", 60), ("fetched_twice_at_once", 5), ("failed_with_the_node", 3), ("stored_before", 5), ("older_cleared", 5), ("rounds", 12), ("asked_again_nothing", 20)] {
        m.require(e, n);
    }
    let mut rng = m.rng("crowd");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
    let web = Web::crowded(25);
    let mut pool: Vec<Known> = vec![];
    let mut i = 0;
    while m.go(i, 3, m.scale(400, 20_000), 1.0) {
        if i % 20 == 0 {
            pool = [64, 96, 97, 12_345 * 32].iter().map(|s| {
                let fork = *rng.pick(&[5, 6]);
                known(&mut rng, *s, fork, true)
            }).collect();
        }
        i += 1;
        round(&mut m, &mut rng, &pool, &web, &rt);
        if m.violated() {
            break;
        }
    }
    m.finish()
}

fn round(m: &mut Monitor, rng: &mut Rng, pool: &[Known], web: &Web, rt: &tokio::runtime::Runtime) {
    let dir = Scratch::new();
    let n = rng.urange(2, 8);
    let shared = rng.below(3);
    let slots: Vec<usize> = {
        let mut v: Vec<usize> = (0..pool.len()).collect();
        rng.shuffle(&mut v);
        v.truncate(rng.urange(1, 3));
        v
    };
    // some of it may be there already
    let mut before = BTreeSet::new();
    {
        let f = host::FileProvider::<E>::new(&dir.0).unwrap();
        for k in slots.iter().map(|i| &pool[*i]) {
            if rng.chance(1, 5) {
                f.save_state(&k.state).expect("saved");
                before.insert(k.slot);
            }
        }
        // and an older state that somebody else clears in the meantime
        f.save_state(&known(rng, 3, 5, false).state).expect("saved");
    }
    let clears = rng.bool();
    m.events_n("stored_before", before.len() as u64);
    // the node: what it answers, and when it failed
    let table: BTreeMap<String, (u64, Arc<Vec<u8>>)> = pool
        .iter()
        .map(|k| {
            let mut b = format!("{{\"version\":\"{}\",\"execution_optimistic\":false,\"finalized\":true,\"data\":", k.name).into_bytes();
            b.extend(k.json.iter());
            b.push(b'}');
            (format!("/eth/v2/debug/beacon/states/{}", k.slot), (k.slot, Arc::new(b)))
        })
        .collect();
    let failing: Vec<bool> = { let often = rng.chance(1, 3); (0..64).map(|_| often && rng.chance(1, 3)).collect() };
    let asked: Arc<Mutex<Vec<(Instant, u64, bool)>>> = Default::default();
    {
        let (asked, table) = (asked.clone(), table);
        let failing = failing.clone();
        web.script(move |p| {
            let mut a = asked.lock().unwrap();
            let Some((slot, b)) = table.get(p) else { return Reply::Full(404, Arc::new(vec![])) };
            let fails = failing[a.len() % failing.len()];
            a.push((Instant::now(), *slot, fails));
            if fails { Reply::Full(503, Arc::new(b"{}".to_vec())) } else { Reply::Full(200, b.clone()) }
        });
    }
    let one = PersistentApiStateProvider::<E>::new(&dir.0, client(web)).expect("a provider");
    let gate = Barrier::new(n);
    let log: Mutex<Vec<Entry>> = Default::default();
    let (left, m_clears) = (AtomicUsize::new(n), AtomicU64::new(0));
    let mut rng_clear = rng.fork();
    let seeds: Vec<u64> = (0..n).map(|_| rng.u64()).collect();
    {
        let (gate, log, slots, dir, left, m_clears) = (&gate, &log, &slots, &dir, &left, &m_clears);
        std::thread::scope(|s| {
            for (who, seed) in seeds.iter().enumerate() {
                let mut rng = Rng::new(*seed);
                // clones of one provider, providers of the same directory, or some of each
                let p = if shared == 0 || shared == 1 && who % 2 == 0 { one.clone() } else { PersistentApiStateProvider::<E>::new(&dir.0, client(web)).expect("a provider") };
                let cached = rng.chance(1, 3);
                s.spawn(move || {
                    let _one_less = Leaving(left);
                    let c = CacheStateProvider::new(p.clone());
                    gate.wait();
                    for step in 0..rng.range(1, 3) {
                        let k = &pool[if step == 0 { slots[0] } else { *rng.pick(slots) }];
                        if rng.chance(1, 3) {
                            std::thread::sleep(Duration::from_millis(rng.below(30)));
                        }
                        let from = Instant::now();
                        let r = rt.block_on(async { if cached { lookup(&c, k.slot) } else { lookup(&p, k.slot) } });
                        let call = match &r {
                            Outcome::Ret(Ok(s)) => Call::Found(same(s, k)),
                            o => Call::Failed(match o {
                                Outcome::Ret(Err(host::StateProviderError::Other(e))) => format!("error: {e:#}"),
                                o => tell(o),
                            }),
                        };
                        log.lock().unwrap().push(Entry { who, slot: k.slot, from, to: Instant::now(), call });
                    }
                });
            }
            if clears {
                let p = one.clone();
                // at first, and again and again while states are under way
                s.spawn(move || {
                    let busy = rng_clear.bool();
                    while left.load(SeqCst) > 0 {
                        let _ = p.clear_states_before(Epoch::from(2));
                        m_clears.fetch_add(1, SeqCst);
                        if busy {
                            std::thread::yield_now();
                        } else {
                            std::thread::sleep(Duration::from_millis(1));
                        }
                    }
                });
            }
        });
    }
    let mut log = log.into_inner().unwrap();
    log.sort_by_key(|e| e.to);
    let asked = std::mem::take(&mut *asked.lock().unwrap());
    m.event("rounds");
    m.case(&(n, shared, fingerprint(&seeds), fingerprint(&before), failing.iter().filter(|f| **f).count()), true);
    let kinds = ["clones of one", "clones and own ones", "own ones"];
    let tale = || -> Value {
        let t0 = log.iter().map(|e| e.from).min().unwrap();
        let at = |t: Instant| t.saturating_duration_since(t0).as_millis() as u64;
        json!({"participants": n, "providers": kinds[shared as usize], "stored_before": before, "files": listing(&dir.0).keys().collect::<Vec<_>>(),
            "calls": log.iter().map(|e| json!({"who": e.who, "slot": e.slot, "from_ms": at(e.from), "to_ms": at(e.to), "end": match &e.call { Call::Found(ok) => if *ok { "the state".to_string() } else { "another state".into() }, Call::Failed(w) => w.clone() }})).collect::<Vec<_>>(),
            "node": asked.iter().map(|(t, s, f)| json!({"ms": at(*t), "slot": s, "fails": f})).collect::<Vec<_>>()})
    };
    // a failed answer can be blamed for one failed call that was under way
    let mut blame: Vec<(Instant, u64)> = asked.iter().filter(|a| a.2).map(|a| (a.0, a.1)).collect();
    for e in &log {
        match &e.call {
            Call::Found(ok) => {
                m.event("found");
                m.check(*ok, "another-state", "a lookup gives another state than that of its slot", tale);
            }
            Call::Failed(_) => match blame.iter().position(|b| b.1 == e.slot && e.from <= b.0 && b.0 <= e.to) {
                Some(i) => {
                    blame.remove(i);
                    m.event("failed_with_the_node");
                }
                None => {
                    m.check(false, "lookup-fails", "a lookup fails although the node has answered it, because of lookups by others", tale);
                }
            },
        }
        if m.violated() {
            return;
        }
    }
    let overlaps = log.iter().enumerate().map(|(i, a)| log[i + 1..].iter().filter(|b| a.slot == b.slot && a.from < b.to && b.from < a.to).count()).sum::<usize>();
    m.events_n("at_once:same_slot", overlaps as u64);
    // what was found is stored, whole, once, and nothing else is
    let want: BTreeMap<u64, &Known> = slots.iter().map(|i| (pool[*i].slot, &pool[*i])).collect();
    let found: BTreeSet<u64> = log.iter().filter(|e| matches!(e.call, Call::Found(_))).map(|e| e.slot).chain(before.iter().copied()).collect();
    m.events_n("fetched_twice_at_once", want.keys().filter(|s| asked.iter().filter(|a| a.1 == **s && !a.2).count() > 1).count() as u64);
    let files: BTreeMap<String, u64> = listing(&dir.0).into_iter().filter(|f| !f.0.starts_with("3_")).collect();
    let mut contents: Vec<u64> = files.values().copied().collect();
    let mut due: Vec<u64> = found.iter().map(|s| words(&want[s].ssz)).collect();
    contents.sort();
    due.sort();
    m.check(contents == due, "store", "the directory does not hold exactly the states that were found", tale);
    if clears {
        m.event("older_cleared");
        m.events_n("cleared_in_between", m_clears.into_inner());
        m.check(listing(&dir.0).len() == files.len(), "not-cleared", "an older state is still there after clearing", tale);
    }
    // and it is not asked for again
    let fresh = PersistentApiStateProvider::<E>::new(&dir.0, client(web)).expect("a provider");
    for s in &found {
        let r = rt.block_on(async { lookup(&fresh, *s) });
        m.event("asked_again_nothing");
        m.check(matches!(&r, Outcome::Ret(Ok(x)) if same(x, want[s])), "later-lookup", "a state that was found is not found later", || json!({"slot": s, "result": tell(&r), "round": tale()}));
    }
    m.check(web.taken().len() == asked.len(), "asked-again", "the node is asked for a state that is stored", tale);
    if m.wants_sample() && overlaps > 3 {
        m.sample(tale);
    }
}
