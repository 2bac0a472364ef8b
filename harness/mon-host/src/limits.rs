//! H11: how often the beacon API client asks the node.
use crate::store::Scratch;
use crate::web::{Reply, Web};
use host::BeaconClient;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use support::{fingerprint, hex, Monitor, Rng};

type Bad = (&'static str, &'static str, Value);
#[derive(Default)]
struct Trial {
    fp: u64,
    events: Vec<(&'static str, u64)>,
    bad: Option<Bad>,
}
impl Trial {
    fn check(&mut self, ok: bool, key: &'static str, what: &'static str, d: impl FnOnce() -> Value) {
        if !ok && self.bad.is_none() {
            self.bad = Some((key, what, d()));
        }
    }
    fn event(&mut self, e: &'static str, n: u64) {
        self.events.push((e, n));
    }
}
/// more than any scheduling delay
const LATE: Duration = Duration::from_secs(20);

#[derive(Clone, Debug, PartialEq, Eq)]
enum Said {
    Value(u64),
    Absent,
    Failed,
}
/// the answer of the node for a resource: a header or checkpoints that carry a number
fn body(n: u64) -> Arc<Vec<u8>> {
    let cp = |e: u64| json!({"epoch": e.to_string(), "root": format!("0x{}", hex(&[e as u8; 32]))});
    let r = format!("0x{}", hex(&[7; 32]));
    Arc::new(json!({"execution_optimistic": false, "finalized": true, "data": {
        "root": r, "canonical": true, "header": {"message": {"slot": n.to_string(), "proposer_index": "3", "parent_root": r, "state_root": r, "body_root": r}, "signature": format!("0x{}", hex(&[1; 96]))},
        "previous_justified": cp(n), "current_justified": cp(n + 1), "finalized": cp(n)}}).to_string().into_bytes())
}
async fn ask(c: &BeaconClient, header: bool, id: &str) -> Said {
    if header {
        match c.get_block_header(id).await {
            Ok(Some(h)) => Said::Value(h.header.message.slot),
            Ok(None) => Said::Absent,
            Err(_) => Said::Failed,
        }
    } else {
        match c.get_finality_checkpoints(id).await {
            Ok(f) => Said::Value(f.finalized.epoch),
            Err(_) => Said::Failed,
        }
    }
}
fn path(header: bool, id: &str) -> String {
    if header {
        format!("/eth/v1/beacon/headers/{id}")
    } else {
        format!("/eth/v1/beacon/states/{id}/finality_checkpoints")
    }
}
fn said(status: u16, header: bool, n: u64) -> Said {
    match status {
        200 => Said::Value(n),
        404 if header => Said::Absent,
        _ => Said::Failed,
    }
}

/// many calls on clones of a limited client
fn paced(rng: &mut Rng, rt: &tokio::runtime::Runtime, web: &Web) -> Trial {
    let mut t = Trial::default();
    let r = *rng.pick(&[3u32, 5, 8, 13, 21, 34, 55]);
    let clones = rng.urange(1, 6);
    let dir = Scratch::new();
    let mut b = BeaconClient::builder(web.url.clone());
    let form = rng.below(4);
    b = match form {
        0 => b.with_rate_limit(r),
        1 => b.with_rate_limit(*rng.pick(&[0, 1, 100_000])).with_rate_limit(r),
        2 => b.with_cache(&dir.0).with_rate_limit(r),
        _ => b.with_rate_limit(r).with_cache(&dir.0),
    };
    let c = b.build();
    // a burst, then what must wait; perhaps a silence and another burst
    let mut phases = vec![r as u64 + rng.range(r as u64 / 2 + 1, r as u64 + r as u64 / 2 + 1)];
    let silence = Duration::from_millis(rng.range(200, 1500));
    if rng.bool() {
        phases.push(rng.range(r as u64, 2 * r as u64));
    }
    let log: Arc<Mutex<Vec<(Instant, String)>>> = Default::default();
    let statuses: BTreeMap<String, (u16, u64)> = {
        let mut m = BTreeMap::new();
        let mut k = 0;
        for (p, n) in phases.iter().enumerate() {
            for i in 0..*n {
                k += 1;
                m.insert(format!("{p}-{i}"), (*rng.pick(&[200, 200, 404, 429, 500, 503]), k));
            }
        }
        m
    };
    let header = |id: &str| fingerprint(id) % 2 == 0;
    let table: BTreeMap<String, Reply> = statuses.iter().map(|(id, (s, n))| (path(header(id), id), Reply::Full(*s, if *s == 200 { body(*n) } else { Arc::new(b"{}".to_vec()) }))).collect();
    let l = log.clone();
    web.script(move |p| {
        l.lock().unwrap().push((Instant::now(), p.to_string()));
        table.get(p).cloned().unwrap_or(Reply::Full(400, Arc::new(vec![])))
    });
    let total: u64 = phases.iter().sum();
    let start = Instant::now();
    let due = Duration::from_secs_f64(total as f64 / r as f64) + silence + LATE;
    let mut wrong = vec![];
    let mut late = false;
    'phases: for (p, n) in phases.iter().enumerate() {
        if p > 0 {
            std::thread::sleep(silence);
        }
        let hs: Vec<_> = (0..clones)
            .map(|k| {
                let (c, mine): (_, Vec<(String, Said)>) = (c.clone(), (0..*n).filter(|i| *i as usize % clones == k).map(|i| format!("{p}-{i}")).map(|id| (id.clone(), said(statuses[&id].0, header(&id), statuses[&id].1))).collect());
                let all_at_once = fingerprint(&(k, total)) % 3 == 0;
                rt.spawn(async move {
                    let mut v = vec![];
                    if all_at_once {
                        let c = &c;
                        let got = futures::future::join_all(mine.iter().map(|(id, _)| ask(c, fingerprint(id.as_str()) % 2 == 0, id))).await;
                        v.extend(mine.iter().zip(got).filter(|((_, w), g)| w != g).map(|((id, w), g)| format!("{id}: {g:?} for {w:?}")));
                    } else {
                        for (id, w) in mine {
                            let g = ask(&c, fingerprint(id.as_str()) % 2 == 0, &id).await;
                            if g != w {
                                v.push(format!("{id}: {g:?} for {w:?}"));
                            }
                        }
                    }
                    v
                })
            })
            .collect();
        for h in hs {
            let left = due.saturating_sub(start.elapsed()) + Duration::from_millis(1);
            match rt.block_on(async { tokio::time::timeout(left, h).await }) {
                Ok(Ok(v)) => wrong.extend(v),
                Ok(Err(e)) => wrong.push(e.to_string()),
                Err(_) => {
                    late = true;
                    break 'phases;
                }
            }
        }
    }
    let log = std::mem::take(&mut *log.lock().unwrap());
    let at: Vec<f64> = log.iter().map(|(i, _)| (*i - start).as_secs_f64()).collect();
    let d = |i: usize, j: usize| json!({"rate": r, "clones": clones, "builder": form, "phases": phases, "silence": silence.as_secs_f64(), "calls": total, "requests": at.len(), "from": at.get(i), "to": at.get(j), "within": j + 1 - i.min(j)});
    t.fp = fingerprint(&(r, clones, form, &phases, silence.as_millis() as u64));
    t.check(!late, "late", "calls of a limited client wait far longer than the limit asks for", || d(0, at.len().saturating_sub(1)));
    let rate = r as f64;
    for (i, x) in at.iter().enumerate() {
        // what was sent since the client exists: no delay can make it look like more
        t.check((i + 1) as f64 <= rate * x + rate + 0.01, "rate", "more requests than the limit allows since the client was built", || d(0, i));
    }
    for i in 0..at.len() {
        for j in i..at.len() {
            t.check((j - i + 1) as f64 <= rate * (at[j] - at[i] + 0.5) + rate, "rate-window", "more requests in a period than the limit allows", || d(i, j));
        }
    }
    if !late {
        let asked: BTreeSet<&String> = log.iter().map(|x| &x.1).collect();
        t.check(at.len() as u64 == total && asked.len() as u64 == total, "once", "calls and requests do not match one to one", || d(0, at.len().saturating_sub(1)));
        t.check(wrong.is_empty(), "answers", "a limited client gives other answers", || json!({"rate": r, "wrong": wrong}));
    }
    t.event("limited_client", 1);
    t.event("limited_request", at.len() as u64);
    t.event("had_to_wait", at.len().saturating_sub(r as usize) as u64);
    if phases.len() > 1 {
        t.event("after_silence", 1);
    }
    if clones > 1 {
        t.event("shared_by_clones", 1);
    }
    t
}

/// no limit, in particular after one was set
fn unlimited(rng: &mut Rng, rt: &tokio::runtime::Runtime, web: &Web) -> Trial {
    let mut t = Trial::default();
    let mut b = BeaconClient::builder(web.url.clone());
    let form = rng.below(3);
    b = match form {
        0 => b,
        1 => b.with_rate_limit(0),
        _ => b.with_rate_limit(1).with_rate_limit(0),
    };
    let c = b.build();
    let n = rng.range(40, 80);
    t.fp = fingerprint(&("unlimited", form, n));
    web.script(move |_| Reply::Full(200, body(5)));
    let done = rt.block_on(async {
        tokio::time::timeout(LATE, async {
            for i in 0..n {
                if ask(&c, i % 2 == 0, &i.to_string()).await != Said::Value(5) {
                    return false;
                }
            }
            true
        })
        .await
    });
    t.check(done.is_ok(), "delayed", "an unlimited client delays its requests", || json!({"builder": form, "calls": n}));
    t.check(!matches!(done, Ok(false)), "answers", "an unlimited client gives other answers", || json!({"builder": form}));
    t.event("unlimited_client", 1);
    t
}

/// a client that keeps answers
fn kept(rng: &mut Rng, rt: &tokio::runtime::Runtime, web: &Web) -> Trial {
    let mut t = Trial::default();
    let dir = Scratch::new();
    let rate = *rng.pick(&[0u32, 0, 2, 3]);
    let build = || {
        let b = BeaconClient::builder(web.url.clone());
        match rate {
            0 => b.with_cache(&dir.0),
            r if r % 2 == 0 => b.with_cache(&dir.0).with_rate_limit(r),
            r => b.with_rate_limit(r).with_cache(&dir.0),
        }
        .build()
    };
    let ids: Vec<String> = (0..rng.urange(1, 4)).map(|_| if rng.bool() { rng.below(1_000_000).to_string() } else { format!("0x{}", hex(&rng.bytes32())) }).collect();
    let seen: Arc<Mutex<(Vec<String>, BTreeMap<String, u16>, u64)>> = Default::default();
    let s = seen.clone();
    // every answer is another one, so that an old one is told from a new one
    web.script(move |p| {
        let mut x = s.lock().unwrap();
        x.0.push(p.to_string());
        x.2 += 1;
        match x.1.get(p).copied().unwrap_or(200) {
            200 => Reply::Full(200, body(x.2)),
            st => Reply::Full(st, Arc::new(b"{}".to_vec())),
        }
    });
    let mut c = build();
    let mut have: BTreeMap<String, Said> = BTreeMap::new();
    let begun = Instant::now();
    let mut sent = 0u64;
    let steps = if rate == 0 { 80 } else { 150 };
    for step in 0..steps {
        if rng.chance(1, 12) {
            c = build();
            t.event("reopened", 1);
        }
        let (header, id) = (rng.bool(), rng.pick(&ids).clone());
        let p = path(header, &id);
        // a limited client fails only a few times, to keep this short
        let st = if rng.bool() && (rate == 0 || sent < 3) { *rng.pick(&[404, 429, 500, 503]) } else { 200 };
        seen.lock().unwrap().1.insert(p.clone(), st);
        let got = if rng.chance(1, 6) && have.contains_key(&p) {
            // several at once
            let c = &c;
            let v = rt.block_on(async { tokio::time::timeout(LATE, futures::future::join_all((0..4).map(|_| ask(c, header, &id)))).await });
            match v {
                Ok(v) if v.iter().all(|x| *x == v[0]) => Ok(v[0].clone()),
                Ok(v) => {
                    t.check(false, "kept-value", "a kept answer changes", || json!({"resource": p, "got": format!("{v:?}")}));
                    return t;
                }
                Err(e) => Err(e),
            }
        } else {
            rt.block_on(async { tokio::time::timeout(LATE, ask(&c, header, &id)).await })
        };
        let (asked, n) = {
            let mut x = seen.lock().unwrap();
            (std::mem::take(&mut x.0), x.2)
        };
        sent += asked.len() as u64;
        let d = |g: &str| json!({"resource": p, "step": step, "rate": rate, "node would say": st, "got": g, "kept": format!("{:?}", have.get(&p)), "asked": asked});
        let Ok(got) = got else {
            t.check(false, "late", "a call does not return", || d("nothing"));
            return t;
        };
        match have.get(&p) {
            Some(w) => {
                t.check(asked.is_empty(), "asked-again", "a resource is asked for again although its answer is kept", || d(&format!("{got:?}")));
                t.check(got == *w, "kept-value", "a kept answer changes", || d(&format!("{got:?}")));
                t.event("from_cache", 1);
            }
            None => {
                let w = said(st, header, n);
                t.check(asked == [p.clone()], "once", "a call sends other than one request for its resource", || d(&format!("{got:?}")));
                t.check(got == w, "kept-other", "something else than the node's answer is returned", || d(&format!("{got:?}")));
                if st == 200 {
                    have.insert(p.clone(), w);
                    t.event("kept", 1);
                } else {
                    t.event("failure_not_kept", 1);
                }
            }
        }
        if t.bad.is_some() {
            break;
        }
    }
    // what is kept costs no budget: only the requests sent have to wait
    if rate > 0 {
        let due = Duration::from_secs_f64(sent as f64 / rate as f64) + LATE;
        t.check(begun.elapsed() <= due, "kept-waits", "answers that are kept wait for the limit", || json!({"rate": rate, "calls": steps, "requests": sent, "seconds": begun.elapsed().as_secs_f64()}));
        t.event("kept_and_limited", 1);
    }
    t.fp = fingerprint(&("kept", rate, &ids));
    t
}

pub fn h11() -> i32 {
    let mut m = Monitor::new("H11", 16, 240, "distinct (limit, clones, calls, silence) or (kept resources) of a client");
    m.assume("the HTTP client, the limiter and the cache are stand-ins with the interfaces and semantics of reqwest, governor and http-cache; the requests go over the loopback network");
    for (e, n) in [("limited_client", 12), ("limited_request", 300), ("had_to_wait", 100), ("after_silence", 3), ("shared_by_clones", 6), ("unlimited_client", 4), ("kept", 20), ("from_cache", 200), ("failure_not_kept", 8), ("reopened", 20), ("kept_and_limited", 3)] {
        m.require(e, n);
    }
    let mut rng = m.rng("limits");
    let webs: Vec<Web> = (0..10).map(|_| Web::new()).collect();
    let mut i = 0;
    while m.go(i, 3, m.scale(40, 600), 1.0) {
        i += 1;
        let seeds: Vec<Rng> = webs.iter().map(|_| rng.fork()).collect();
        let got: Vec<Trial> = std::thread::scope(|s| {
            let hs: Vec<_> = webs
                .iter()
                .zip(seeds)
                .enumerate()
                .map(|(k, (web, mut rng))| {
                    s.spawn(move || {
                        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                        let t = match k {
                            0..=6 => paced(&mut rng, &rt, web),
                            7 => unlimited(&mut rng, &rt, web),
                            _ => kept(&mut rng, &rt, web),
                        };
                        rt.shutdown_background();
                        t
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| {
                    h.join().unwrap_or_else(|_| {
                        let mut t = Trial::default();
                        t.check(false, "panic", "a client panics", || json!(null));
                        t
                    })
                })
                .collect()
        });
        for t in got {
            m.case(&t.fp, true);
            for (e, n) in &t.events {
                m.events_n(e, *n);
            }
            if let Some((k, w, d)) = t.bad {
                m.check(false, k, w, || d);
                return m.finish();
            }
        }
    }
    m.finish()
}
