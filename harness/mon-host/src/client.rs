//! H08: the beacon API client against a scripted node.
use crate::ssz_model::{self as sm, Ty, Val, FORKS};
use crate::states::Made;
use crate::store::Scratch;
use crate::web::{Reply, Web};
use host::{BeaconClient, ChainReader};
use serde_json::{json, Value};
use ssz_rs::prelude::HashTreeRoot;
use std::sync::Arc;
use support::{fingerprint, hex, observe, Monitor, Outcome, Rng};

const FAILING: [u16; 13] = [400, 401, 403, 405, 406, 410, 415, 429, 500, 501, 502, 503, 504];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Call {
    Header,
    Block,
    Final,
    State,
    ReadHeader,
    ReadBlock,
    ReadCons,
}
use Call::*;
const CALLS: [Call; 7] = [Header, Block, Final, State, ReadHeader, ReadBlock, ReadCons];
impl Call {
    fn path(self, id: &str) -> String {
        match self {
            Header | ReadHeader => format!("/eth/v1/beacon/headers/{id}"),
            Block | ReadBlock => format!("/eth/v2/beacon/blocks/{id}"),
            Final | ReadCons => format!("/eth/v1/beacon/states/{id}/finality_checkpoints"),
            State => format!("/eth/v2/debug/beacon/states/{id}"),
        }
    }
    fn may_be_absent(self) -> bool {
        matches!(self, Header | Block | ReadHeader | ReadBlock)
    }
}

/// what a call gave: the encoding of the value, or nothing, or an error
#[derive(Clone, Debug, PartialEq, Eq)]
enum Got {
    Data(Vec<u8>),
    Absent,
    Err(String),
}
fn run(rt: &tokio::runtime::Runtime, c: &BeaconClient, call: Call, id: &str) -> Outcome<Got> {
    observe(|| rt.block_on(ask(c, call, id)))
}
async fn ask(c: &BeaconClient, call: Call, id: &str) -> Got {
    fn opt<T, E: std::fmt::Display>(r: Result<Option<T>, E>, f: impl FnOnce(T) -> Vec<u8>) -> Got {
        match r {
            Ok(Some(x)) => Got::Data(f(x)),
            Ok(None) => Got::Absent,
            Err(e) => Got::Err(e.to_string()),
        }
    }
    let cp = |epoch: u64, root: &[u8]| [&epoch.to_le_bytes()[..], root].concat();
    match call {
        Header => opt(c.get_block_header(id).await, |h| {
            let mut v = h.root.as_slice().to_vec();
            v.push(h.canonical as u8);
            v.extend(ssz_rs::serialize(&h.header).unwrap());
            v
        }),
        Block => opt(c.get_block(id).await, |b| b.hash_tree_root().unwrap().as_slice().to_vec()),
        Final => opt(c.get_finality_checkpoints(id).await.map(Some), |f| {
            [&f.previous_justified, &f.current_justified, &f.finalized].iter().flat_map(|x| cp(x.epoch, x.root.as_slice())).collect()
        }),
        State => opt(c.get_beacon_state(id).await.map(Some), |s| ssz_rs::serialize(&s).unwrap()),
        ReadHeader => opt(ChainReader::get_block_header(c, id).await, |h| ssz_rs::serialize(&h).unwrap()),
        ReadBlock => opt(ChainReader::get_block(c, id).await, |b| b.hash_tree_root().unwrap().as_slice().to_vec()),
        ReadCons => opt(ChainReader::get_consensus_state(c, id).await.map(Some), |s| {
            let (j, f) = (s.current_justified_checkpoint(), s.finalized_checkpoint());
            [cp(j.epoch().into(), j.root().as_slice()), cp(f.epoch().into(), f.root().as_slice())].concat()
        }),
    }
}

/// a value the node serves, and what each call should make of it
struct Served {
    body: Value,
    want: Got,
    /// fields that are needed to understand the answer
    needed: Vec<Vec<String>>,
}
fn parse(ty: &Ty, v: &Val) -> Value {
    let mut s = String::new();
    ty.json(v, &mut s);
    serde_json::from_str(&s).unwrap()
}
fn signed(msg: Ty) -> Ty {
    Ty::Cont(vec![("message", msg), ("signature", Ty::Bytes(96))])
}
fn block(electra: bool) -> Ty {
    let eth1 = Ty::Cont(vec![("deposit_root", Ty::Bytes(32)), ("deposit_count", Ty::Num(8)), ("block_hash", Ty::Bytes(32))]);
    let data = Ty::Cont(vec![
        ("slot", Ty::Num(8)),
        ("index", Ty::Num(8)),
        ("beacon_block_root", Ty::Bytes(32)),
        ("source", sm::checkpoint()),
        ("target", sm::checkpoint()),
    ]);
    let mut att = vec![("aggregation_bits", Ty::Bitlist(if electra { 131_072 } else { 2048 })), ("data", data), ("signature", Ty::Bytes(96))];
    if electra {
        att.push(("committee_bits", Ty::Bitvec(64)));
    }
    let mut body = vec![
        ("randao_reveal", Ty::Bytes(96)),
        ("eth1_data", eth1),
        ("graffiti", Ty::Bytes(32)),
        ("attestations", Ty::List(Box::new(Ty::Cont(att)), if electra { 8 } else { 128 })),
    ];
    if electra {
        body.push(("execution_requests", Ty::Cont(vec![("withdrawals", Ty::List(Box::new(Ty::Bytes(32)), 16))])));
    }
    Ty::Cont(vec![
        ("slot", Ty::Num(8)),
        ("proposer_index", Ty::Num(8)),
        ("parent_root", Ty::Bytes(32)),
        ("state_root", Ty::Bytes(32)),
        ("body", Ty::Cont(body)),
    ])
}
/// all paths into a value, except the ones below an array
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if let Value::Object(o) = v {
        for (k, x) in o {
            at.push(k.clone());
            out.push(at.clone());
            paths(x, at, out);
            at.pop();
        }
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    p.iter().fold(v, |v, k| &mut v[k.as_str()])
}

fn serve(rng: &mut Rng, call: Call, state: &Made, state_json: &Value) -> Served {
    let mut body = json!({ "execution_optimistic": rng.bool(), "finalized": rng.bool() });
    let (data, want, version) = match call {
        Header | ReadHeader => {
            let ty = Ty::Cont(vec![("root", Ty::Bytes(32)), ("canonical", Ty::Bool), ("header", signed(sm::header()))]);
            let v = ty.gen(rng);
            let want = if call == Header { ty.ssz(&v) } else { ty.ty("header").unwrap().ssz(ty.field(&v, "header").unwrap()) };
            (parse(&ty, &v), Got::Data(want), None)
        }
        Block | ReadBlock => {
            let electra = rng.chance(2, 3);
            let ty = signed(block(electra));
            let v = ty.gen(rng);
            let want = ty.ty("message").unwrap().root(ty.field(&v, "message").unwrap()).to_vec();
            (parse(&ty, &v), Got::Data(want), Some(if electra { *rng.pick(&["electra", "fulu"]) } else { "deneb" }.to_string()))
        }
        Final | ReadCons => {
            let ty = Ty::Cont(vec![("previous_justified", sm::checkpoint()), ("current_justified", sm::checkpoint()), ("finalized", sm::checkpoint())]);
            let mut v = ty.gen(rng);
            // mostly what a chain could be in, with every order of the epochs
            let mut e = [rng.below(4), rng.below(4), rng.below(4)].map(|d| d + if rng.bool() { 100 } else { 0 });
            if rng.chance(1, 6) {
                e[1 + rng.idx(2)] = u64::MAX;
            }
            let zero = rng.chance(1, 12);
            if let Val::L(l) = &mut v {
                for (c, e) in l.iter_mut().zip(e) {
                    sm::checkpoint().set(c, "epoch", Val::B(if zero { 0 } else { e }.to_le_bytes().to_vec()));
                    if zero {
                        sm::checkpoint().set(c, "root", Val::B(vec![0; 32]));
                    }
                }
            }
            let b = ty.ssz(&v);
            let want = if call == Final {
                Got::Data(b)
            } else if u64::from_le_bytes(b[80..88].try_into().unwrap()) < u64::from_le_bytes(b[40..48].try_into().unwrap()) || b[40..].iter().all(|x| *x == 0) {
                Got::Data(b[40..].to_vec())
            } else {
                Got::Err("no valid state".into())
            };
            (parse(&ty, &v), want, None)
        }
        State => (state_json.clone(), Got::Data(state.ssz()), Some(FORKS[state.fork].to_string())),
    };
    let mut needed = vec![vec!["data".to_string()]];
    if call == State {
        needed.push(vec!["version".into()]);
        for f in ["slot", "validators", "fork", "finalized_checkpoint"] {
            needed.push(vec!["data".into(), f.into()]);
        }
    } else {
        paths(&data, &mut vec!["data".into()], &mut needed);
        // what only tells the kinds of blocks apart, and what is not looked at
        needed.retain(|p| !p.iter().any(|k| k == "execution_requests"));
        if matches!(call, Block | ReadBlock) {
            needed.retain(|p| p.get(1).is_none_or(|k| k != "signature"));
        }
        if call == ReadCons {
            // the other checkpoint plays no role
            needed.retain(|p| p.get(1).is_none_or(|k| k != "previous_justified"));
        }
        if call == ReadHeader {
            needed.retain(|p| p.get(1).is_none_or(|k| k == "header"));
        }
    }
    body["data"] = data;
    if let Some(v) = version {
        body["version"] = json!(v);
    }
    Served { body, want, needed }
}
/// fields a reader does not know
fn decorate(rng: &mut Rng, v: &mut Value) {
    if let Value::Object(o) = v {
        if rng.chance(1, 3) {
            o.insert("zz_unknown".into(), json!({"x": [1, "2", null]}));
        }
        o.values_mut().for_each(|x| decorate(rng, x));
    }
}
/// spoils the answer so that it has no meaning any more
fn spoil(rng: &mut Rng, s: &Served) -> (String, Vec<u8>) {
    let mut v = s.body.clone();
    let p = rng.pick(&s.needed).clone();
    let name = p.join(".");
    let how = rng.below(10);
    let text = |v: &Value| v.to_string().into_bytes();
    match how {
        0 | 1 => {
            at(&mut v, &p[..p.len() - 1]).as_object_mut().unwrap().remove(&p[p.len() - 1]);
            (format!("without {name}"), text(&v))
        }
        2 => {
            *at(&mut v, &p) = Value::Null;
            (format!("{name} null"), text(&v))
        }
        3 | 4 => {
            let x = at(&mut v, &p);
            *x = match &*x {
                Value::String(t) if t.starts_with("0x") => match rng.below(4) {
                    0 => json!(t[..t.len() - 2]),
                    1 => json!(format!("{t}00")),
                    2 => json!(format!("{}zz", &t[..t.len() - 2])),
                    _ => json!(7),
                },
                Value::String(_) => rng.pick(&[json!("18446744073709551616"), json!("-1"), json!(""), json!("1.5"), json!("12 "), json!("0x1g"), json!([])]).clone(),
                Value::Bool(_) => json!("maybe"),
                Value::Array(_) => json!("none"),
                _ => json!([[]]),
            };
            // bit fields have many lengths, and an object's version names are a matter of their own
            if p.iter().any(|k| k == "version") {
                *x = json!(*rng.pick(&["gloas", "Phase", "", "5"]));
            }
            (format!("{name} = {}", x.to_string().chars().take(60).collect::<String>()), text(&v))
        }
        5 => (
            "another document".into(),
            rng.pick(&[&b""[..], b"{}", b"[]", b"null", b"<html>502</html>", b"\xff\xfe\x00", b"{\"code\":404,\"message\":\"NOT_FOUND\"}", b"{\"data\":[]}", b"{\"data\":\"\"}", b"\"data\""]).to_vec(),
        ),
        6 => {
            let t = text(&v);
            let n = rng.idx(t.len());
            (format!("the first {n} bytes"), t[..n].to_vec())
        }
        7 => {
            v["data"] = json!([s.body["data"].clone()]);
            ("data in a list".into(), text(&v))
        }
        8 => (String::from("data moved up"), text(&s.body["data"])),
        _ => {
            let mut t = text(&v);
            t.extend(b"}");
            ("trailing bytes".into(), t)
        }
    }
}

pub fn h08() -> i32 {
    let mut m = Monitor::new("H08", 12, 240, "distinct (call, answer) that was neither a plain success nor a plain 404");
    m.assume("the HTTP client is a stand-in with the real one's interface; the requests go over the loopback network");
    m.assume("which containers exist, and how their values are written in JSON, is that of the stand-in for ethereum-consensus");
    for (e, n) in [
        ("value", 100),
        ("absent", 30),
        ("failing_status", 60),
        ("spoiled", 100),
        ("cut", 20),
        ("hangup", 10),
        ("noise", 10),
        ("version_of_another_fork", 6),
        ("invalid_checkpoints", 4),
        ("concurrent", 20),
        ("through_cache", 10),
        ("state_value", 5),
    ] {
        m.require(e, n);
    }
    let mut rng = m.rng("client");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let web = Web::new();
    let mut i = 0;
    while m.go(i, 4, m.scale(60, 3_000), 1.0) {
        i += 1;
        let fork = if i % 2 == 1 { *rng.pick(&[5, 6]) } else { rng.idx(7) };
        let state = Made::new(&mut rng, fork);
        let state_json: Value = serde_json::from_str(&state.json()).unwrap();
        // the node may live below a path
        let mut url = web.url.clone();
        let prefix = if rng.chance(1, 4) { "/node/7" } else { "" };
        if !prefix.is_empty() {
            url = url.join("node/7/").unwrap();
        }
        let mut b = BeaconClient::builder(url.clone());
        if rng.chance(1, 3) {
            b = b.with_rate_limit(*rng.pick(&[0, 100_000, u32::MAX]));
        }
        let c = b.build();
        for k in 0..60 {
            let call = if k < 6 { State } else { *rng.pick(&[Header, Block, Final, ReadHeader, ReadBlock, ReadCons]) };
            one(&mut m, &mut rng, &rt, &web, &c, prefix, call, &state, &state_json);
            if m.violated() {
                return m.finish();
            }
        }
        together(&mut m, &mut rng, &rt, &web, &c, prefix, &state, &state_json);
        cached(&mut m, &mut rng, &rt, &web, &state, &state_json);
        if m.violated() {
            break;
        }
    }
    m.finish()
}

fn some_id(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => "head".into(),
        1 => "finalized".into(),
        2 => "genesis".into(),
        3 => format!("0x{}", hex(&rng.bytes32())),
        4 => rng.u64().to_string(),
        _ => rng.below(10_000_000).to_string(),
    }
}

#[allow(clippy::too_many_arguments)]
fn one(m: &mut Monitor, rng: &mut Rng, rt: &tokio::runtime::Runtime, web: &Web, c: &BeaconClient, prefix: &str, call: Call, state: &Made, state_json: &Value) {
    let id = some_id(rng);
    let mut s = serve(rng, call, state, state_json);
    if call != State {
        decorate(rng, &mut s.body["data"]);
    }
    let good = Arc::new(s.body.to_string().into_bytes());
    let kind = if call == State { *rng.pick(&[0, 0, 3, 4, 5, 7, 11, 11, 11]) } else { rng.below(10) };
    let (what, reply, want) = match kind {
        0..=2 => ("its value".to_string(), Reply::Full(200, good), s.want.clone()),
        3 => {
            let body = if rng.bool() { good } else { Arc::new(b"{\"code\":404,\"message\":\"NOT_FOUND: beacon block\"}".to_vec()) };
            let want = if call.may_be_absent() { Got::Absent } else { Got::Err("404".into()) };
            ("404".into(), Reply::Full(404, body), want)
        }
        4 => {
            let st = *rng.pick(&FAILING);
            let body = if rng.bool() { good } else { Arc::new(format!("{{\"code\":{st},\"message\":\"no\"}}").into_bytes()) };
            m.event("failing_status");
            (st.to_string(), Reply::Full(st, body), Got::Err(st.to_string()))
        }
        5 | 6 | 10 => {
            let (w, b) = spoil(rng, &s);
            m.event("spoiled");
            (w, Reply::Full(200, Arc::new(b)), Got::Err("malformed".into()))
        }
        7 => {
            let n = rng.idx(good.len());
            m.event("cut");
            (format!("{n} of {} bytes", good.len()), Reply::Cut(200, good, n), Got::Err("cut".into()))
        }
        8 => {
            m.event("hangup");
            ("hangup".into(), Reply::Hangup, Got::Err("hangup".into()))
        }
        9 => {
            m.event("noise");
            let n = rng.urange(1, 80);
            ("noise".into(), Reply::Noise(rng.bytes(n)), Got::Err("noise".into()))
        }
        _ => {
            // the data of one fork declared as another's
            let v = FORKS[(state.fork + 1 + rng.idx(6)) % 7];
            s.body["version"] = json!(v);
            m.event("version_of_another_fork");
            (format!("declared as {v}"), Reply::Full(200, Arc::new(s.body.to_string().into_bytes())), Got::Err("version".into()))
        }
    };
    web.taken();
    let r2 = reply.clone();
    web.script(move |_| r2.clone());
    let got = run(rt, c, call, &id);
    let asked = web.taken();
    m.case(&(call, fingerprint(&what), kind), kind > 3);
    let d = || json!({"call": format!("{call:?}"), "id": id, "answer": what, "asked": asked, "got": short(&got), "fork": FORKS[state.fork]});
    let path = format!("{prefix}{}", call.path(&id));
    if !m.check(!asked.is_empty() && asked.iter().all(|a| *a == path), "path", "another resource is asked for than the one named", d) {
        return;
    }
    match (&want, kind) {
        (Got::Data(_), _) => m.event(if call == State { "state_value" } else { "value" }),
        (Got::Absent, _) => m.event("absent"),
        (Got::Err(_), 0..=2) => m.event("invalid_checkpoints"),
        _ => {}
    }
    judge(m, &got, &want, d);
}
fn judge(m: &mut Monitor, got: &Outcome<Got>, want: &Got, d: impl Fn() -> Value) -> bool {
    match (want, got) {
        (_, Outcome::Panic(_)) => m.check(false, "panic", "an answer makes the client panic", d),
        (Got::Data(w), Outcome::Ret(g)) => m.check(matches!(g, Got::Data(x) if x == w), "value", "a served value is not returned as it is", d),
        (Got::Absent, Outcome::Ret(g)) => m.check(*g == Got::Absent, "absent", "a missing block is not reported as absent", d),
        (Got::Err(_), Outcome::Ret(g)) => m.check(matches!(g, Got::Err(_)), "error", "a failure is reported as absence or data", d),
    }
}
fn short(o: &Outcome<Got>) -> String {
    match o {
        Outcome::Ret(Got::Data(b)) => format!("{} bytes {}", b.len(), hex(&b[..b.len().min(120)])),
        o => format!("{o:?}"),
    }
}

/// several requests under way at once, each with its own answer
#[allow(clippy::too_many_arguments)]
fn together(m: &mut Monitor, rng: &mut Rng, rt: &tokio::runtime::Runtime, web: &Web, c: &BeaconClient, prefix: &str, state: &Made, state_json: &Value) {
    let mut table = std::collections::HashMap::new();
    let mut jobs = vec![];
    for n in 0..rng.urange(5, 12) {
        let call = if n == 0 { State } else { *rng.pick(&CALLS[..3]) };
        let id = format!("{n}");
        let s = serve(rng, call, state, state_json);
        let (reply, want) = match rng.below(5) {
            0 if call != State && call.may_be_absent() => (Reply::Full(404, Arc::new(vec![])), Got::Absent),
            1 if call != State => (Reply::Full(500, Arc::new(s.body.to_string().into_bytes())), Got::Err("500".into())),
            _ => (Reply::Full(200, Arc::new(s.body.to_string().into_bytes())), s.want.clone()),
        };
        table.insert(format!("{prefix}{}", call.path(&id)), reply);
        jobs.push((call, id, want));
    }
    web.script(move |p| table.get(p).cloned().unwrap_or(Reply::Full(404, Arc::new(vec![]))));
    let got = observe(|| {
        rt.block_on(async {
            let hs: Vec<_> = jobs
                .iter()
                .map(|(call, id, _)| {
                    let (c, call, id) = (c.clone(), *call, id.clone());
                    tokio::spawn(async move { ask(&c, call, &id).await })
                })
                .collect();
            let mut v = vec![];
            for h in hs {
                v.push(h.await.expect("a finished request"));
            }
            v
        })
    });
    web.taken();
    let Outcome::Ret(got) = got else {
        m.check(false, "panic", "concurrent requests panic", || json!(format!("{got:?}")));
        return;
    };
    for ((call, id, want), g) in jobs.iter().zip(got) {
        m.event("concurrent");
        let g = Outcome::Ret(g);
        if !judge(m, &g, want, || json!({"call": format!("{call:?}"), "id": id, "concurrent": true, "got": short(&g)})) {
            return;
        }
    }
}

/// a client that keeps answers: failures are not kept, values stay the same
fn cached(m: &mut Monitor, rng: &mut Rng, rt: &tokio::runtime::Runtime, web: &Web, state: &Made, state_json: &Value) {
    let dir = Scratch::new();
    let c = BeaconClient::builder(web.url.clone()).with_cache(&dir.0).with_rate_limit(100_000).build();
    for _ in 0..4 {
        let call = *rng.pick(&[Header, Block, Final, ReadHeader]);
        let id = format!("0x{}", hex(&rng.bytes32()));
        let s = serve(rng, call, state, state_json);
        let mut said = vec![];
        for step in 0..4 {
            let (reply, want) = match (step, rng.below(3)) {
                (0, _) | (1, 0) => {
                    let st = *rng.pick(&[404, 500, 503]);
                    let absent = st == 404 && call.may_be_absent();
                    (Reply::Full(st, Arc::new(b"{}".to_vec())), if absent { Got::Absent } else { Got::Err(st.to_string()) })
                }
                _ => (Reply::Full(200, Arc::new(s.body.to_string().into_bytes())), s.want.clone()),
            };
            web.script(move |_| reply.clone());
            let got = run(rt, &c, call, &id);
            web.taken();
            said.push(short(&got));
            m.event("through_cache");
            // once served, an answer may come out of the cache
            let kept = matches!(&got, Outcome::Ret(g) if *g == s.want) && said.iter().filter(|x| **x == said[said.len() - 1]).count() > 1;
            if kept {
                continue;
            }
            if !judge(m, &got, &want, || json!({"call": format!("{call:?}"), "id": id, "cache": true, "answers": said})) {
                return;
            }
        }
    }
}
