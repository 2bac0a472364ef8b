//! H10: beacon states of all forks through their encodings.
use crate::ssz_model::{self as sm, Ty, Val, FORKS};
use host::mainnet::BeaconState;
use serde_json::{json, Value};
use ssz_rs::prelude::HashTreeRoot;
use support::{fingerprint, hex, observe, Monitor, Outcome, Rng};

/// a state described independently of the code under test
pub struct Made {
    pub fork: usize,
    pub ty: Ty,
    pub val: Val,
}
impl Made {
    pub fn new(rng: &mut Rng, fork: usize) -> Made {
        let ty = sm::state(fork);
        let val = ty.gen(rng);
        Made { fork, ty, val }
    }
    pub fn at(rng: &mut Rng, fork: usize, slot: u64) -> Made {
        let mut m = Made::new(rng, fork);
        m.ty.set(&mut m.val, "slot", Val::B(slot.to_le_bytes().to_vec()));
        m
    }
    pub fn ssz(&self) -> Vec<u8> {
        self.ty.ssz(&self.val)
    }
    pub fn json(&self) -> String {
        let mut s = String::new();
        self.ty.json(&self.val, &mut s);
        s
    }
    pub fn field(&self, name: &str) -> Option<Vec<u8>> {
        Some(self.ty.ty(name)?.ssz(self.ty.field(&self.val, name)?))
    }
}

fn acc(s: &BeaconState, name: &str) -> Option<Vec<u8>> {
    let e = |r: Result<Vec<u8>, ssz_rs::SerializeError>| Some(r.expect("an encodable field"));
    match name {
        "genesis_validators_root" => e(ssz_rs::serialize(&s.genesis_validators_root())),
        "slot" => e(ssz_rs::serialize(&s.slot())),
        "fork" => e(ssz_rs::serialize(s.fork())),
        "latest_block_header" => e(ssz_rs::serialize(s.latest_block_header())),
        "state_roots" => e(ssz_rs::serialize(s.state_roots())),
        "historical_roots" => e(ssz_rs::serialize(s.historical_roots())),
        "validators" => e(ssz_rs::serialize(s.validators())),
        "balances" => e(ssz_rs::serialize(s.balances())),
        "randao_mixes" => e(ssz_rs::serialize(s.randao_mixes())),
        "previous_epoch_attestations" => e(ssz_rs::serialize(s.previous_epoch_attestations()?)),
        "current_epoch_attestations" => e(ssz_rs::serialize(s.current_epoch_attestations()?)),
        "previous_justified_checkpoint" => e(ssz_rs::serialize(s.previous_justified_checkpoint())),
        "current_justified_checkpoint" => e(ssz_rs::serialize(s.current_justified_checkpoint())),
        "finalized_checkpoint" => e(ssz_rs::serialize(s.finalized_checkpoint())),
        "previous_epoch_participation" => e(ssz_rs::serialize(s.previous_epoch_participation()?)),
        "current_epoch_participation" => e(ssz_rs::serialize(s.current_epoch_participation()?)),
        _ => unreachable!(),
    }
}
const ACCESSORS: [&str; 16] = [
    "genesis_validators_root",
    "slot",
    "fork",
    "latest_block_header",
    "state_roots",
    "historical_roots",
    "validators",
    "balances",
    "randao_mixes",
    "previous_epoch_attestations",
    "current_epoch_attestations",
    "previous_justified_checkpoint",
    "current_justified_checkpoint",
    "finalized_checkpoint",
    "previous_epoch_participation",
    "current_epoch_participation",
];

/// the first difference, for the report
fn differ(a: &Value, b: &Value, path: String) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{path}.{k} missing")),
                    Some(w) => {
                        if let Some(d) = differ(v, w, format!("{path}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{path}.{k} added"))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (v, w))| differ(v, w, format!("{path}[{i}]"))),
        _ => (a != b).then(|| format!("{path}: {} != {}", a.to_string().chars().take(80).collect::<String>(), b.to_string().chars().take(80).collect::<String>())),
    }
}

/// everything a decoded state must agree with
fn faithful(m: &mut Monitor, made: &Made, s: &BeaconState, bytes: &[u8], from: &str) -> bool {
    let f = FORKS[made.fork];
    let d = |x: Value| json!({"fork": f, "from": from, "what": x});
    if !m.check(s.version().to_string() == f, "version", "a decoded state is of another fork", || d(json!(s.version().to_string()))) {
        return false;
    }
    let again = ssz_rs::serialize(s).expect("encodable");
    if !m.check(again == bytes, "reencode", "encoding a decoded state gives other bytes", || d(json!({"lengths": [bytes.len(), again.len()], "first": bytes.iter().zip(&again).position(|x| x.0 != x.1)}))) {
        return false;
    }
    let root = s.hash_tree_root().expect("a root").0;
    if !m.check(root == made.ty.root(&made.val), "root", "a decoded state has another tree root", || d(json!(hex(&root)))) {
        return false;
    }
    for a in ACCESSORS {
        let want = made.field(a);
        let got = acc(s, a);
        if !m.check(got == want, "accessor", "an accessor does not return the field", || d(json!({"field": a, "want": want.map(|x| x.len()), "got": got.as_ref().map(|x| x.len())}))) {
            return false;
        }
        m.event("field_compared");
    }
    true
}

pub fn h10() -> i32 {
    let mut m = Monitor::new("H10", 15, 240, "distinct (fork, state content, encoding or corruption)");
    m.assume("the containers of the unavailable ethereum-consensus crate are stand-ins; Electra and Fulu states and the fork dispatch are the repository's");
    for f in FORKS {
        m.require(&format!("ssz_{f}"), 2);
        m.require(&format!("json_{f}"), 1);
    }
    m.require("corrupt_refused", 40);
    m.require("corrupt_json_refused", 6);
    let mut rng = m.rng("states");
    let mut i = 0u64;
    while m.go(i, 14, m.scale(2_000, 100_000), 1.0) {
        let fork = (i % 7) as usize;
        let with_json = i / 7 % 2 == 0;
        i += 1;
        let made = Made::new(&mut rng, fork);
        one(&mut m, &mut rng, &made, with_json);
    }
    m.finish()
}

fn one(m: &mut Monitor, rng: &mut Rng, made: &Made, with_json: bool) {
    let f = FORKS[made.fork];
    let bytes = made.ssz();
    let detail = |x: Value| json!({"fork": f, "length": bytes.len(), "what": x});
    m.case(&fingerprint(&bytes), true);
    let st = match observe(|| ssz_rs::deserialize::<BeaconState>(&bytes)) {
        Outcome::Ret(Ok(s)) => s,
        o => {
            m.violate("ssz_refused", "a valid encoding of a supported fork's state is not decoded", detail(json!(match o {
                Outcome::Ret(Err(e)) => e.to_string(),
                Outcome::Panic(p) => p,
                _ => unreachable!(),
            })));
            return;
        }
    };
    m.event(&format!("ssz_{f}"));
    if !faithful(m, made, &st, &bytes, "ssz") {
        return;
    }
    if m.wants_sample() {
        m.sample(|| json!({"fork": f, "bytes": bytes.len(), "root": hex(&made.ty.root(&made.val))}));
    }
    if with_json {
        let text = made.json();
        let out = serde_json::to_string(&st).expect("a JSON text");
        if out != text {
            let d = differ(&serde_json::from_str(&text).unwrap(), &serde_json::from_str(&out).unwrap_or(Value::Null), String::new());
            if !m.check(d.is_none(), "json_content", "the JSON encoding of a decoded state has other content", || detail(json!(d))) {
                return;
            }
        }
        match observe(|| serde_json::from_str::<BeaconState>(&text)) {
            Outcome::Ret(Ok(s)) => {
                m.event(&format!("json_{f}"));
                m.case(&(fingerprint(&bytes), 1), true);
                if !m.check(s == st, "json_state", "decoding JSON and SSZ gives different states", || detail(json!(s.version().to_string()))) {
                    return;
                }
                if !faithful(m, made, &s, &bytes, "json") {
                    return;
                }
            }
            o => {
                m.violate("json_refused", "a valid JSON encoding is not decoded", detail(json!(format!("{:?}", o.ret().map(|r| r.map(|_| ()).map_err(|e| e.to_string()))))));
                return;
            }
        }
        // a text that is no state of any fork
        let bad = match rng.below(4) {
            0 => text[..rng.urange(1, text.len() - 1)].to_string(),
            1 => {
                let k = *rng.pick(&["validators", "randao_mixes", "finalized_checkpoint", "slot", "latest_block_header"]);
                text.replacen(&format!("\"{k}\":"), &format!("\"x{k}\":"), 1)
            }
            2 => {
                // one hex digit less
                let at = text.find("\"block_roots\":[\"0x").unwrap() + 18 + 3;
                format!("{}{}", &text[..at], &text[at + 1..])
            }
            _ => text.replacen("\"slot\":\"", "\"slot\":\"-", 1),
        };
        match observe(|| serde_json::from_str::<BeaconState>(&bad)) {
            Outcome::Ret(Err(_)) => m.event("corrupt_json_refused"),
            o => {
                m.violate("json_corrupt", "a corrupted JSON text is decoded or panics", detail(json!(o.is_panic())));
                return;
            }
        }
    }
    // corrupted encodings
    for _ in 0..4 {
        let mut b = bytes.clone();
        // what must be refused whatever the rest of the content is
        let (how, sure) = match rng.below(8) {
            0 => {
                let n = rng.idx(b.len());
                b.truncate(n);
                // below the smallest fixed part of any fork there is nothing to decode
                ("truncated", n < 2_600_000)
            }
            1 => {
                let n = rng.urange(1, 40);
                b.extend(rng.bytes(n));
                ("extended", false)
            }
            2 => {
                // the first offset: historical_roots
                let at = 8 + 32 + 8 + 16 + 112 + 2 * 8192 * 32;
                let o = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                let x = if rng.bool() { o ^ (1 << rng.below(32)) } else { rng.u64() as u32 };
                b[at..at + 4].copy_from_slice(&x.to_le_bytes());
                ("first_offset", x != o && x as usize > b.len())
            }
            3 => {
                let at = 8 + 32 + 8 + 16 + 112 + 2 * 8192 * 32 + 4 + 72 + *rng.pick(&[0, 12, 16]);
                let x = *rng.pick(&[u32::MAX, b.len() as u32 + 1, 0]);
                b[at..at + 4].copy_from_slice(&x.to_le_bytes());
                ("offset_out_of_range", true)
            }
            4 => {
                // slashed flag of the first validator
                let Some(Val::L(v)) = made.ty.field(&made.val, "validators") else { unreachable!() };
                if v.is_empty() {
                    continue;
                }
                let Some(Val::B(h)) = made.ty.field(&made.val, "historical_roots") else { unreachable!() };
                let Some(Val::L(e)) = made.ty.field(&made.val, "eth1_data_votes") else { unreachable!() };
                let at = 8 + 32 + 8 + 16 + 112 + 2 * 8192 * 32;
                let o = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
                b[o + h.len() + e.len() * 72 + 48 + 32 + 8] = rng.range(2, 255) as u8;
                ("bad_bool", true)
            }
            5 => {
                b = rng.bytes(rng.clone().urange(0, 4000));
                ("noise", true)
            }
            _ => {
                for _ in 0..rng.range(1, 3) {
                    let i = rng.idx(b.len());
                    b[i] ^= 1 << rng.below(8);
                }
                ("flipped", false)
            }
        };
        m.case(&(fingerprint(&b), how), true);
        match observe(|| ssz_rs::deserialize::<BeaconState>(&b)) {
            Outcome::Ret(Err(_)) => m.event("corrupt_refused"),
            Outcome::Ret(Ok(s)) => {
                m.event("corrupt_decoded");
                let again = ssz_rs::serialize(&s).unwrap_or_default();
                if !m.check(!sure && again == b, "corrupt", "bytes that encode no state are decoded", || detail(json!({"how": how, "decoded as": s.version().to_string()}))) {
                    return;
                }
            }
            Outcome::Panic(p) => {
                m.violate("corrupt_panic", "undecodable bytes cause a panic instead of an error", detail(json!({"how": how, "panic": p})));
                return;
            }
        }
    }
}
