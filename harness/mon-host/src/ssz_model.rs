//! SSZ and JSON encodings and tree roots out of a description of the types, independent of any SSZ library.
use core_model::spec::sha;
use support::{hex, Rng};

pub type Hash = [u8; 32];

#[derive(Clone, Debug)]
pub enum Ty {
    /// little-endian number of this many bytes, quoted decimal in JSON
    Num(usize),
    Bool,
    /// fixed bytes, hex in JSON
    Bytes(usize),
    ByteList(usize),
    Bitvec(usize),
    Bitlist(usize),
    Vect(Box<Ty>, usize),
    List(Box<Ty>, u64),
    Cont(Vec<(&'static str, Ty)>),
}
use Ty::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// an atom, or the concatenated atoms of a sequence of them
    B(Vec<u8>),
    Bits(Vec<bool>),
    L(Vec<Val>),
}

impl Ty {
    pub fn atom(&self) -> Option<usize> {
        match self {
            Num(n) | Bytes(n) => Some(*n),
            Bool => Some(1),
            _ => None,
        }
    }
    /// size if fixed
    pub fn fixed(&self) -> Option<usize> {
        match self {
            Num(n) | Bytes(n) => Some(*n),
            Bool => Some(1),
            Bitvec(n) => Some(n.div_ceil(8)),
            ByteList(_) | Bitlist(_) | List(..) => None,
            Vect(t, n) => Some(t.fixed()? * n),
            Cont(f) => f.iter().map(|x| x.1.fixed()).sum(),
        }
    }
    fn atom_value(&self, rng: &mut Rng, out: &mut Vec<u8>) {
        match self {
            Bool => out.push(rng.bool() as u8),
            Num(n) => {
                let mut b = rng.bytes(*n);
                match rng.below(6) {
                    0 => b.fill(0),
                    1 => b.fill(255),
                    2 => b[1..].fill(0),
                    _ => {}
                }
                out.extend(b)
            }
            Bytes(n) => {
                let mut b = rng.bytes(*n);
                if rng.chance(1, 12) {
                    b.fill(0)
                }
                out.extend(b)
            }
            _ => unreachable!(),
        }
    }
    pub fn gen(&self, rng: &mut Rng) -> Val {
        match self {
            Num(_) | Bool | Bytes(_) => {
                let mut v = vec![];
                self.atom_value(rng, &mut v);
                Val::B(v)
            }
            ByteList(n) => {
                let k = rng.urange(0, *n);
                Val::B(rng.bytes(k))
            }
            Bitvec(n) => Val::Bits((0..*n).map(|_| rng.bool()).collect()),
            Bitlist(n) => {
                let k = rng.urange(0, (*n).min(40));
                Val::Bits((0..k).map(|_| rng.bool()).collect())
            }
            Vect(t, n) => t.seq(rng, *n),
            List(t, lim) => {
                let k = match rng.below(5) {
                    0 => 0,
                    1 => 1,
                    _ => rng.below(24.min(*lim)),
                };
                t.seq(rng, k as usize)
            }
            Cont(f) => Val::L(f.iter().map(|(_, t)| t.gen(rng)).collect()),
        }
    }
    fn seq(&self, rng: &mut Rng, n: usize) -> Val {
        let Some(k) = self.atom() else { return Val::L((0..n).map(|_| self.gen(rng)).collect()) };
        if n > 1000 {
            // mostly zero, mostly random, or repeating
            let mut v = match rng.below(3) {
                0 => vec![0; n * k],
                1 => rng.bytes(n * k),
                _ => {
                    let b = rng.bytes(k);
                    b.iter().copied().cycle().take(n * k).collect()
                }
            };
            for _ in 0..rng.below(20) {
                let i = rng.idx(n);
                v[i * k..(i + 1) * k].copy_from_slice(&rng.bytes(k));
            }
            return Val::B(v);
        }
        let mut v = vec![];
        for _ in 0..n {
            self.atom_value(rng, &mut v);
        }
        Val::B(v)
    }

    pub fn ssz(&self, v: &Val) -> Vec<u8> {
        let mut out = vec![];
        self.put(v, &mut out);
        out
    }
    fn put(&self, v: &Val, out: &mut Vec<u8>) {
        match (self, v) {
            (_, Val::B(b)) => out.extend(b),
            (Bitvec(n), Val::Bits(b)) => {
                let mut x = vec![0; n.div_ceil(8)];
                b.iter().enumerate().for_each(|(i, s)| x[i / 8] |= (*s as u8) << (i % 8));
                out.extend(x)
            }
            (Bitlist(_), Val::Bits(b)) => {
                let mut x = vec![0; b.len() / 8 + 1];
                b.iter().chain([&true]).enumerate().for_each(|(i, s)| x[i / 8] |= (*s as u8) << (i % 8));
                out.extend(x)
            }
            (Vect(t, _) | List(t, _), Val::L(l)) => {
                if t.fixed().is_some() {
                    l.iter().for_each(|x| t.put(x, out))
                } else {
                    let parts: Vec<_> = l.iter().map(|x| (t.as_ref(), x)).collect();
                    put_parts(&parts, out)
                }
            }
            (Cont(f), Val::L(l)) => {
                let parts: Vec<_> = f.iter().zip(l).map(|(f, x)| (&f.1, x)).collect();
                put_parts(&parts, out)
            }
            _ => unreachable!("{self:?}"),
        }
    }

    pub fn root(&self, v: &Val) -> Hash {
        match (self, v) {
            (Num(_) | Bool, Val::B(b)) => chunk(b),
            (Bytes(_), Val::B(b)) => bytes_root(b),
            (ByteList(n), Val::B(b)) => mix_len(merkle(&chunks(b), n.div_ceil(32) as u64), b.len()),
            (Bitvec(n), Val::Bits(b)) => merkle(&chunks(&pack_bits(b)), n.div_ceil(256) as u64),
            (Bitlist(n), Val::Bits(b)) => mix_len(merkle(&chunks(&pack_bits(b)), n.div_ceil(256) as u64), b.len()),
            (Vect(t, n), v) => t.seq_root(v, *n as u64),
            (List(t, lim), v) => {
                let n = match v {
                    Val::B(b) => b.len() / t.atom().unwrap(),
                    Val::L(l) => l.len(),
                    _ => unreachable!(),
                };
                mix_len(t.seq_root(v, *lim), n)
            }
            (Cont(f), Val::L(l)) => {
                let r: Vec<Hash> = f.iter().zip(l).map(|(f, x)| f.1.root(x)).collect();
                merkle(&r, f.len() as u64)
            }
            _ => unreachable!("{self:?}"),
        }
    }
    fn seq_root(&self, v: &Val, limit: u64) -> Hash {
        match (self, v) {
            (Num(k), Val::B(b)) => merkle(&chunks(b), (limit as u128 * *k as u128).div_ceil(32) as u64),
            (Bytes(n), Val::B(b)) => merkle(&b.chunks(*n).map(bytes_root).collect::<Vec<_>>(), limit),
            (t, Val::L(l)) => merkle(&l.iter().map(|x| t.root(x)).collect::<Vec<_>>(), limit),
            _ => unreachable!("{self:?}"),
        }
    }

    pub fn json(&self, v: &Val, out: &mut String) {
        match (self, v) {
            (Num(_), Val::B(b)) => {
                let mut x = [0; 32];
                x[..b.len()].copy_from_slice(b);
                out.push_str(&format!("\"{}\"", alloy_primitives::U256::from_le_bytes(x)));
            }
            (Bool, Val::B(b)) => out.push_str(if b[0] == 1 { "true" } else { "false" }),
            (Bytes(_) | ByteList(_), Val::B(b)) => out.push_str(&format!("\"0x{}\"", hex(b))),
            (Bitvec(_) | Bitlist(_), v) => out.push_str(&format!("\"0x{}\"", hex(&self.ssz(v)))),
            (Vect(t, _) | List(t, _), v) => {
                out.push('[');
                let mut first = true;
                let mut one = |x: &Val, out: &mut String| {
                    if !std::mem::take(&mut first) {
                        out.push(',')
                    }
                    t.json(x, out)
                };
                match v {
                    Val::B(b) => b.chunks(t.atom().unwrap()).for_each(|c| one(&Val::B(c.to_vec()), out)),
                    Val::L(l) => l.iter().for_each(|x| one(x, out)),
                    _ => unreachable!(),
                }
                out.push(']');
            }
            (Cont(f), Val::L(l)) => {
                out.push('{');
                for (i, ((n, t), x)) in f.iter().zip(l).enumerate() {
                    if i > 0 {
                        out.push(',')
                    }
                    out.push_str(&format!("\"{n}\":"));
                    t.json(x, out);
                }
                out.push('}');
            }
            _ => unreachable!("{self:?}"),
        }
    }
    pub fn field<'a>(&self, v: &'a Val, name: &str) -> Option<&'a Val> {
        let (Cont(f), Val::L(l)) = (self, v) else { return None };
        Some(&l[f.iter().position(|x| x.0 == name)?])
    }
    pub fn ty(&self, name: &str) -> Option<&Ty> {
        let Cont(f) = self else { return None };
        f.iter().find(|x| x.0 == name).map(|x| &x.1)
    }
    pub fn set(&self, v: &mut Val, name: &str, x: Val) {
        let (Cont(f), Val::L(l)) = (self, v) else { unreachable!() };
        l[f.iter().position(|x| x.0 == name).unwrap()] = x;
    }
}
fn put_parts(parts: &[(&Ty, &Val)], out: &mut Vec<u8>) {
    let head: usize = parts.iter().map(|p| p.0.fixed().unwrap_or(4)).sum();
    let mut tail = vec![];
    for (t, v) in parts {
        if t.fixed().is_some() {
            t.put(v, out)
        } else {
            out.extend(((head + tail.len()) as u32).to_le_bytes());
            t.put(v, &mut tail);
        }
    }
    out.extend(tail);
}
fn pack_bits(b: &[bool]) -> Vec<u8> {
    let mut x = vec![0; b.len().div_ceil(8)];
    b.iter().enumerate().for_each(|(i, s)| x[i / 8] |= (*s as u8) << (i % 8));
    x
}
fn chunk(b: &[u8]) -> Hash {
    let mut c = [0; 32];
    c[..b.len()].copy_from_slice(b);
    c
}
fn chunks(b: &[u8]) -> Vec<Hash> {
    b.chunks(32).map(chunk).collect()
}
fn bytes_root(b: &[u8]) -> Hash {
    merkle(&chunks(b), b.len().div_ceil(32) as u64)
}
fn mix_len(h: Hash, n: usize) -> Hash {
    sha(&[&h, &chunk(&(n as u64).to_le_bytes())])
}
pub fn merkle(leaves: &[Hash], limit: u64) -> Hash {
    let depth = if limit <= 1 { 0 } else { 64 - (limit - 1).leading_zeros() };
    let mut l = leaves.to_vec();
    let mut z = [0u8; 32];
    for _ in 0..depth {
        if l.len() % 2 == 1 {
            l.push(z)
        }
        l = l.chunks(2).map(|p| sha(&[&p[0], &p[1]])).collect();
        z = sha(&[&z, &z]);
    }
    l.first().copied().unwrap_or(z)
}

// ---------------------------------------------------------------- the containers of the consensus specification, mainnet preset

fn v(t: Ty, n: usize) -> Ty {
    Vect(Box::new(t), n)
}
fn l(t: Ty, n: u64) -> Ty {
    List(Box::new(t), n)
}
const U64: Ty = Num(8);
const B32: Ty = Bytes(32);
const REG: u64 = 1 << 40;

pub fn header() -> Ty {
    Cont(vec![("slot", U64), ("proposer_index", U64), ("parent_root", B32), ("state_root", B32), ("body_root", B32)])
}
pub fn fork() -> Ty {
    Cont(vec![("previous_version", Bytes(4)), ("current_version", Bytes(4)), ("epoch", U64)])
}
pub fn checkpoint() -> Ty {
    Cont(vec![("epoch", U64), ("root", B32)])
}
pub fn validator() -> Ty {
    Cont(vec![
        ("pubkey", Bytes(48)),
        ("withdrawal_credentials", B32),
        ("effective_balance", U64),
        ("slashed", Bool),
        ("activation_eligibility_epoch", U64),
        ("activation_epoch", U64),
        ("exit_epoch", U64),
        ("withdrawable_epoch", U64),
    ])
}
pub const FORKS: [&str; 7] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra", "fulu"];

/// the beacon state of a fork (index into FORKS)
pub fn state(fork_no: usize) -> Ty {
    let eth1 = || Cont(vec![("deposit_root", B32), ("deposit_count", U64), ("block_hash", B32)]);
    let data = || Cont(vec![("slot", U64), ("index", U64), ("beacon_block_root", B32), ("source", checkpoint()), ("target", checkpoint())]);
    let pending = || Cont(vec![("aggregation_bits", Bitlist(2048)), ("data", data()), ("inclusion_delay", U64), ("proposer_index", U64)]);
    let committee = || Cont(vec![("pubkeys", v(Bytes(48), 512)), ("aggregate_pubkey", Bytes(48))]);
    let mut f = vec![
        ("genesis_time", U64),
        ("genesis_validators_root", B32),
        ("slot", U64),
        ("fork", fork()),
        ("latest_block_header", header()),
        ("block_roots", v(B32, 8192)),
        ("state_roots", v(B32, 8192)),
        ("historical_roots", l(B32, 1 << 24)),
        ("eth1_data", eth1()),
        ("eth1_data_votes", l(eth1(), 2048)),
        ("eth1_deposit_index", U64),
        ("validators", l(validator(), REG)),
        ("balances", l(U64, REG)),
        ("randao_mixes", v(B32, 65536)),
        ("slashings", v(U64, 8192)),
    ];
    if fork_no == 0 {
        f.extend([("previous_epoch_attestations", l(pending(), 4096)), ("current_epoch_attestations", l(pending(), 4096))]);
    } else {
        f.extend([("previous_epoch_participation", l(Num(1), REG)), ("current_epoch_participation", l(Num(1), REG))]);
    }
    f.extend([
        ("justification_bits", Bitvec(4)),
        ("previous_justified_checkpoint", checkpoint()),
        ("current_justified_checkpoint", checkpoint()),
        ("finalized_checkpoint", checkpoint()),
    ]);
    if fork_no >= 1 {
        f.extend([("inactivity_scores", l(U64, REG)), ("current_sync_committee", committee()), ("next_sync_committee", committee())]);
    }
    if fork_no >= 2 {
        let mut p = vec![
            ("parent_hash", B32),
            ("fee_recipient", Bytes(20)),
            ("state_root", B32),
            ("receipts_root", B32),
            ("logs_bloom", Bytes(256)),
            ("prev_randao", B32),
            ("block_number", U64),
            ("gas_limit", U64),
            ("gas_used", U64),
            ("timestamp", U64),
            ("extra_data", ByteList(32)),
            ("base_fee_per_gas", Num(32)),
            ("block_hash", B32),
            ("transactions_root", B32),
        ];
        if fork_no >= 3 {
            p.push(("withdrawals_root", B32));
        }
        if fork_no >= 4 {
            p.extend([("blob_gas_used", U64), ("excess_blob_gas", U64)]);
        }
        f.push(("latest_execution_payload_header", Cont(p)));
    }
    if fork_no >= 3 {
        let summary = Cont(vec![("block_summary_root", B32), ("state_summary_root", B32)]);
        f.extend([("next_withdrawal_index", U64), ("next_withdrawal_validator_index", U64), ("historical_summaries", l(summary, 1 << 24))]);
    }
    if fork_no >= 5 {
        let deposit = Cont(vec![("pubkey", Bytes(48)), ("withdrawal_credentials", B32), ("amount", U64), ("signature", Bytes(96)), ("slot", U64)]);
        let withdrawal = Cont(vec![("validator_index", U64), ("amount", U64), ("withdrawable_epoch", U64)]);
        let consolidation = Cont(vec![("source_index", U64), ("target_index", U64)]);
        f.extend([
            ("deposit_requests_start_index", U64),
            ("deposit_balance_to_consume", U64),
            ("exit_balance_to_consume", U64),
            ("earliest_exit_epoch", U64),
            ("consolidation_balance_to_consume", U64),
            ("earliest_consolidation_epoch", U64),
            ("pending_deposits", l(deposit, 1 << 27)),
            ("pending_partial_withdrawals", l(withdrawal, 1 << 27)),
            ("pending_consolidations", l(consolidation, 1 << 18)),
        ]);
    }
    if fork_no >= 6 {
        f.push(("proposer_lookahead", v(U64, 64)));
    }
    Cont(f)
}
