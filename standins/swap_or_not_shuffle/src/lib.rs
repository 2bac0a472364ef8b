//! Stand-in for lighthouse's `swap_or_not_shuffle`: whole-list and per-index swap-or-not shuffling.
use sha2::{Digest, Sha256};

fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

fn pivot(seed: &[u8], round: u8, n: usize) -> usize {
    let d = hash(&[seed, &[round]]);
    (u64::from_le_bytes(d[..8].try_into().unwrap()) % n as u64) as usize
}

/// `compute_shuffled_index` of the specification.
pub fn compute_shuffled_index(index: usize, list_size: usize, seed: &[u8], shuffle_round_count: u8) -> Option<usize> {
    if list_size == 0 || index >= list_size || list_size > usize::MAX / 2 || list_size > 2_usize.pow(24) {
        return None;
    }
    let mut index = index;
    for round in 0..shuffle_round_count {
        let p = pivot(seed, round, list_size);
        let flip = (p + list_size - index) % list_size;
        let position = index.max(flip);
        let source = hash(&[seed, &[round], &((position / 256) as u32).to_le_bytes()]);
        if source[(position % 256) / 8] >> (position % 8) & 1 == 1 {
            index = flip;
        }
    }
    Some(index)
}

/// Shuffles an entire list in place. With `forwards == false` element `i` of the result is
/// `input[compute_shuffled_index(i)]`; with `true` it is the inverse permutation.
pub fn shuffle_list(mut input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    let n = input.len();
    if n == 0 || n > usize::MAX / 2 || n > 2_usize.pow(24) || rounds == 0 {
        return None;
    }
    let order: Vec<u8> = if forwards { (0..rounds).collect() } else { (0..rounds).rev().collect() };
    for round in order {
        let p = pivot(seed, round, n);
        let mut source = [0u8; 32];
        let mut have = usize::MAX;
        for position in 0..n {
            let flip = (p + n - position) % n;
            // each pair once, at its larger member
            if flip >= position {
                continue;
            }
            if position / 256 != have {
                have = position / 256;
                source = hash(&[seed, &[round], &(have as u32).to_le_bytes()]);
            }
            if source[(position % 256) / 8] >> (position % 8) & 1 == 1 {
                input.swap(position, flip);
            }
        }
    }
    Some(input)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn agree() {
        for n in [1usize, 2, 3, 10, 255, 256, 257, 1000] {
            let list: Vec<usize> = (0..n).map(|i| i * 3 + 1).collect();
            let seed = [n as u8; 32];
            let want: Vec<usize> = (0..n).map(|i| list[compute_shuffled_index(i, n, &seed, 90).unwrap()]).collect();
            assert_eq!(shuffle_list(list.clone(), 90, &seed, false).unwrap(), want);
            assert_eq!(shuffle_list(want, 90, &seed, true).unwrap(), list);
        }
    }
}
