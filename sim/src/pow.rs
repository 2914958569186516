//! Independent implementation of the proof-of-work scheme (client side and oracle).
use crate::rng::Rng;
use sha2::{Digest, Sha256};

pub struct Prefix(Sha256);

pub fn prefix(salt: &str, phrase: &str) -> Prefix {
    let mut h = Sha256::new();
    h.update(salt.as_bytes());
    h.update((phrase.len() as u64).to_le_bytes());
    h.update(phrase.as_bytes());
    Prefix(h)
}

impl Prefix {
    pub fn score(&self, nonce: u64) -> u128 {
        let mut h = self.0.clone();
        h.update(nonce.to_string().as_bytes());
        let d = h.finalize();
        let mut b = [0u8; 16];
        b.copy_from_slice(&d[..16]);
        u128::from_be_bytes(b)
    }
}

pub fn threshold(difficulty: u32) -> u128 {
    u128::MAX - u128::MAX / difficulty.max(1) as u128
}

/// a nonce whose score is in [lo, hi), or else the best one below `hi`
pub fn find(p: &Prefix, lo: u128, hi: Option<u128>, rng: &mut Rng) -> Option<(u64, u128)> {
    let mut n = rng.next() >> 40;
    let mut best = None;
    for _ in 0..60_000 {
        n += 1;
        let s = p.score(n);
        if hi.map_or(false, |h| s >= h) {
            continue;
        }
        if s >= lo {
            return Some((n, s));
        }
        if best.map_or(true, |(_, b)| s > b) {
            best = Some((n, s));
        }
    }
    best
}

/// is (nonce, result) a correct proof of at least `difficulty` over `phrase`?
pub fn check(salt: &str, phrase: &str, nonce: u64, result: &str, difficulty: u32) -> bool {
    let s = prefix(salt, phrase).score(nonce);
    match result.parse::<u128>() {
        Ok(r) => r == s && s >= threshold(difficulty),
        Err(_) => false,
    }
}
