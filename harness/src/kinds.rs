//! Uniform access to the five proof systems of the code under test, and a reference implementation of the documented
//! protocol, driven by the statement definitions exported from the TLA+ specification (spec/Nipk.tla).
use aeonflux::proofs;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use serde_json::Value;

macro_rules! kind {
    ($m:ident, ($($s:ident),*), ($($p:ident),*)) => {
        pub mod $m {
            use super::*;
            pub fn create(t: &mut Transcript, pubs: &[RistrettoPoint], secs: &[Scalar]) -> Vec<u8> {
                let mut i = 0; $(let $s = { i += 1; &secs[i-1] };)* assert_eq!(i, secs.len());
                let s = proofs::$m::Secrets { $($s),* };
                let mut i = 0; $(let $p = { i += 1; &pubs[i-1] };)* assert_eq!(i, pubs.len());
                let p = proofs::$m::Publics { $($p),* };
                bincode::serialize(&proofs::$m::Proof::create(t, p, s)).unwrap()
            }
            pub fn verify(pf: &[u8], t: &mut Transcript, pubs: &[RistrettoPoint]) -> Result<bool, ()> {
                let mut i = 0; $(let $p = { i += 1; &pubs[i-1] };)* assert_eq!(i, pubs.len());
                let p = proofs::$m::Publics { $($p),* };
                let proof: proofs::$m::Proof = bincode::deserialize(pf).or(Err(()))?;
                Ok(proof.verify(t, p).is_ok())
            }
            pub fn same(x: &[u8], y: &[u8]) -> (bool, bool, bool) {
                let x: proofs::$m::Proof = bincode::deserialize(x).unwrap();
                let y: proofs::$m::Proof = bincode::deserialize(y).unwrap();
                (x == y.clone(), y == x, x != y)
            }
        }
    }
}

kind!(issuance_revealed, (x0, x1, x0_tilde, m1x1), (P, Q, Cx0, B, A, X1));
kind!(attributes_blinded, (d, e0, m0, nonce), (B, A, D, encrypted_attribute_0_0, encrypted_attribute_0_1));
kind!(issuance_blinded, (x0_tilde, x0, x1, s, b, t0),
      (B, A, X0, X1, D, P, T0_0, T0_1, EQ_commitment, EQ_encryption, encrypted_attribute_0_0, encrypted_attribute_0_1));
kind!(valid_credential, (m0, z0, minus_zQ), (B, A, X0, P, V, Cm0));
kind!(committed_values_equal, (m0, z0, z1), (B, A, P, Cm0, Cm1));

pub fn create(kind: &str, t: &mut Transcript, pubs: &[RistrettoPoint], secs: &[Scalar]) -> Vec<u8> {
    match kind {
        "issuance_revealed" => issuance_revealed::create(t, pubs, secs),
        "attributes_blinded" => attributes_blinded::create(t, pubs, secs),
        "issuance_blinded" => issuance_blinded::create(t, pubs, secs),
        "valid_credential" => valid_credential::create(t, pubs, secs),
        "committed_values_equal" => committed_values_equal::create(t, pubs, secs),
        _ => unreachable!(),
    }
}

/// Do two proofs compare as equal?
pub fn same_proofs(kind: &str, x: &[u8], y: &[u8]) -> bool {
    let r = match kind {
        "issuance_revealed" => issuance_revealed::same(x, y),
        "attributes_blinded" => attributes_blinded::same(x, y),
        "issuance_blinded" => issuance_blinded::same(x, y),
        "valid_credential" => valid_credential::same(x, y),
        "committed_values_equal" => committed_values_equal::same(x, y),
        _ => unreachable!(),
    };
    match r { (true, true, false) => true, (false, false, true) => false, _ => panic!("comparisons of proofs contradict each other") }
}

/// The same in a process of its own, which has made no other proof.
pub fn create_elsewhere(kind: &str, ctx: &str, pubs: &[RistrettoPoint], secs: &[Scalar]) -> Vec<u8> {
    let question = serde_json::json!({"kind": kind, "ctx": ctx,
        "pubs": pubs.iter().map(|p| p.compress().to_bytes()).collect::<Vec<_>>(),
        "secs": secs.iter().map(|s| s.to_bytes()).collect::<Vec<_>>()});
    let r = std::process::Command::new(std::env::current_exe().unwrap()).arg("proof").arg(question.to_string()).output().expect("process");
    if !r.status.success() { panic!("no proof from the other process"); }
    r.stdout
}

/// What that process does
pub fn answer(question: &str) -> Vec<u8> {
    let q: Value = serde_json::from_str(question).unwrap();
    let pubs: Vec<[u8; 32]> = serde_json::from_value(q["pubs"].clone()).unwrap();
    let secs: Vec<[u8; 32]> = serde_json::from_value(q["secs"].clone()).unwrap();
    let pubs: Vec<RistrettoPoint> = pubs.iter().map(|b| CompressedRistretto(*b).decompress().unwrap()).collect();
    let secs: Vec<Scalar> = secs.iter().map(|b| Scalar::from_canonical_bytes(*b).unwrap()).collect();
    create(q["kind"].as_str().unwrap(), &mut Transcript::new(q["ctx"].as_str().unwrap().as_bytes()), &pubs, &secs)
}

pub fn verify(kind: &str, pf: &[u8], t: &mut Transcript, pubs: &[RistrettoPoint]) -> Result<bool, ()> {
    match kind {
        "issuance_revealed" => issuance_revealed::verify(pf, t, pubs),
        "attributes_blinded" => attributes_blinded::verify(pf, t, pubs),
        "issuance_blinded" => issuance_blinded::verify(pf, t, pubs),
        "valid_credential" => valid_credential::verify(pf, t, pubs),
        "committed_values_equal" => committed_values_equal::verify(pf, t, pubs),
        _ => unreachable!(),
    }
}

/// A statement: names of its secrets and publics, and its equations.
pub struct Stmt {
    pub name: String,
    pub secrets: Vec<String>,
    pub publics: Vec<String>,
    /// (index of the left-hand side in publics, [(index of secret, index of public)])
    pub eqs: Vec<(usize, Vec<(usize, usize)>)>,
}

pub fn stmts(v: &Value) -> Vec<Stmt> {
    v.as_array().unwrap().iter().map(|s| {
        let strs = |k: &str| -> Vec<String> { s[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
        let (secrets, publics) = (strs("secrets"), strs("publics"));
        let pi = |n: &Value| publics.iter().position(|x| x == n.as_str().unwrap()).unwrap();
        let si = |n: &Value| secrets.iter().position(|x| x == n.as_str().unwrap()).unwrap();
        let eqs = s["eqs"].as_array().unwrap().iter().map(|e| {
            (pi(&e["lhs"]), e["terms"].as_array().unwrap().iter().map(|t| (si(&t[0]), pi(&t[1]))).collect())
        }).collect();
        Stmt { name: s["name"].as_str().unwrap().to_string(), eqs, secrets, publics }
    }).collect()
}

impl Stmt {
    /// The commitments that a verifier recomputes from a challenge and responses.
    pub fn recompute(&self, pubs: &[RistrettoPoint], c: &Scalar, s: &[Scalar]) -> Vec<RistrettoPoint> {
        self.eqs.iter().map(|(l, ts)| {
            let mut acc = RistrettoPoint::identity();
            for (si, pi) in ts { acc += &s[*si] * &pubs[*pi]; }
            acc - c * &pubs[*l]
        }).collect()
    }

    /// The documented transcript: statement name, publics in order, commitments in order, challenge.
    pub fn challenge(&self, t: &mut Transcript, pubs: &[RistrettoPoint], coms: &[RistrettoPoint]) -> Scalar {
        self.challenge_without(t, pubs, coms, &[])
    }

    /// The challenge of a protocol that leaves some publics and commitments (numbered through, from 1) out of the transcript.
    pub fn challenge_without(&self, t: &mut Transcript, pubs: &[RistrettoPoint], coms: &[RistrettoPoint], skip: &[usize]) -> Scalar {
        t.commit_bytes(b"domain-sep", self.name.as_bytes());
        for (i, (n, p)) in self.publics.iter().zip(pubs).enumerate() {
            if !skip.contains(&(i + 1)) { t.commit_bytes(n.as_bytes(), p.compress().as_bytes()); }
        }
        for (i, ((l, _), c)) in self.eqs.iter().zip(coms).enumerate() {
            if !skip.contains(&(pubs.len() + i + 1)) {
                t.commit_bytes(format!("com {}", self.publics[*l]).as_bytes(), c.compress().as_bytes());
            }
        }
        let mut b = [0u8; 64];
        t.challenge_bytes(b"chal", &mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }

    /// Reference prover, with the blinding factors given.
    pub fn prove(&self, t: &mut Transcript, pubs: &[RistrettoPoint], secs: &[Scalar], rs: &[Scalar]) -> Vec<u8> {
        let coms = self.recompute(pubs, &Scalar::zero(), rs);
        let c = self.challenge(t, pubs, &coms);
        let s: Vec<Scalar> = secs.iter().zip(rs).map(|(w, r)| &(&c * w) + r).collect();
        encode_proof(&c, &s)
    }

    pub fn verify(&self, t: &mut Transcript, pubs: &[RistrettoPoint], c: &Scalar, s: &[Scalar]) -> bool {
        let coms = self.recompute(pubs, c, s);
        &self.challenge(t, pubs, &coms) == c
    }
}

/// bincode: every scalar is its length as a little-endian u64, then its 32 bytes.
pub fn encode_proof(c: &Scalar, s: &[Scalar]) -> Vec<u8> {
    let mut v = Vec::new();
    for x in std::iter::once(c).chain(s.iter()) {
        v.extend_from_slice(&[32, 0, 0, 0, 0, 0, 0, 0]);
        v.extend_from_slice(x.as_bytes());
    }
    v
}

pub fn decode_proof(b: &[u8]) -> Option<Vec<Scalar>> {
    if b.len() % 40 != 0 { return None; }
    let mut v = Vec::new();
    for ch in b.chunks(40) {
        if ch[..8] != [32, 0, 0, 0, 0, 0, 0, 0] { return None; }
        let mut t = [0u8; 32];
        t.copy_from_slice(&ch[8..]);
        v.push(Scalar::from_canonical_bytes(t)?);
    }
    Some(v)
}
