//! System parameters and keys from random number generators, also ones that yield what we like (spec/Params.tla).
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use aeonflux::amacs::{self, Rerandomization, SecretKey, Tag};
use aeonflux::credential::{Credential, CredentialRequest};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use rand_core::{CryptoRng, Error, RngCore};
use serde_json::{json, Value};
use sha2::{Digest, Sha512};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

type B = [u8; 32];

// ------------------------------------------------------------------------------------------- generators
/// Yields the bytes of a script, then those that follow from the seed; without a seed, it panics after the script.
#[derive(Clone)]
struct Stream { script: Vec<u8>, seed: Option<u64>, pos: usize, block: Option<(usize, Vec<u8>)>, flip: Option<usize> }
struct Exhausted;

impl Stream {
    fn new(script: Vec<u8>, seed: Option<u64>) -> Stream { Stream { script, seed, pos: 0, block: None, flip: None } }
    fn byte(&mut self) -> u8 {
        let i = self.pos;
        self.pos += 1;
        let b = if i < self.script.len() { self.script[i] } else {
            let seed = match self.seed { Some(s) => s, None => resume_unwind(Box::new(Exhausted)) };
            let n = (i - self.script.len()) / 64;
            if self.block.as_ref().map_or(true, |x| x.0 != n) {
                let mut h = Sha512::default();
                h.input(&seed.to_le_bytes());
                h.input(&(n as u64).to_le_bytes());
                self.block = Some((n, h.result().to_vec()));
            }
            self.block.as_ref().unwrap().1[(i - self.script.len()) % 64]
        };
        match self.flip { Some(f) if f / 8 == i => b ^ (1 << (f % 8)), _ => b }
    }
    fn take(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 { let b = self.take(4); (0..4).fold(0, |x, i| x | (b[i] as u32) << (8 * i)) }
    fn next_u64(&mut self) -> u64 { let b = self.take(8); (0..8).fold(0, |x, i| x | (b[i] as u64) << (8 * i)) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for x in dest.iter_mut() { *x = self.byte(); } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { Ok(self.fill_bytes(dest)) }
}
impl CryptoRng for Stream {}

// ---------------------------------------------------------------------------- what generators may yield
fn point(n: u64) -> RistrettoPoint {
    let mut h = Sha512::default();
    h.input(b"point");
    h.input(&n.to_le_bytes());
    let mut w = [0u8; 64];
    w.copy_from_slice(h.result().as_slice());
    RistrettoPoint::from_uniform_bytes(&w)
}
/// 2^255 - 19 - x and 2^255 - 19 + x
fn prime_minus(x: &B) -> B {
    let mut r = [0u8; 32];
    let mut borrow = 0i32;
    for i in 0..32 {
        let p = if i == 0 { 0xed } else if i == 31 { 0x7f } else { 0xff };
        let d = p - x[i] as i32 - borrow;
        borrow = if d < 0 { 1 } else { 0 };
        r[i] = (d & 255) as u8;
    }
    r
}
fn prime_plus(x: u8) -> B { let mut r = [0xffu8; 32]; r[0] = 0xed + x; r[31] = 0x7f; r }

/// Blocks by name: a kind, and a number where there are many of the kind
fn block(name: &str) -> B {
    let kind: String = name.chars().take_while(|c| !c.is_ascii_digit()).collect();
    let n: u64 = name[kind.len()..].parse().unwrap_or(0);
    let base = RISTRETTO_BASEPOINT_POINT.compress().to_bytes();
    let p = point(n).compress().to_bytes();
    let noise = |k: u64| { let mut s = Stream::new(vec![], Some(n * 1000 + k)); let mut b = [0u8; 32]; s.fill_bytes(&mut b); b };
    match &kind[..] {
        "point" => p,
        "multiple" => (RISTRETTO_BASEPOINT_POINT * Scalar::from(n + 2)).compress().to_bytes(),
        "opposite" => (-RISTRETTO_BASEPOINT_POINT).compress().to_bytes(),
        "base" => base,
        "identity" => [0; 32],
        // the encoding of a point, with the highest bit set
        "high" => { let mut b = p; b[31] |= 128; b },
        "basehigh" => { let mut b = base; b[31] |= 128; b },
        "zerohigh" => { let mut b = [0; 32]; b[31] |= 128; b },
        // its negative, which is odd
        "negative" => prime_minus(&p),
        "baseneg" => prime_minus(&base),
        "odd" => { let mut b = p; b[0] |= 1; b },
        "baseodd" => { let mut b = base; b[0] |= 1; b },
        "one" => { let mut b = [0; 32]; b[0] = 1; b },
        // numbers that are too large
        "large" => prime_plus((n % 19) as u8),
        "ones" => [0xff; 32],
        // below the prime, and even, but the encoding of no point
        "nopoint" => (0..).map(|k| { let mut b = noise(k); b[0] &= 254; b[31] &= 63; b }).find(|b| CompressedRistretto(*b).decompress().is_none()).unwrap(),
        x => { eprintln!("block {}", x); std::process::exit(3) },
    }
}

// ----------------------------------------------------------------------------------------------- drawing
fn arr(b: &[u8]) -> B { let mut t = [0u8; 32]; t.copy_from_slice(b); t }
fn ephemeral(e: &Ephemeral) -> B { arr(&e.to_bytes()) }
fn key(k: &SecretKey) -> Vec<B> { let mut v = vec![k.x0.to_bytes()]; v.extend(k.xn.iter().map(|x| x.to_bytes())); v }
fn keypair(k: &amacs::Keypair, h: &RistrettoPoint) -> (Vec<B>, bool) {
    let ok = k.public.Xn.len() == k.secret.xn.len() && k.public.Xn.iter().zip(k.secret.xn.iter()).all(|(X, x)| *X == h * x);
    (key(&k.secret), ok)
}

/// What is drawn by the function that makes `kind`, and whether public keys are as they should be
fn draw(kind: &str, n: usize, p: &SystemParameters, rng: &mut Stream) -> (Vec<B>, bool) {
    match kind {
        "key" => (key(&SecretKey::new(n, rng)), true),
        "keypair" => keypair(&amacs::Keypair::new(&p.h, rng), &p.h),
        "issuer" => { let i = Issuer::create(*p, rng); let (s, ok) = keypair(&i.keypair, &p.h); (s, ok && i.system_parameters == *p && i.get_issuer_parameters() == i.keypair.public) },
        "sissuer" => { let i = SignalIssuer::create(*p, rng); let (s, ok) = keypair(&i.issuer.keypair, &p.h); (s, ok && i.issuer.system_parameters == *p && i.get_issuer_parameters() == i.issuer.keypair.public) },
        "esk" => { let k = elgamal::SecretKey::generate(rng); (vec![arr(&k.to_bytes())], true) },
        "ekeypair" => {
            let k = elgamal::Keypair::generate(rng);
            let s = arr(&k.secret.to_bytes());
            let ok = arr(&k.public.to_bytes()) == (RISTRETTO_BASEPOINT_POINT * Scalar::from_bits(s)).compress().to_bytes();
            (vec![s], ok)
        },
        "eph" => (vec![ephemeral(&Ephemeral::new(rng))], true),
        "nonces" => (Nonces::new(rng, n).iter().map(ephemeral).collect(), true),
        // a re-randomisation factor is seen only by what it does
        "rer" => { let t = Rerandomization::new(rng).apply_to_tag(&Tag { nonce: RISTRETTO_BASEPOINT_POINT, mac: point(0) }); (vec![t.nonce.compress().to_bytes()], true) },
        // The random numbers in messages, as multiples of the generators, by one who has the issuer's key
        "ros" => {
            let r = RosterEntryCommitment::create(NUMBER, p, rng).expect("roster entry");
            (vec![arr(&r.opening.to_bytes())], true)
        },
        "mac" => {
            let k = fixed(p).0;
            let t = k.secret.mac(&vec![Scalar::from(5u64)].into(), rng).expect("mac");
            (vec![t.nonce.compress().to_bytes()], true)
        },
        "issue" => {
            let (k, m) = fixed(p);
            let x0 = k.secret.x0;
            let i = Issuer::new(*p, k).issue(&CredentialRequest { attributes_revealed: vec![m] }, rng).expect("issuance");
            let c: RistrettoPoint = i.secret_key_commitment.into();
            (vec![i.credential.mac.nonce.compress().to_bytes(), (c - x0 * p.g).compress().to_bytes()], true)
        },
        "show" | "ashow" => {
            let (k, m) = fixed(p);
            let e = k.secret.x0 + k.secret.xn[0] * m;
            let mac = Tag { nonce: RISTRETTO_BASEPOINT_POINT, mac: e * RISTRETTO_BASEPOINT_POINT };
            let mut u = SignalUser::new(*p, k.public.clone(), None, NUMBER).expect("user");
            u.user.credential = Some(Credential { mac, attributes: vec![m] });
            let (x, hidden) = if kind == "show" {
                let r = RosterEntryCommitment::create(NUMBER, p, &mut Stream::new(vec![], Some(77))).expect("roster entry");
                (u.show(rng, &r).expect("presentation").presentation, true)
            } else {
                (u.user.show(&Nonces::new(&mut Stream::new(vec![], Some(78)), 1), rng).expect("presentation"), false)
            };
            let (q, c): (RistrettoPoint, RistrettoPoint) = (x.rerandomized_mac_commitment.into(), x.attributes_blinded[0].into());
            let mut v = vec![x.rerandomized_nonce.compress().to_bytes(), (q - e * x.rerandomized_nonce).compress().to_bytes()];
            if hidden { v.push((c - m * x.rerandomized_nonce).compress().to_bytes()); }
            (v, true)
        },
        x => { eprintln!("kind {}", x); std::process::exit(3) },
    }
}

const NUMBER: &[u8] = &[1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4];
/// An issuer's keys, and the attribute of a user
fn fixed(p: &SystemParameters) -> (amacs::Keypair, Scalar) {
    (amacs::Keypair::new(&p.h, &mut Stream::new(vec![], Some(76))), PhoneNumber::try_from_bytes(NUMBER).expect("number").0)
}

struct Ids(BTreeMap<Vec<u8>, usize>);
impl Ids { fn id(&mut self, b: &[u8]) -> usize { let n = self.0.len() + 1; *self.0.entry(b.to_vec()).or_insert(n) } }

fn outcome<T, F: FnOnce() -> T>(f: F) -> (&'static str, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => ("ok", Some(x)),
        Err(e) => (if e.is::<Exhausted>() { "exhausted" } else { "panic" }, None),
    }
}

/// A scenario is a sequence of operations on generators, and parameters, with names.
pub fn run(ops: &[Value], mut write: impl FnMut(Value)) {
    let mut gens: BTreeMap<String, Stream> = BTreeMap::new();
    let mut prms: BTreeMap<String, SystemParameters> = BTreeMap::new();
    let mut ids = Ids(BTreeMap::new());
    let other = SystemParameters { g: RISTRETTO_BASEPOINT_POINT, h: point(99) };
    for op in ops {
        let mut e = op.clone();
        let text = |k: &str| op[k].as_str().unwrap_or("").to_string();
        let n = op["n"].as_u64().unwrap_or(0) as usize;
        let (o, a) = (text("o"), text("a"));
        match op["op"].as_str().unwrap() {
            "gen" => {
                let script = op["script"].as_array().unwrap().iter().flat_map(|x| block(x.as_str().unwrap()).to_vec()).collect();
                gens.insert(o, Stream::new(script, op["seed"].as_i64().and_then(|s| if s < 0 { None } else { Some(s as u64) })));
            },
            "fork" => { let g = gens[&a].clone(); gens.insert(o, g); },
            "params" => {
                let g = gens.get_mut(&a).unwrap();
                // The first suitable 32 bytes that follow
                let mut c = g.clone();
                let want = outcome(|| loop {
                    let b = arr(&c.take(32));
                    if let Some(p) = CompressedRistretto(b).decompress() {
                        if p != RistrettoPoint::identity() && p != RISTRETTO_BASEPOINT_POINT { return b }
                    }
                }).1;
                let start = g.pos;
                let (res, p) = outcome(|| SystemParameters::hunt_and_peck(g));
                e["res"] = json!(res);
                e["start"] = json!(start);
                e["want"] = json!(want.map_or(0, |b| ids.id(&b)));
                e["id"] = json!(p.map_or(0, |p| ids.id(&p.h.compress().to_bytes())));
                e["g"] = json!(p.map_or("-", |p| if p.g == RISTRETTO_BASEPOINT_POINT { "base" } else { "other" }));
                e["h"] = json!(p.map_or("-", |p| if p.h == RISTRETTO_BASEPOINT_POINT { "base" } else if p.h == RistrettoPoint::identity() { "identity" } else { "other" }));
                // which block of the script it is, if it is one
                let name = p.and_then(|p| op["names"].as_array().unwrap().iter().position(|x| block(x.as_str().unwrap()) == p.h.compress().to_bytes()));
                e["which"] = json!(name.map_or(0, |x| x + 1));
                if let Some(p) = p { prms.insert(o, p); }
            },
            "draw" => {
                let p = *prms.get(&text("p")).unwrap_or(&other);
                let g = gens.get_mut(&a).unwrap();
                let (res, x) = outcome(|| draw(&text("kind"), n, &p, g));
                let (s, ok) = x.unwrap_or((vec![], true));
                e["res"] = json!(res);
                e["ids"] = json!(s.iter().map(|b| ids.id(b)).collect::<Vec<_>>());
                e["public"] = json!(ok);
            },
            // Which of the bits that it yields does it depend on?
            "sense" | "depend" => {
                let g = Stream::new(vec![], Some(op["seed"].as_u64().unwrap()));
                let mut c = g.clone();
                let (s, _) = draw(&text("kind"), n, &other, &mut c);
                let mut of: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); s.len()];
                for bit in 0..8 * c.pos {
                    let mut d = g.clone();
                    d.flip = Some(bit);
                    let (t, _) = draw(&text("kind"), n, &other, &mut d);
                    for i in 0..s.len() { if t.get(i) != Some(&s[i]) { of[i].insert(bit); } }
                }
                let mut all: BTreeSet<usize> = BTreeSet::new();
                for x in &of { all.extend(x); }
                e["bits"] = json!(of.iter().map(|x| x.len()).collect::<Vec<_>>());
                e["all"] = json!(all.len());
                // how many bits does each depend on that another one does not?
                e["own"] = json!((0..s.len()).map(|i| (0..s.len()).filter(|j| *j != i).map(|j| of[i].difference(&of[j]).count()).min().unwrap_or(999)).collect::<Vec<_>>());
            },
            // How are they distributed?
            "many" => {
                let times = op["times"].as_u64().unwrap() as usize;
                let mut g = Stream::new(vec![], Some(op["seed"].as_u64().unwrap()));
                let per = draw(&text("kind"), n, &other, &mut g.clone()).0.len();
                let mut bits = vec![vec![0u32; 252]; per];
                let mut rest = vec![[vec![0u32; 3], vec![0u32; 5], vec![0u32; 7], vec![0u32; 11]]; per];
                let mut seen = BTreeSet::new();
                for _ in 0..times {
                    let s = draw(&text("kind"), n, &other, &mut g).0;
                    for i in 0..per {
                        seen.insert(s[i]);
                        for b in 0..252 { bits[i][b] += (s[i][b / 8] >> (b % 8) & 1) as u32; }
                        for r in rest[i].iter_mut() {
                            let m = r.len() as u32;
                            let x = s[i].iter().rev().fold(0u32, |x, b| (x * 256 + *b as u32) % m);
                            r[x as usize] += 1;
                        }
                    }
                }
                e["bits"] = json!(bits);
                e["rest"] = json!(rest.iter().map(|r| r.to_vec()).collect::<Vec<_>>());
                e["distinct"] = json!(seen.len());
            },
            x => { eprintln!("operation {}", x); std::process::exit(3) },
        }
        write(e);
    }
}
