//! The register machine: executes the operations of spec/Machine.tla on the code under test.
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use aeonflux::amacs;
use aeonflux::credential::{Credential, CredentialPresentation, CredentialIssuance, CredentialRequest, EncryptedAttribute, VerifiedCredential};
use aeonflux::elgamal;
use aeonflux::errors::{CredentialError, MacError};
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen;
use aeonflux::user::User;
use aeonflux::issuer::{Issuer, IssuerParameters};
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::errors::PhoneNumberError;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoBasepointTable, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use rand::{ChaChaRng, SeedableRng};
use serde_json::{json, Value};

use crate::kinds;

pub enum V {
    S(Scalar),
    P(RistrettoPoint),
    Num(Vec<u8>),
    Prm(SystemParameters),
    Sk(amacs::SecretKey),
    Pk(IssuerParameters),
    Tag(amacs::Tag),
    Ros(RosterEntryCommitment),
    Kp(elgamal::Keypair),
    Enc(elgamal::Encryption),
    Pf(String, Vec<u8>),
    Iss(SignalIssuer),
    Usr(SignalUser),
    Ausr(User),
    /// (kind, bytes): a message on the network
    Msg(String, Vec<u8>),
}
use self::V::*;

#[derive(Clone, Copy)]
pub enum T { S([u8; 32]), P([u8; 32]) }

/// What an operation yields: registers to set, observations, and whether it succeeded.
pub struct Out { reg: Option<V>, obs: Vec<T>, ok: bool, why: Option<Why> }

/// What a refusal says: the type of the error, which one it is, and its text.
pub struct Why(&'static str, String, String);

pub trait Says { fn says(&self) -> Why; }
macro_rules! says { ($($t:ident),*) => { $(impl Says for $t { fn says(&self) -> Why { Why(stringify!($t), format!("{:?}", self), format!("{}", self)) } })* } }
says!(MacError, CredentialError, PhoneNumberError);
// It opens, or it does not.
impl Says for () { fn says(&self) -> Why { Why("", "".into(), "".into()) } }

fn ok(reg: V) -> Out { let obs = comps(&reg); Out { reg: Some(reg), obs, ok: true, why: None } }
fn okk() -> Out { Out { reg: None, obs: vec![], ok: true, why: None } }
fn err() -> Out { Out { reg: None, obs: vec![], ok: false, why: None } }
fn no<E: Says>(e: E) -> Out { Out { reg: None, obs: vec![], ok: false, why: Some(e.says()) } }
fn yesno<E: Says>(r: Result<(), E>) -> Out { match r { Ok(()) => okk(), Err(e) => no(e) } }

fn ts(s: &Scalar) -> T { T::S(s.to_bytes()) }
fn tp(p: &RistrettoPoint) -> T { T::P(p.compress().to_bytes()) }
fn arr(b: &[u8]) -> [u8; 32] { let mut t = [0u8; 32]; t.copy_from_slice(&b[..32]); t }
fn scalar_of(b: &[u8]) -> Scalar { Scalar::from_canonical_bytes(arr(b)).expect("scalar") }
fn point_of(b: &[u8]) -> RistrettoPoint { CompressedRistretto(arr(b)).decompress().expect("point") }

/// Layout of messages: field name, kind, and offset.  Mirrors spec/Wire.tla.
pub fn layout(kind: &str) -> Vec<(&'static str, char, usize)> {
    match kind {
        "iss" => vec![("Cx0", 'P', 0), ("P", 'P', 32), ("Q", 'P', 64), ("m", 'S', 96), ("c", 'S', 136), ("s1", 'S', 176),
                      ("s2", 'S', 216), ("s3", 'S', 256), ("s4", 'S', 296)],
        "apres" => vec![("CQ", 'P', 0), ("P", 'P', 32), ("Cm", 'P', 64), ("c", 'S', 104), ("s1", 'S', 144), ("s2", 'S', 184),
                        ("s3", 'S', 224)],
        "pres" | "ver" => vec![("E", 'P', 0), ("CQ", 'P', 32), ("P", 'P', 64), ("Cm", 'P', 96), ("c", 'S', 136), ("s1", 'S', 176),
                       ("s2", 'S', 216), ("s3", 'S', 256), ("rc", 'S', 296), ("r1", 'S', 336), ("r2", 'S', 376), ("r3", 'S', 416)],
        _ => panic!("layout {}", kind),
    }
}

/// The field that a bit is in, unless it is in the length of one.
fn flipped(kind: &str, bit: usize) -> Option<(&'static str, char, usize)> {
    layout(kind).into_iter().find(|l| bit / 8 >= l.2 && bit / 8 < l.2 + 32)
}

pub fn size(kind: &str) -> usize { match kind { "iss" => 328, "apres" => 256, _ => 448 } }

fn fields(kind: &str, b: &[u8]) -> Vec<T> {
    if b.len() != size(kind) { return vec![]; }
    layout(kind).iter().map(|(_, k, o)| if *k == 'S' { T::S(arr(&b[*o..])) } else { T::P(arr(&b[*o..])) }).collect()
}

fn user_comps(u: &User, v: &mut Vec<T>) {
    v.push(tp(&u.system_parameters.g));
    v.push(tp(&u.system_parameters.h));
    for x in u.issuer_parameters.Xn.iter() { v.push(tp(x)); }
    if let Some(ref k) = u.key { kp_comps(k, v); }
    if let Some(ref c) = u.credential {
        v.push(tp(&c.mac.nonce));
        v.push(tp(&c.mac.mac));
        for a in c.attributes.iter() { v.push(ts(a)); }
    }
}
fn kp_comps(k: &elgamal::Keypair, v: &mut Vec<T>) {
    v.push(ts(&Scalar::from(k.secret.clone())));
    v.push(tp(&RistrettoPoint::from(k.public)));
}
fn sk_comps(k: &amacs::SecretKey, v: &mut Vec<T>) {
    v.push(ts(&k.x0));
    for x in k.xn.iter() { v.push(ts(x)); }
}

pub fn comps(x: &V) -> Vec<T> {
    let mut v = vec![];
    match x {
        S(s) => v.push(ts(s)),
        P(p) => v.push(tp(p)),
        Num(_) => {},
        Prm(p) => { v.push(tp(&p.g)); v.push(tp(&p.h)); },
        Sk(k) => sk_comps(k, &mut v),
        Pk(k) => for p in k.Xn.iter() { v.push(tp(p)); },
        Tag(t) => { v.push(tp(&t.nonce)); v.push(tp(&t.mac)); },
        Ros(r) => { v.push(tp(&r.commitment.0.into())); v.push(T::S(arr(&r.opening.to_bytes()))); },
        Kp(k) => kp_comps(k, &mut v),
        Enc(e) => { v.push(tp(&e.commitment)); v.push(tp(&e.encryption)); },
        Pf(_, b) => for s in kinds::decode_proof(b).unwrap_or(vec![]) { v.push(ts(&s)); },
        Iss(i) => {
            v.push(tp(&i.issuer.system_parameters.g)); v.push(tp(&i.issuer.system_parameters.h));
            for p in i.issuer.keypair.public.Xn.iter() { v.push(tp(p)); }
            sk_comps(&i.issuer.keypair.secret, &mut v);
        },
        Usr(u) => { v.push(ts(&u.phone_number.0)); user_comps(&u.user, &mut v); },
        Ausr(u) => user_comps(u, &mut v),
        Msg(k, b) => v = fields(k, b),
    }
    v
}

fn bytes_of(x: &V) -> Vec<u8> {
    match x {
        S(s) => s.to_bytes().to_vec(),
        P(p) => p.compress().to_bytes().to_vec(),
        Prm(x) => x.to_bytes(),
        Sk(x) => x.to_bytes(),
        Tag(x) => x.to_bytes().to_vec(),
        Ros(x) => x.to_bytes().to_vec(),
        Kp(x) => x.to_bytes().to_vec(),
        Iss(x) => x.to_bytes(),
        Msg(_, b) => b.clone(),
        _ => vec![],
    }
}

/// Multiples of a base, by their encoding
pub struct Baby { base: [u8; 32], m: usize, last: RistrettoPoint, table: std::collections::HashSet<[u8; 32]> }
impl Baby {
    fn new(b: &RistrettoPoint, m: usize) -> Baby {
        let mut table = std::collections::HashSet::with_capacity(m);
        let mut acc = RistrettoPoint::identity();
        for _ in 0..m { table.insert(acc.compress().to_bytes()); acc += b; }      // j*b, 0 <= j < m
        Baby { base: b.compress().to_bytes(), m, last: acc, table }
    }
}

/// Is x = k*b for some |k| <= n?  (Baby steps, giant steps.)
fn small_multiple(x: &RistrettoPoint, b: &RistrettoPoint, n: usize, kept: &mut Option<Baby>) -> bool {
    if x == &RistrettoPoint::identity() { return true; }
    if b == &RistrettoPoint::identity() { return false; }
    let here;
    let baby = if n > 1_000_000 {       // a large table, that is kept
        if kept.as_ref().map_or(true, |k| k.base != b.compress().to_bytes()) { *kept = Some(Baby::new(b, 1 << 18)); }
        kept.as_ref().unwrap()
    } else {
        here = Baby::new(b, (((2 * n + 1) as f64).sqrt() as usize) + 1);
        &here
    };
    // x + n*b - i*m*b = j*b for some i
    let mut y = x + &(Scalar::from(n as u64) * b);
    for _ in 0..=(2 * n / baby.m + 1) { if baby.table.contains(&y.compress().to_bytes()) {
            return true;
        }
        y -= baby.last; }
    false
}

pub struct Machine {
    pub regs: HashMap<String, V>,
    pub rng: ChaChaRng,
    pub stmts: Vec<kinds::Stmt>,
    ids: HashMap<(bool, [u8; 32]), usize>,
    baby: Option<Baby>,
}

impl Machine {
    pub fn new(stmts: Vec<kinds::Stmt>) -> Machine {
        Machine { regs: HashMap::new(), rng: ChaChaRng::from_seed([0; 32]), ids: HashMap::new(), stmts, baby: None }
    }

    pub fn reset(&mut self, seed: u64, n: u64) {
        self.regs.clear();
        self.ids.clear();
        let mut s = [7u8; 32];
        for i in 0..8 { s[i] = (seed >> (8 * i)) as u8; s[8 + i] = (n >> (8 * i)) as u8; }
        self.rng = ChaChaRng::from_seed(s);
    }

    pub fn id(&mut self, t: &T) -> usize {
        let key = match t { T::S(b) => (false, *b), T::P(b) => (true, *b) };
        let n = self.ids.len() + 1;
        *self.ids.entry(key).or_insert(n)
    }

    pub fn r(&self, n: &str) -> &V { self.regs.get(n).unwrap_or_else(|| panic!("no register {}", n)) }
    fn s(&self, n: &str) -> Scalar { match self.r(n) { S(x) => *x, _ => panic!("{} is no scalar", n) } }
    fn p(&self, n: &str) -> RistrettoPoint { match self.r(n) { P(x) => *x, _ => panic!("{} is no point", n) } }
    fn num(&self, n: &str) -> &Vec<u8> { match self.r(n) { Num(x) => x, _ => panic!("{} is no number", n) } }
    fn prm(&self, n: &str) -> SystemParameters { match self.r(n) { Prm(x) => *x, _ => panic!("{} is no params", n) } }
    fn stmt(&self, k: &str) -> &kinds::Stmt { self.stmts.iter().find(|s| s.name == k).unwrap() }

    /// Execute an operation; `None` if the code under test panicked.
    pub fn exec(&mut self, op: &Value) -> Value {
        let name = op["op"].as_str().expect("op").to_string();
        if let Some(o) = op["o"].as_str() {
            // Like a variable that is assigned, an output register loses its old value whatever happens.
            if !op["a"].as_array().map_or(false, |a| a.iter().any(|x| x.as_str() == Some(o))) { self.regs.remove(o); }
        }
        // Good luck: again until a byte of what comes of it is the one wished for (or nothing comes of it).
        let luck = op["luck"].as_array().map(|l| (l[0].as_u64().unwrap() as usize, l[1].as_u64().unwrap() as u8));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut out = self.step(&name, op);
            if let Some((i, b)) = luck {
                for _ in 0..5000 {
                    if !out.ok || out.reg.as_ref().map_or(true, |v| bytes_of(v).get(i).map_or(true, |x| *x == b)) { break; }
                    out = self.step(&name, op);
                }
            }
            out
        }));
        let (res, out) = match r {
            Ok(out) => (if out.ok { "ok" } else { "err" }, out),
            Err(e) => {
                // An earlier operation did not yield what this one needs: the specification will say which.
                let missing = e.downcast_ref::<String>().map_or(false, |m| m.starts_with("no register") || m.contains(" is no "));
                if missing { ("noreg", err()) } else {
                ("panic", err()) }
            },
        };
        let ids: Vec<usize> = out.obs.iter().map(|t| self.id(t)).collect();
        if let (Some(v), Some(o)) = (out.reg, op["o"].as_str()) { self.regs.insert(o.to_string(), v); }
        let mut e = op.clone();
        if name == "msg_flip" {
            if let Some(Msg(k, _)) = op["o"].as_str().and_then(|o| self.regs.get(o)) {
                let l = flipped(k, op["n"].as_u64().unwrap() as usize).unwrap_or(("", 'P', 0));
                e["f"] = json!(l.0);
                e["fk"] = json!(l.1.to_string());
            }
        }
        if let Some(Why(of, kind, text)) = out.why {
            if of != "" { e["of"] = json!(of); e["why"] = json!(kind); e["text"] = json!(text); }
        }
        e["res"] = json!(res);
        e["ids"] = json!(ids);
        e
    }

    fn step(&mut self, name: &str, op: &Value) -> Out {
        let a: Vec<String> = op["a"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or(vec![]);
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let n = op["n"].as_u64().unwrap_or(0) as usize;
        let f = op["f"].as_str().unwrap_or("");
        match name {
            // The world: exact arithmetic, independent of the code under test.
            "s_const" => { let k = op["n"].as_i64().unwrap(); let s = Scalar::from(k.abs() as u64); ok(S(if k < 0 { -s } else { s })) },
            "s_rand" => ok(S(Scalar::random(&mut self.rng))),
            "s_add" => ok(S(self.s(a[0]) + self.s(a[1]))),
            "s_sub" => ok(S(self.s(a[0]) - self.s(a[1]))),
            "s_mul" => ok(S(self.s(a[0]) * self.s(a[1]))),
            "s_inv" => { let s = self.s(a[0]); if s == Scalar::zero() { err() } else { ok(S(s.invert())) } },
            "s_neg" => ok(S(-self.s(a[0]))),
            "p_g" => ok(P(RISTRETTO_BASEPOINT_POINT)),
            "p_rand" => ok(P(RistrettoPoint::random(&mut self.rng))),
            "p_zero" => ok(P(RistrettoPoint::identity())),
            "p_mul" => ok(P(self.s(a[0]) * self.p(a[1]))),
            "p_add" => ok(P(self.p(a[0]) + self.p(a[1]))),
            "p_sub" => ok(P(self.p(a[0]) - self.p(a[1]))),
            "p_neg" => ok(P(-self.p(a[0]))),
            "p_small" => { // is one point a small multiple of another?
                let (x, b) = (self.p(a[0]), self.p(a[1]));
                let found = small_multiple(&x, &b, n, &mut self.baby);
                if found { okk() } else { err() }
            },
            "s_small" => { // is the absolute value of the scalar below 2^n?
                let s = self.s(a[0]);
                let small = |s: &Scalar| s.as_bytes().iter().enumerate().all(|(i, b)| *b == 0 || (8 * i < n && (n >= 8 * i + 8 || b >> (n - 8 * i) == 0)));
                if small(&s) || small(&-s) { okk() } else { err() }
            },
            "s_wide" => { // how many bits take both values among these scalars?
                let x: Vec<Scalar> = a.iter().map(|x| self.s(x)).collect();
                let varies = |i: usize| { let bit = |s: &Scalar| s.as_bytes()[i / 8] >> (i % 8) & 1; x.iter().any(|s| bit(s) == 0) && x.iter().any(|s| bit(s) == 1) };
                if (0..256).filter(|i| varies(*i)).count() >= n { okk() } else { err() }
            },
            "num" => ok(Num(op["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect())),

            // Parameters and phone numbers
            "prm_new" => ok(Prm(SystemParameters::hunt_and_peck(&mut self.rng))),
            "prm_raw" => { let h = self.p(a[0]); ok(Prm(SystemParameters::from(h))) },
            "prm_g" => ok(P(self.prm(a[0]).g)),
            "prm_h" => ok(P(self.prm(a[0]).h)),
            "phone" => match PhoneNumber::try_from_bytes(self.num(a[0])) { Ok(x) => ok(S(x.0)), Err(e) => no(e) },

            // Operators and conversions
            "eph_mul" => {
                let e: Ephemeral = self.s(a[0]).into();
                let p = self.p(a[1]);
                ok(P(match n {
                    0 => &e * &p,
                    1 => &p * &e,
                    2 => e.clone() * &p,
                    3 => &e * p,
                    4 => p * &e,
                    5 => &p * e.clone(),
                    6 => e.clone() * p,
                    7 => p * e.clone(),
                    8 => &e * &RistrettoBasepointTable::create(&p),
                    _ => &RistrettoBasepointTable::create(&p) * &e,
                }))
            },
            "eph_neg" => {
                let e: Ephemeral = self.s(a[0]).into();
                let f = -e.clone();
                let x: &Scalar = (&f).into();
                if e.to_bytes() != self.s(a[0]).to_bytes().to_vec() { return err() }
                ok(S(*x))
            },
            "nonces" => { // seen one by one, and all together
                let v = Nonces::new(&mut self.rng, n);
                let first: &Scalar = (&v[0]).into();
                let mut o = ok(S(*first));
                o.obs = (0..n).map(|i| ts((&v[i]).into())).chain(v.iter().map(|x| ts(x.into()))).collect();
                o
            },
            "com_mul" => {
                let c = pedersen::Commitment::from_bytes(self.p(a[1]).compress().as_bytes()).unwrap();
                ok(P(if n == 0 { &c * &self.s(a[0]) } else { &self.s(a[0]) * &c }))
            },
            "com_sub" => {
                let mut p = self.p(a[0]);
                p -= pedersen::Commitment::from_bytes(self.p(a[1]).compress().as_bytes()).unwrap();
                ok(P(p))
            },
            "s_msg" => { // an element of a message, there and back
                let v: Vec<Scalar> = a.iter().map(|x| self.s(x)).collect();
                let m: amacs::Message = v.clone().into();
                let x = m[n];
                let back: Vec<Scalar> = m.into();
                if back != v { return err() }
                let one: amacs::Message = x.into();
                if one.0 != vec![x] { return err() }
                ok(S(x))
            },
            "s_str" => { // the only element of the message that a string stands for
                let codes: Vec<u8> = op["d"].as_array().unwrap().iter().skip(1).map(|x| x.as_u64().unwrap() as u8).collect();
                let m: amacs::Message = String::from_utf8(codes).unwrap().into();
                if m.0.len() != 1 { return err() }
                ok(S(m[0]))
            },
            "s_phone" => { // a phone number as a message, and byte by byte
                let p = match PhoneNumber::try_from_bytes(self.num(a[0])) { Ok(x) => x, Err(e) => return no(e) };
                for i in 0..32 { if p[i] != p.0.as_bytes()[i] || p[i] != p.to_bytes()[i] { return err() } }
                let m: amacs::Message = p.into();
                if m.0.len() != 1 { return err() }
                ok(S(m[0]))
            },
            "prm_raw32" => { let h = self.p(a[0]); ok(Prm(SystemParameters::from(h.compress().to_bytes()))) },
            "eg_vec" => { // an encrypted phone number as attributes
                let m = match PhoneNumber::try_from_bytes(self.num(a[1])) { Ok(x) => x, Err(e) => return no(e) };
                let e: Ephemeral = self.s(a[2]).into();
                match self.r(a[0]) { Kp(k) => { let v: Vec<EncryptedAttribute> = m.encrypt(k, &e).into(); if v.len() == 1 { ok(Enc(v[0])) } else { err() } }, _ => panic!("{} is no keypair", a[0]) }
            },
            "eq" => { // do objects compare as equal, either way?
                macro_rules! same { ($x:expr, $y:expr) => { match ($x == $y, $y == $x, $x != $y) { (true, true, false) => true, (false, false, true) => false, _ => panic!("comparisons of {} contradict each other", a[0]) } } }
                macro_rules! dec { ($t:ty, $x:expr, $y:expr) => { { let (x, y) = (<$t>::from_bytes($x).unwrap(), <$t>::from_bytes($y).unwrap()); same!(x, y) } } }
                let r = match (self.r(a[0]), self.r(a[1])) {
                    (P(x), P(y)) => {
                        let (b, c) = (x.compress(), y.compress());
                        let r = dec!(pedersen::Commitment, b.as_bytes(), c.as_bytes());
                        if r != dec!(CommittedPhoneNumber, b.as_bytes(), c.as_bytes()) || r != dec!(elgamal::PublicKey, b.as_bytes(), c.as_bytes()) { panic!("a comparison of points differs from others") }
                        r
                    },
                    (S(x), S(y)) => {
                        let r = dec!(elgamal::SecretKey, x.as_bytes(), y.as_bytes());
                        if r != dec!(CredentialRequest, x.as_bytes(), y.as_bytes()) || r != same!(PhoneNumber(*x), PhoneNumber(*y)) { panic!("a comparison of scalars differs from others") }
                        r
                    },
                    (Prm(x), Prm(y)) => same!(x, y),
                    (Pk(x), Pk(y)) => same!(x, y),
                    (Tag(x), Tag(y)) => same!(x, y),
                    (Kp(x), Kp(y)) => same!(x, y),
                    (Enc(x), Enc(y)) => same!(x, y),
                    (Usr(x), Usr(y)) => same!(x, y),
                    (Ausr(x), Ausr(y)) => same!(x, y),
                    (Pf(_, x), Pf(_, y)) => kinds::same_proofs(op["kind"].as_str().unwrap(), x, y),
                    (Msg(k, x), Msg(l, y)) => {
                        assert_eq!(k, l);
                        match k.as_str() {
                            "iss" => { let r = dec!(CredentialIssuance, x, y); if dec!(Credential, &x[32..128], &y[32..128]) != (x[32..128] == y[32..128]) { panic!("a comparison of credentials differs") } r },
                            "apres" => { let r = dec!(CredentialPresentation, x, y); if r != dec!(VerifiedCredential, x, y) { panic!("a comparison of verified credentials differs") } r },
                            "pres" => dec!(SignalCredentialPresentation, x, y),
                            _ => dec!(VerifiedSignalCredential, x, y),
                        }
                    },
                    _ => panic!("{} and {} cannot be compared", a[0], a[1]),
                };
                if r { okk() } else { err() }
            },

            // Algebraic MACs
            "sk_new" => ok(Sk(amacs::SecretKey::new(n, &mut self.rng))),
            "sk_raw" => {
                let mut b = vec![];
                for x in a.iter() { b.extend_from_slice(self.s(x).as_bytes()); }
                match amacs::SecretKey::from_bytes(&b) { Ok(k) => ok(Sk(k)), Err(_) => err() }
            },
            "sk_x" => match self.r(a[0]) {
                Sk(k) => ok(S(scalar_of(&k.to_bytes()[32 * n..]))),
                Iss(i) => ok(S(scalar_of(&i.issuer.keypair.secret.to_bytes()[32 * n..]))),
                _ => panic!("{} is no key", a[0]),
            },
            "sk_pub" => { let h = self.p(a[1]); match self.r(a[0]) { Sk(k) => ok(Pk(k.get_public_key(&h))), _ => panic!("{} is no key", a[0]) } },
            "pk_x" => match self.r(a[0]) {
                Pk(k) => ok(P(k.Xn[n])),
                Iss(i) => ok(P(i.get_issuer_parameters().Xn[n])),
                _ => panic!("{} is no public key", a[0]),
            },
            "mac" => {
                let m: Vec<Scalar> = a[1..].iter().map(|x| self.s(x)).collect();
                let k = match self.regs.get(a[0]) { Some(Sk(k)) => k, _ => panic!("{} is no key", a[0]) };
                match k.mac(&m.into(), &mut self.rng) { Ok(t) => ok(Tag(t)), Err(e) => no(e) }
            },
            "tag_raw" => ok(Tag(amacs::Tag { nonce: self.p(a[0]), mac: self.p(a[1]) })),
            "tag_P" => match self.r(a[0]) { Tag(t) => ok(P(t.nonce)), _ => panic!("{} is no tag", a[0]) },
            "tag_Q" => match self.r(a[0]) { Tag(t) => ok(P(t.mac)), _ => panic!("{} is no tag", a[0]) },
            "rerand" => {
                let r = amacs::Rerandomization::new(&mut self.rng);
                match self.r(a[0]) { Tag(t) => ok(Tag(r.apply_to_tag(t))), _ => panic!("{} is no tag", a[0]) }
            },
            "rerand2" => { // the same factor applied to two tags, through both operators
                let r = amacs::Rerandomization::new(&mut self.rng);
                match (self.r(a[0]), self.r(a[1])) {
                    (Tag(t), Tag(u)) => {
                        let (x, y) = (t * &r, &r * u);
                        let mut o = ok(Tag(x)); o.obs.extend(comps(&Tag(y))); o
                    },
                    _ => panic!("{} is no tag", a[0]),
                }
            },
            "macv" => {
                let m: Vec<Scalar> = a[2..].iter().map(|x| self.s(x)).collect();
                match (self.r(a[0]), self.r(a[1])) {
                    (Sk(k), Tag(t)) => yesno(k.verify(t, &m.into())),
                    _ => panic!("{} is no key or tag", a[0]),
                }
            },

            // Commitments
            "ped" => { let e: Ephemeral = self.s(a[1]).into(); ok(P(pedersen::Commitment::to(&self.p(a[0]), &e, &self.p(a[2])).into())) },
            "pedopen" => {
                let c = pedersen::Commitment::from_bytes(self.p(a[0]).compress().as_bytes()).unwrap();
                let e: Ephemeral = self.s(a[2]).into();
                if c.open(&self.p(a[1]), &e, &self.p(a[3])).is_ok() { okk() } else { err() }
            },
            "cpn" => {
                let e: Ephemeral = self.s(a[1]).into();
                let m = match PhoneNumber::try_from_bytes(self.num(a[0])) { Ok(x) => x, Err(e) => return no(e) };
                ok(P(CommittedPhoneNumber::from_phone_number(&m, &e, &self.p(a[2]), &self.p(a[3])).0.into()))
            },
            "cpnopen" => {
                let c = CommittedPhoneNumber::from_bytes(self.p(a[0]).compress().as_bytes()).unwrap();
                let e: Ephemeral = self.s(a[2]).into();
                let m = match PhoneNumber::try_from_bytes(self.num(a[1])) { Ok(x) => x, Err(e) => return no(e) };
                if c.open(&m, &e, &self.p(a[3]), &self.p(a[4])).is_ok() { okk() } else { err() }
            },
            "ros" => {
                let (num, prm) = (self.num(a[0]).clone(), self.prm(a[1]));
                match RosterEntryCommitment::create(&num, &prm, &mut self.rng) { Ok(r) => ok(Ros(r)), Err(e) => no(e) }
            },
            "ros_raw" => {
                let commitment = CommittedPhoneNumber::from_bytes(self.p(a[0]).compress().as_bytes()).unwrap();
                ok(Ros(RosterEntryCommitment { commitment, opening: self.s(a[1]).into() }))
            },
            "ros_C" => match self.r(a[0]) { Ros(r) => ok(P(point_of(&r.commitment.to_bytes()))), _ => panic!("{} is no entry", a[0]) },
            "ros_o" => match self.r(a[0]) { Ros(r) => ok(S(scalar_of(&r.to_bytes()[32..]))), _ => panic!("{} is no entry", a[0]) },
            "rosopen" => match self.r(a[0]) {
                Ros(r) => yesno(r.open(self.num(a[1]), &self.prm(a[2]))),
                _ => panic!("{} is no entry", a[0]),
            },

            // ElGamal
            "eg_gen" => ok(Kp(elgamal::Keypair::generate(&mut self.rng))),
            "eg_raw" => {
                let mut b = self.s(a[0]).to_bytes().to_vec();
                b.extend_from_slice(self.p(a[1]).compress().as_bytes());
                match elgamal::Keypair::from_bytes(&b) { Ok(k) => ok(Kp(k)), Err(_) => err() }
            },
            "eg_sec" => { // the public key computed from the secret one
                let k = elgamal::SecretKey::from_bytes(self.s(a[0]).as_bytes()).unwrap();
                let public = elgamal::PublicKey::from(&k);
                ok(Kp(elgamal::Keypair { secret: k, public }))
            },
            "eg_sk" => match self.r(a[0]) { Kp(k) => ok(S(Scalar::from(k.secret.clone()))), _ => panic!("{} is no keypair", a[0]) },
            "eg_pk" => match self.r(a[0]) { Kp(k) => ok(P(k.public.into())), _ => panic!("{} is no keypair", a[0]) },
            "enc" => {
                let m: elgamal::Message = (&self.s(a[1])).into();
                let e: Ephemeral = self.s(a[2]).into();
                match self.r(a[0]) { Kp(k) => if n == 0 { ok(Enc(k.encrypt(&m, &e))) } else { ok(Enc(k.public.encrypt(&m, &e))) }, _ => panic!("{} is no keypair", a[0]) }
            },
            "enc_raw" => ok(Enc(elgamal::Encryption { commitment: self.p(a[0]), encryption: self.p(a[1]) })),
            "enc_add" => match (self.r(a[0]), self.r(a[1])) { (Enc(x), Enc(y)) => ok(Enc(x + y)), _ => panic!("{} is no ciphertext", a[0]) },
            "dec" => match (self.r(a[0]), self.r(a[1])) { (Kp(k), Enc(e)) => ok(P(k.secret.decrypt(e))), _ => panic!("{} is no ciphertext", a[0]) },
            "eg_phone" => {
                let m = match PhoneNumber::try_from_bytes(self.num(a[1])) { Ok(x) => x, Err(e) => return no(e) };
                let e: Ephemeral = self.s(a[2]).into();
                match self.r(a[0]) { Kp(k) => ok(Enc(m.encrypt(k, &e).0)), _ => panic!("{} is no keypair", a[0]) }
            },

            // Zero-knowledge proofs
            "pf" | "pfx" | "pfref" | "pfv" | "pfvref" => {
                let kind = op["kind"].as_str().unwrap();
                let mut t = Transcript::new(op["ctx"].as_str().unwrap().as_bytes());
                let pubs: Vec<RistrettoPoint> = op["p"].as_array().unwrap().iter().map(|x| self.p(x.as_str().unwrap())).collect();
                let secs: Vec<Scalar> = op["s"].as_array().map(|v| v.iter().map(|x| self.s(x.as_str().unwrap())).collect()).unwrap_or(vec![]);
                match name {
                    "pf" => ok(Pf(kind.to_string(), kinds::create(kind, &mut t, &pubs, &secs))),
                    "pfx" => ok(Pf(kind.to_string(), kinds::create_elsewhere(kind, op["ctx"].as_str().unwrap(), &pubs, &secs))),
                    "pfref" => {
                        let rs: Vec<Scalar> = secs.iter().map(|_| Scalar::random(&mut self.rng)).collect();
                        ok(Pf(kind.to_string(), self.stmt(kind).prove(&mut t, &pubs, &secs, &rs)))
                    },
                    _ => match self.r(a[0]) {
                        Pf(k, b) => {
                            assert_eq!(k, kind);
                            if name == "pfv" {
                                match kinds::verify(kind, b, &mut t, &pubs) { Ok(true) => okk(), _ => err() }
                            } else {
                                let x = kinds::decode_proof(b).unwrap();
                                if self.stmt(kind).verify(&mut t, &pubs, &x[0], &x[1..]) { okk() } else { err() }
                            }
                        },
                        _ => panic!("{} is no proof", a[0]),
                    },
                }
            },
            "chal" => {
                let mut t = Transcript::new(op["ctx"].as_str().unwrap().as_bytes());
                let points = |k: &str| -> Vec<RistrettoPoint> { op[k].as_array().unwrap().iter().map(|x| self.p(x.as_str().unwrap())).collect() };
                let skip: Vec<usize> = op["skip"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                ok(S(self.stmt(op["kind"].as_str().unwrap()).challenge_without(&mut t, &points("p"), &points("c"), &skip)))
            },
            "pf_raw" => {
                let x: Vec<Scalar> = a.iter().map(|x| self.s(x)).collect();
                ok(Pf(op["kind"].as_str().unwrap().to_string(), kinds::encode_proof(&x[0], &x[1..])))
            },
            "pf_get" => match self.r(a[0]) { Pf(_, b) => ok(S(kinds::decode_proof(b).unwrap()[n])), _ => panic!("{} is no proof", a[0]) },
            "pf_set" => {
                let s = self.s(a[1]);
                match self.r(a[0]) {
                    Pf(k, b) => { let mut b = b.clone(); b[40 * n + 8..40 * n + 40].copy_from_slice(s.as_bytes()); ok(Pf(k.clone(), b)) },
                    _ => panic!("{} is no proof", a[0]),
                }
            },

            // The protocol
            "iss_new" => { let prm = self.prm(a[0]); ok(Iss(SignalIssuer::create(prm, &mut self.rng))) },
            "iss_raw" => {
                let prm = self.prm(a[0]);
                match self.r(a[1]) {
                    Sk(k) => { let public = k.get_public_key(&prm.h); ok(Iss(SignalIssuer::new(prm, amacs::Keypair { public, secret: k.clone() }))) },
                    _ => panic!("{} is no key", a[1]),
                }
            },
            "iss_key" => { // with a key whose parts need not fit
                let prm = self.prm(a[0]);
                match (self.r(a[1]), self.r(a[2])) {
                    (Pk(public), Sk(secret)) => ok(Iss(SignalIssuer::new(prm, amacs::Keypair { public: public.clone(), secret: secret.clone() }))),
                    _ => panic!("{} is no key", a[1]),
                }
            },
            "iss_pk" => match self.r(a[0]) { Iss(i) => ok(Pk(i.get_issuer_parameters())), _ => panic!("{} is no issuer", a[0]) },
            "usr_new" => {
                let pk = match self.r(a[1]) { Pk(k) => k.clone(), _ => panic!("{} is no public key", a[1]) };
                let key = if a.len() > 3 { match self.r(a[3]) { Kp(k) => Some(k.clone()), _ => panic!("{} is no keypair", a[3]) } } else { None };
                match SignalUser::new(self.prm(a[0]), pk, key, self.num(a[2])) { Ok(u) => ok(Usr(u)), Err(e) => no(e) }
            },
            "ausr_new" => {
                let pk = match self.r(a[1]) { Pk(k) => k.clone(), _ => panic!("{} is no public key", a[1]) };
                let key = if a.len() > 2 { match self.r(a[2]) { Kp(k) => Some(k.clone()), _ => panic!("{} is no keypair", a[2]) } } else { None };
                ok(Ausr(User::new(self.prm(a[0]), pk, key)))
            },
            "issue" => {
                let num = self.num(a[1]).clone();
                let i = match self.regs.get(a[0]) { Some(Iss(i)) => i, _ => panic!("{} is no issuer", a[0]) };
                match i.issue(&num, &mut self.rng) { Ok(m) => ok(Msg("iss".into(), m.to_bytes())), Err(e) => no(e) }
            },
            "aissue" => {
                let m: Vec<Scalar> = a[1..].iter().map(|x| self.s(x)).collect();
                let i = match self.regs.get(a[0]) { Some(Iss(i)) => i, _ => panic!("{} is no issuer", a[0]) };
                match i.issuer.issue(&CredentialRequest { attributes_revealed: m }, &mut self.rng) {
                    Ok(m) => ok(Msg("iss".into(), m.to_bytes())), Err(e) => no(e)
                }
            },
            "fin" | "afin" => {
                let m = match a.get(1) {
                    Some(m) => match self.r(m) {
                        Msg(_, b) => match CredentialIssuance::from_bytes(b) { Ok(x) => Some(Some(x)), Err(_) => None },
                        _ => panic!("{} is no message", m),
                    },
                    None => Some(None),
                };
                let u = self.regs.get_mut(a[0]).unwrap();
                let r = match m {
                    None => err(),
                    Some(m) => match u {
                        Usr(u) => yesno(u.obtain_finish(m.as_ref())),
                        Ausr(u) => yesno(u.obtain_finish(m.as_ref())),
                        _ => panic!("{} is no user", a[0]),
                    },
                };
                Out { obs: comps(u), ..r }
            },
            // An issuance in the hands of the caller, who changes the number of its attributes
            "finx" => {
                let mut m = match self.r(a[1]) {
                    Msg(_, b) => match CredentialIssuance::from_bytes(b) { Ok(x) => x, Err(_) => { let obs = comps(self.r(a[0])); return Out { obs, ..err() } } },
                    _ => panic!("{} is no message", a[1]),
                };
                m.credential.attributes = a[2..].iter().map(|x| self.s(x)).collect();
                let u = self.regs.get_mut(a[0]).unwrap();
                let r = match u { Usr(u) => yesno(u.obtain_finish(Some(&m))), _ => panic!("{} is no user", a[0]) };
                Out { obs: comps(u), ..r }
            },
            "usr" => { let obs = comps(self.r(a[0])); Out { obs, ..okk() } },
            "show" => {
                let u = match self.regs.get(a[0]) { Some(Usr(u)) => u, _ => panic!("{} is no user", a[0]) };
                let e = match self.regs.get(a[1]) { Some(Ros(r)) => r, _ => panic!("{} is no entry", a[1]) };
                match u.show(&mut self.rng, e) { Ok(p) => ok(Msg("pres".into(), p.to_bytes())), Err(e) => no(e) }
            },
            "ashow" => {
                let nonces = Nonces::new(&mut self.rng, n);
                let u = match self.regs.get(a[0]) { Some(Ausr(u)) => u, _ => panic!("{} is no user", a[0]) };
                match u.show(&nonces, &mut self.rng) { Ok(p) => ok(Msg("apres".into(), p.to_bytes())), Err(e) => no(e) }
            },
            "ver" => match (self.r(a[0]), self.r(a[1])) {
                (Iss(i), Msg(_, b)) => {
                    let p = match SignalCredentialPresentation::from_bytes(b) { Ok(x) => x, Err(_) => return err() };
                    match i.verify(p) { Ok(v) => ok(Msg("ver".into(), v.to_bytes())), Err(e) => no(e) }
                },
                _ => panic!("{} is no issuer or presentation", a[0]),
            },
            "aver" => match (self.r(a[0]), self.r(a[1])) {
                // n blinded attributes (the one in the message repeated), and revealed ones from further arguments
                (Iss(i), Msg(_, b)) => {
                    let mut p = match CredentialPresentation::from_bytes(b) { Ok(x) => x, Err(_) => return err() };
                    let c = p.attributes_blinded[0];
                    p.attributes_blinded = vec![c; n];
                    p.attributes_revealed = a[2..].iter().map(|x| self.s(x)).collect();
                    match i.issuer.verify(&p) { Ok(v) => ok(Msg("apres".into(), v.to_bytes())), Err(e) => no(e) }
                },
                _ => panic!("{} is no issuer or presentation", a[0]),
            },
            // The same, with other blinded and revealed attributes
            "verx" => match (self.r(a[0]), self.r(a[1])) {
                (Iss(i), Msg(k, b)) => {
                    let names = |k: &str| -> Vec<String> { op[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
                    let blinded = names("p").iter().map(|x| pedersen::Commitment::from_bytes(self.p(x).compress().as_bytes()).unwrap()).collect();
                    let revealed = names("s").iter().map(|x| self.s(x)).collect();
                    if k == "apres" {
                        let mut p = match CredentialPresentation::from_bytes(b) { Ok(x) => x, Err(_) => return err() };
                        p.attributes_blinded = blinded;
                        p.attributes_revealed = revealed;
                        yesno(i.issuer.verify(&p).map(|_| ()))
                    } else {
                        let mut p = match SignalCredentialPresentation::from_bytes(b) { Ok(x) => x, Err(_) => return err() };
                        p.presentation.attributes_blinded = blinded;
                        p.presentation.attributes_revealed = revealed;
                        yesno(i.verify(p).map(|_| ()))
                    }
                },
                _ => panic!("{} is no issuer or presentation", a[0]),
            },
            "unver" => match self.r(a[0]) { // pretend that a presentation had been verified
                Msg(_, b) => match VerifiedSignalCredential::from_bytes(b) { Ok(v) => ok(Msg("ver".into(), v.to_bytes())), Err(_) => err() },
                _ => panic!("{} is no message", a[0]),
            },
            "vros" => match (self.r(a[0]), self.r(a[1])) {
                (Iss(i), Msg(_, b)) => {
                    let v = match VerifiedSignalCredential::from_bytes(b) { Ok(x) => x, Err(_) => return err() };
                    match i.verify_roster_membership(&v) { Ok(c) => ok(P(point_of(&c.to_bytes()))), Err(e) => no(e) }
                },
                _ => panic!("{} is no issuer or credential", a[0]),
            },
            "msg_get" => match self.r(a[0]) {
                Msg(k, b) => { let l = layout(k); let x = l.iter().find(|x| x.0 == f).unwrap();
                    if x.1 == 'S' { ok(S(scalar_of(&b[x.2..]))) } else { ok(P(point_of(&b[x.2..]))) } },
                _ => panic!("{} is no message", a[0]),
            },
            "msg_set" => match self.r(a[0]) {
                Msg(k, b) => {
                    let l = layout(k); let x = l.iter().find(|x| x.0 == f).unwrap();
                    let y = match self.r(a[1]) { S(s) => s.to_bytes(), P(p) => p.compress().to_bytes(), _ => panic!("{} is no value", a[1]) };
                    let mut b = b.clone();
                    b[x.2..x.2 + 32].copy_from_slice(&y);
                    ok(Msg(k.clone(), b))
                },
                _ => panic!("{} is no message", a[0]),
            },
            "msg_flip" => match self.r(a[0]) { // by the curve library, is it still a sequence of valid fields?
                Msg(k, b) => {
                    let mut b = b.clone();
                    b[n / 8] ^= 1 << (n % 8);
                    let good = match flipped(k, n) {
                        Some((_, 'S', o)) => Scalar::from_canonical_bytes(arr(&b[o..])).is_some(),
                        Some((_, _, o)) => CompressedRistretto(arr(&b[o..])).decompress().is_some(),
                        None => false,
                    };
                    let v = Msg(k.clone(), b);
                    Out { obs: if good { comps(&v) } else { vec![] }, reg: Some(v), ok: good, why: None }
                },
                _ => panic!("{} is no message", a[0]),
            },
            "msg_new" => { // assemble a message from the values of its fields, in order
                let l = layout(f);
                let mut b = vec![0u8; size(f)];
                for ((_, k, o), r) in l.iter().zip(a.iter()) {
                    let y = match self.r(r) { S(s) => s.to_bytes(), P(p) => p.compress().to_bytes(), _ => panic!("{} is no value", r) };
                    b[*o..*o + 32].copy_from_slice(&y);
                    if *k == 'S' && !(f == "iss" && *o == 96) { b[*o - 8] = 32; }
                }
                ok(Msg(f.to_string(), b))
            },

            // Errors: their texts, and what becomes of them when they are handed on as others
            "say" => {
                let to = op["to"].as_str().unwrap_or("");
                macro_rules! pick { ($t:ident: $($k:ident),*) => { match f { $(stringify!($k) => $t::$k,)* _ => panic!("no error {}", f) } } }
                fn missing<E: From<::std::option::NoneError>>() -> Result<(), E> { None?; Ok(()) }
                match op["t"].as_str().unwrap() {
                    "MacError" => {
                        let e = if f == "MessageLengthError" { MacError::MessageLengthError { length: n } }
                                else { pick!(MacError: KeypairDeserialisation, PointDecompressionError, ScalarFormatError, AuthenticationError) };
                        if to == "" { no(e) } else { no(CredentialError::from(e)) }
                    },
                    "PhoneNumberError" => {
                        let e = pick!(PhoneNumberError: LengthExceeded, InvalidPhoneNumber);
                        if to == "" { no(e) } else { no(CredentialError::from(e)) }
                    },
                    "CredentialError" => {
                        let e = pick!(CredentialError: BadAttribute, CredentialIssuance, MacCreation, MacVerification, MissingData, NoIssuerKey, NoIssuerParameters,
                                      NoSystemParameters, PointDecompressionError, ScalarFormatError, WrongNumberOfAttributes, WrongNumberOfBytes, VerificationFailure);
                        if to == "" { no(e) } else { no(PhoneNumberError::from(e)) }
                    },
                    _ => match to {
                        "MacError" => yesno(missing::<MacError>()),
                        "PhoneNumberError" => yesno(missing::<PhoneNumberError>()),
                        _ => yesno(missing::<CredentialError>()),
                    },
                }
            },

            // Save and restore anything
            "sav" => {
                // by its own encoding, or by serde's in a binary or a text format
                macro_rules! via { ($t:ty, $x:expr) => { match f {
                    "bin" => bincode::serialize($x).ok().and_then(|b| bincode::deserialize::<$t>(&b).ok()),
                    "json" => serde_json::to_string($x).ok().and_then(|b| serde_json::from_str::<$t>(&b).ok()),
                    _ => <$t>::from_bytes(&$x.to_bytes()).ok(),
                } } }
                macro_rules! rt { ($c:path, $t:ty, $x:expr) => { match via!($t, $x) { Some(y) => ok($c(y)), None => err() } } }
                match self.r(a[0]) {
                    Prm(x) => rt!(Prm, SystemParameters, x),
                    Sk(x) => rt!(Sk, amacs::SecretKey, x),
                    Pk(x) => rt!(Pk, IssuerParameters, x),
                    Tag(x) => rt!(Tag, amacs::Tag, x),
                    Ros(x) => rt!(Ros, RosterEntryCommitment, x),
                    Kp(x) => rt!(Kp, elgamal::Keypair, x),
                    Iss(x) => rt!(Iss, SignalIssuer, x),
                    Usr(x) => rt!(Usr, SignalUser, x),
                    Ausr(x) => rt!(Ausr, User, x),
                    Num(x) => ok(Num(x.clone())),
                    Msg(k, b) => {
                        macro_rules! rm { ($t:ty) => { match <$t>::from_bytes(b).ok().and_then(|y| via!($t, &y)) { Some(y) => ok(Msg(k.clone(), y.to_bytes())), None => err() } } }
                        match k.as_str() {
                            "iss" => rm!(CredentialIssuance),
                            "apres" => rm!(CredentialPresentation),
                            "pres" => rm!(SignalCredentialPresentation),
                            _ => rm!(VerifiedSignalCredential),
                        }
                    },
                    _ => panic!("{} is no storable", a[0]),
                }
            },
            "iss_split" => match self.r(a[0]) { // rebuild an issuer from its parts
                Iss(i) => match Issuer::from_bytes(&i.issuer.to_bytes()) {
                    Ok(j) => ok(Iss(SignalIssuer::new(j.system_parameters, j.keypair))), Err(_) => err(),
                },
                _ => panic!("{} is no issuer", a[0]),
            },
            _ => { eprintln!("harness: unknown operation {}", name); std::process::exit(3) },
        }
    }
}
