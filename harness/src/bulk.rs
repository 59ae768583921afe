//! Thousands of repetitions of one kind of trial, each with values of its own, for what happens only now and then
//! (spec/Bulk.tla). What came of them is told as counts: of each step, change, and outcome.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use aeonflux::amacs;
use aeonflux::credential::{CredentialIssuance, CredentialPresentation};
use aeonflux::elgamal;
use aeonflux::issuer::IssuerParameters;
use aeonflux::nonces::Ephemeral;
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_POINT, RISTRETTO_BASEPOINT_TABLE};
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use rand::{ChaChaRng, RngCore};
use serde_json::{json, Value};
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::kinds;

type R = ChaChaRng;

trait Coded: Sized + serde::Serialize + serde::de::DeserializeOwned {
    fn out(&self) -> Vec<u8>;
    fn back(b: &[u8]) -> Option<Self>;
}
macro_rules! coded { ($($t:ty),*) => { $(impl Coded for $t {
    fn out(&self) -> Vec<u8> { self.to_bytes().to_vec() }
    fn back(b: &[u8]) -> Option<Self> { <$t>::from_bytes(b).ok() }
})* } }
coded!(amacs::Tag, amacs::PublicKey, amacs::SecretKey, amacs::Keypair, elgamal::PublicKey, elgamal::SecretKey, elgamal::Keypair,
       SystemParameters, SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential,
       CredentialPresentation, PhoneNumber, RosterEntryCommitment, SignalIssuer, SignalUser);

/// A world: parameters, an issuer, and a user with a credential
struct World {
    sp: SystemParameters,
    issuer: SignalIssuer,
    other: SignalIssuer,
    user: SignalUser,
    number: Vec<u8>,
    shown: Vec<u8>,
    issued: Vec<u8>,
}

pub struct Bulk {
    counts: BTreeMap<(String, String, String), u64>,
    seen: HashSet<[u8; 32]>,
    twice: u64,
    numbers: HashMap<Vec<u8>, Vec<u8>>,
}

fn digits(rng: &mut R) -> Vec<u8> {
    let n = match rng.next_u32() % 4 { 0 => 11, 1 => 26, _ => 1 + rng.next_u32() as usize % 26 };
    (0..n).map(|_| (rng.next_u32() % 10) as u8).collect()
}
/// Another number
fn neighbour(n: &[u8], rng: &mut R) -> Vec<u8> {
    let mut x = n.to_vec();
    match rng.next_u32() % 4 {
        0 if x.len() < 26 => x.push(0),
        1 if x.len() > 1 => { x.pop(); },
        2 if x.len() < 26 => x.insert(0, 0),
        _ => { let i = rng.next_u32() as usize % x.len(); x[i] = (x[i] + 1 + (rng.next_u32() % 9) as u8) % 10; },
    }
    x
}
fn point(b: &[u8]) -> Option<RistrettoPoint> { let mut x = [0u8; 32]; x.copy_from_slice(b); CompressedRistretto(x).decompress() }

/// The fields of an issuance and of a presentation: where, and whether they are points
const ISS: &[(usize, bool)] = &[(0, true), (32, true), (64, true), (96, false), (136, false), (176, false), (216, false), (256, false), (296, false)];
const PRES: &[(usize, bool)] = &[(0, true), (32, true), (64, true), (96, true), (136, false), (176, false), (216, false), (256, false),
                                 (296, false), (336, false), (376, false), (416, false)];

/// A change to the bytes, and which field it is in (the number of fields, if in none)
fn change(b: &mut Vec<u8>, fields: &[(usize, bool)], old: &[u8], rng: &mut R) -> (&'static str, usize) {
    let i = rng.next_u32() as usize % fields.len();
    let (at, is_point) = fields[i];
    match rng.next_u32() % 8 {
        0 => { for x in &mut b[at..at + 32] { *x = 0; } ("zero", i) },
        1 if is_point => {
            let p = point(&b[at..at + 32]).expect("point") + RISTRETTO_BASEPOINT_POINT;
            b[at..at + 32].copy_from_slice(p.compress().as_bytes());
            ("shifted", i)
        },
        1 | 2 => { // the next scalar
            let mut x = [0u8; 32];
            x.copy_from_slice(&b[at..at + 32]);
            if is_point { b[at] ^= 2; return ("bit", i); }
            b[at..at + 32].copy_from_slice((Scalar::from_bytes_mod_order(x) + Scalar::one()).as_bytes());
            ("next", i)
        },
        3 if old.len() == b.len() && old[at..at + 32] != b[at..at + 32] => { let o = old[at..at + 32].to_vec(); b[at..at + 32].copy_from_slice(&o); ("old", i) },
        4 => {
            let j = rng.next_u32() as usize % fields.len();
            if fields[j].1 == is_point && b[fields[j].0..fields[j].0 + 32] != b[at..at + 32] {
                let o = b[fields[j].0..fields[j].0 + 32].to_vec();
                b[at..at + 32].copy_from_slice(&o);
                return ("moved", i);
            }
            b[at + 31] ^= 1;
            ("bit", i)
        },
        _ => {
            let k = rng.next_u32() as usize % (8 * b.len());
            b[k / 8] ^= 1 << (k % 8);
            ("bit", fields.iter().position(|f| k / 8 >= f.0 && k / 8 < f.0 + 32).unwrap_or(fields.len()))
        },
    }
}

fn world(rng: &mut R) -> World {
    let sp = SystemParameters::hunt_and_peck(rng);
    let (issuer, other) = (SignalIssuer::create(sp, rng), SignalIssuer::create(sp, rng));
    let number = digits(rng);
    let user = SignalUser::new(sp, issuer.get_issuer_parameters(), None, &number).expect("user");
    World { sp, issuer, other, user, number, shown: vec![], issued: vec![] }
}

impl Bulk {
    pub fn new() -> Bulk { Bulk { counts: BTreeMap::new(), seen: HashSet::new(), twice: 0, numbers: HashMap::new() } }

    fn note(&mut self, step: &str, change: &str, res: &str) {
        *self.counts.entry((step.into(), change.into(), res.into())).or_insert(0) += 1;
    }
    fn yes(&mut self, step: &str, change: &str, x: bool) { self.note(step, change, if x { "ok" } else { "err" }) }
    fn fresh(&mut self, b: &[u8]) {
        let mut x = [0u8; 32];
        x.copy_from_slice(b);
        if !self.seen.insert(x) { self.twice += 1; }
    }
    fn again<T: Coded>(&mut self, name: &str, t: T, store: bool) -> T {
        if !store { return t; }
        let b = t.out();
        let back = match T::back(&b) { Some(x) => x, None => { self.note("restore", name, "err"); return t; } };
        let bin = bincode::serialize(&t).ok().and_then(|x| bincode::deserialize::<T>(&x).ok()).map(|x| x.out());
        let js = serde_json::to_vec(&t).ok().and_then(|x| serde_json::from_slice::<T>(&x).ok()).map(|x| x.out());
        let same = back.out() == b && bin.as_ref() == Some(&b) && js.as_ref() == Some(&b);
        self.note("restore", name, if same { "ok" } else { "odd" });
        back
    }
    /// What becomes of the bytes of an object, of which a bit is not as it was
    fn flipped<T: Coded>(&mut self, name: &str, b: &[u8], rng: &mut R) {
        let mut x = b.to_vec();
        let k = rng.next_u32() as usize % (8 * x.len());
        x[k / 8] ^= 1 << (k % 8);
        let r = match T::back(&x) { None => "err", Some(t) => if t.out() == x { "ok" } else { "odd" } };
        self.note("decode", name, r);
    }

    /// A credential for the user of the world
    fn issue(&mut self, w: &mut World, store: bool, rng: &mut R) {
        let i = match w.issuer.issue(&w.number, rng) { Ok(i) => i, Err(_) => { self.note("issue", "none", "err"); return; } };
        self.note("issue", "none", "ok");
        let i = self.again("issuance", i, store);
        let b = i.out();
        for f in &ISS[1..] { if f.0 != 96 { self.fresh(&b[f.0..f.0 + 32]); } }
        w.issued = b;
        let r = w.user.obtain_finish(Some(&i)).is_ok();
        self.yes("accept", "none", r);
    }

    fn honest(&mut self, w: &mut World, store: bool, alter: bool, rng: &mut R) {
        let entry = match RosterEntryCommitment::create(&w.number, &w.sp, rng) { Ok(e) => e, Err(_) => { self.note("entry", "none", "err"); return; } };
        let entry = self.again("entry", entry, store);
        let e = entry.out();
        self.yes("open", "none", entry.open(&w.number, &w.sp).is_ok());
        self.fresh(&e[..32]);
        self.fresh(&e[32..]);
        let shown = w.user.show(rng, &entry);
        self.yes("show", "none", shown.is_ok());
        let shown = match shown { Ok(x) => self.again("presentation", x, store), Err(_) => return };
        let b = shown.out();
        for f in &PRES[1..] { self.fresh(&b[f.0..f.0 + 32]); }
        if !alter || rng.next_u32() % 4 == 0 {
            match w.issuer.verify(shown) {
                Err(_) => self.note("verify", "none", "err"),
                Ok(v) => {
                    self.note("verify", "none", "ok");
                    let v = self.again("verified", v, store);
                    match w.issuer.verify_roster_membership(&v) {
                        Err(_) => self.note("member", "none", "err"),
                        Ok(c) => self.note("member", "none", if c.to_bytes()[..] == e[..32] { "ok" } else { "odd" }),
                    }
                },
            }
        }
        if alter { self.altered(w, &b, rng); }
        w.shown = b;
    }

    /// Presentations that should be refused
    fn altered(&mut self, w: &mut World, b: &[u8], rng: &mut R) {
        let whole = |i: &SignalIssuer, b: &[u8]| -> (bool, bool) { match SignalCredentialPresentation::from_bytes(b) {
            Err(_) => (false, false),
            Ok(p) => match i.verify(p) { Err(_) => (false, false), Ok(v) => (true, i.verify_roster_membership(&v).is_ok()) },
        } };
        let mut x = b.to_vec();
        let (how, field) = change(&mut x, PRES, &w.shown, rng);
        let (v, m) = whole(&w.issuer, &x);
        // The entry and the membership proof are for the second check.
        if field == 0 || (field >= 8 && field < PRES.len()) || field == PRES.len() { self.yes("member", how, m); } else { self.yes("verify", how, v); }
        match rng.next_u32() % 3 {
            0 => { let v = whole(&w.other, b).0; self.yes("verify", "other issuer", v); },
            1 => { // an entry for another number
                let n = neighbour(&w.number, rng);
                if let Ok(e) = RosterEntryCommitment::create(&n, &w.sp, rng) {
                    self.yes("open", "other number", e.open(&w.number, &w.sp).is_ok());
                    if let Ok(p) = w.user.show(rng, &e) { let m = whole(&w.issuer, &p.out()).1; self.yes("member", "other number", m); }
                }
            },
            _ => if w.shown.len() == b.len() { // the entry and the proof of another presentation
                let mut x = b.to_vec();
                let i = rng.next_u32() % 3;
                if i != 1 { x[..32].copy_from_slice(&w.shown[..32]); }
                if i != 0 { x[296..].copy_from_slice(&w.shown[296..]); }
                let m = whole(&w.issuer, &x).1;
                self.yes("member", "transplanted", m);
            },
        }
    }

    /// Issuances that should be refused, and leave the user as it was
    fn refused(&mut self, w: &mut World, rng: &mut R) {
        self.issue(w, false, rng);
        let prev = w.issued.clone();
        let i = match w.issuer.issue(&w.number, rng) { Ok(i) => i.out(), Err(_) => { self.note("issue", "none", "err"); return; } };
        self.note("issue", "none", "ok");
        let mut x = i.clone();
        let mut how = match rng.next_u32() % 8 {
            0 => { if let Ok(i) = w.other.issue(&w.number, rng) { x = i.out(); } "other issuer" },
            1 => { let n = neighbour(&w.number, rng); if let Ok(i) = w.issuer.issue(&n, rng) { x = i.out(); } "other number" },
            2 => { x[136..].copy_from_slice(&prev[136..]); "transplanted" },
            _ => "",
        };
        if how == "" { how = change(&mut x, ISS, &prev, rng).0; }
        let before = w.user.out();
        let r = match SignalCredentialIssuance::from_bytes(&x) { Ok(i) => w.user.obtain_finish(Some(&i)).is_ok(), Err(_) => false };
        self.note("accept", how, if r { "ok" } else if w.user.out() == before { "err" } else { "odd" });
    }

    fn mac(&mut self, store: bool, rng: &mut R) {
        let n = 1 + rng.next_u32() as usize % 4;
        let key = self.again("mackey", amacs::SecretKey::new(n, rng), store);
        let m: Vec<Scalar> = (0..n).map(|_| Scalar::random(rng)).collect();
        let tag = match key.mac(&m.clone().into(), rng) { Ok(t) => t, Err(_) => { self.note("mac", "none", "err"); return; } };
        self.note("mac", "none", "ok");
        let tag = self.again("tag", tag, store);
        self.yes("check", "none", key.verify(&tag, &m.clone().into()).is_ok());
        let again = amacs::Rerandomization::new(rng).apply_to_tag(&tag);
        self.yes("recheck", "none", key.verify(&again, &m.clone().into()).is_ok());
        for t in &[&tag, &again] { let b = t.out(); self.fresh(&b[..32]); self.fresh(&b[32..]); }
        let (mut k2, mut m2, mut t2, mut how) = (key.clone(), m.clone(), tag.out(), "bit");
        match rng.next_u32() % 6 {
            0 => { let i = rng.next_u32() as usize % n; m2[i] += Scalar::one(); how = "next"; },
            1 => { let i = rng.next_u32() as usize % n; m2[i] = Scalar::random(rng); how = "other"; },
            2 => { let i = rng.next_u32() as usize % n; m2[i] = -m2[i]; how = "negated"; },
            3 => { k2 = amacs::SecretKey::new(n, rng); how = "other key"; },
            4 => { m2.push(Scalar::zero()); how = "longer"; },
            _ => { let k = rng.next_u32() as usize % (8 * t2.len()); t2[k / 8] ^= 1 << (k % 8); },
        }
        let r = match amacs::Tag::from_bytes(&t2) { Ok(t) => k2.verify(&t, &m2.into()).is_ok(), Err(_) => false };
        self.yes("check", how, r);
    }

    fn elgamal(&mut self, store: bool, rng: &mut R) {
        let key = self.again("elgamal", elgamal::Keypair::generate(rng), store);
        let other = elgamal::Keypair::generate(rng);
        let n = digits(rng);
        let (s, t) = (if rng.next_u32() % 2 == 0 { Scalar::random(rng) } else { PhoneNumber::try_from_bytes(&n).expect("number").0 }, Scalar::random(rng));
        let (e, f) = (Ephemeral::new(rng), Ephemeral::new(rng));
        let (x, y) = (key.encrypt(&(&s).into(), &e), key.encrypt(&(&t).into(), &f));
        let g = &RISTRETTO_BASEPOINT_TABLE;
        self.yes("decrypt", "none", key.secret.decrypt(&x) == &s * g);
        self.yes("decrypt", "sum", key.secret.decrypt(&(&x + &y)) == &(s + t) * g);
        self.yes("form", "none", x.commitment == &e * g && key.public.encrypt(&(&s).into(), &e) == x);
        self.yes("decrypt", "other key", other.secret.decrypt(&x) == &s * g);
        self.fresh(x.commitment.compress().as_bytes());
        self.fresh(x.encryption.compress().as_bytes());
    }

    fn phone(&mut self, store: bool, rng: &mut R) {
        for _ in 0..20 {
            let n = digits(rng);
            for n in &[neighbour(&n, rng), n] {
                let s: String = n.iter().map(|d| (b'0' + d) as char).collect();
                let (x, y) = match (PhoneNumber::try_from_bytes(n), PhoneNumber::try_from_string(&s)) { (Ok(x), Ok(y)) => (x, y), _ => { self.note("number", "none", "err"); continue; } };
                let x = self.again("number", x, store);
                let b = x.out();
                let mut ok = b == y.out();
                let same = self.numbers.entry(b).or_insert(n.clone());
                ok = ok && same == n && String::from(x) == s;
                self.note("number", "none", if ok { "ok" } else { "odd" });
            }
            let mut long: Vec<u8> = digits(rng);
            while long.len() <= 26 { long.push((rng.next_u32() % 10) as u8); }
            let s: String = long.iter().map(|d| (b'0' + d) as char).collect();
            self.yes("number", "long", PhoneNumber::try_from_bytes(&long).is_ok() || PhoneNumber::try_from_string(&s).is_ok());
        }
    }

    fn entry(&mut self, w: &World, store: bool, rng: &mut R) {
        let n = digits(rng);
        let e = match RosterEntryCommitment::create(&n, &w.sp, rng) { Ok(e) => e, Err(_) => { self.note("entry", "none", "err"); return; } };
        let e = self.again("entry", e, store);
        let b = e.out();
        self.fresh(&b[..32]);
        self.fresh(&b[32..]);
        self.yes("open", "none", e.open(&n, &w.sp).is_ok());
        self.yes("open", "other number", e.open(&neighbour(&n, rng), &w.sp).is_ok());
        let mut x = b.clone();
        let k = rng.next_u32() as usize % (8 * x.len());
        x[k / 8] ^= 1 << (k % 8);
        self.yes("open", "bit", RosterEntryCommitment::from_bytes(&x).map(|e| e.open(&n, &w.sp).is_ok()).unwrap_or(false));
        let v = w.sp.h * PhoneNumber::try_from_bytes(&n).expect("number").0;
        let (o, c) = (Ephemeral::new(rng), Scalar::random(rng));
        let p = aeonflux::pedersen::Commitment::to(&v, &o, &w.sp.g);
        self.yes("open", "none", p.open(&v, &o, &w.sp.g).is_ok());
        self.yes("open", "other value", p.open(&(v + &c * &RISTRETTO_BASEPOINT_TABLE), &o, &w.sp.g).is_ok());
        self.yes("open", "other basepoint", p.open(&v, &o, &w.sp.h).is_ok());
    }

    fn proof(&mut self, stmts: &[kinds::Stmt], rng: &mut R) {
        let st = &stmts[rng.next_u32() as usize % stmts.len()];
        let secs: Vec<Scalar> = st.secrets.iter().map(|_| Scalar::random(rng)).collect();
        let mut pubs: Vec<RistrettoPoint> = st.publics.iter().map(|_| RistrettoPoint::random(rng)).collect();
        for _ in 0..4 { for (l, ts) in &st.eqs {
            let mut acc = RistrettoPoint::identity();
            for (s, p) in ts { acc += secs[*s] * pubs[*p]; }
            pubs[*l] = acc;
        } }
        let mut ctx = [0u8; 8];
        rng.fill_bytes(&mut ctx);
        let label = b"bulk";
        let start = |c: &[u8]| { let mut t = Transcript::new(label); t.commit_bytes(b"ctx", c); t };
        let pf = kinds::create(&st.name, &mut start(&ctx), &pubs, &secs);
        self.yes("proof", "none", kinds::verify(&st.name, &pf, &mut start(&ctx), &pubs) == Ok(true));
        for (i, c) in pf.chunks(40).enumerate() { if i == 0 || st.eqs.iter().any(|(_, ts)| ts.iter().any(|t| t.0 == i - 1)) { self.fresh(&c[8..40]); } }
        let (mut p2, mut c2, mut q2, mut how) = (pf.clone(), ctx, pubs.clone(), "bit");
        match rng.next_u32() % 4 {
            0 => { let i = rng.next_u32() as usize % q2.len(); q2[i] += RISTRETTO_BASEPOINT_POINT; how = "shifted"; },
            1 => { let k = rng.next_u32() as usize % 64; c2[k / 8] ^= 1 << (k % 8); how = "context"; },
            _ => loop {
                let k = rng.next_u32() as usize % (8 * p2.len());
                let f = k / 8 / 40;
                if f > 0 && !st.eqs.iter().any(|(_, ts)| ts.iter().any(|t| t.0 == f - 1)) { continue; }
                p2[k / 8] ^= 1 << (k % 8);
                break;
            },
        }
        let r = kinds::verify(&st.name, &p2, &mut start(&c2), &q2) == Ok(true);
        self.yes("proof", how, r);
        // A false statement
        let mut s2 = secs.clone();
        let (_, ts) = &st.eqs[rng.next_u32() as usize % st.eqs.len()];
        let t = ts[rng.next_u32() as usize % ts.len()];
        s2[t.0] += Scalar::one();
        let pf = kinds::create(&st.name, &mut start(&ctx), &pubs, &s2);
        self.yes("proof", "false", kinds::verify(&st.name, &pf, &mut start(&ctx), &pubs) == Ok(true));
    }

    fn keys(&mut self, store: bool, rng: &mut R) {
        let mut copy = rng.clone();
        let sp = self.again("parameters", SystemParameters::hunt_and_peck(rng), store);
        let same = SystemParameters::hunt_and_peck(&mut copy) == sp;
        self.yes("parameters", "none", sp.g == RISTRETTO_BASEPOINT_POINT && sp.h != sp.g && sp.h != RistrettoPoint::identity());
        self.yes("parameters", "again", same);
        self.fresh(sp.h.compress().as_bytes());
        let mut copy = rng.clone();
        let key = self.again("keypair", amacs::Keypair::new(&sp.h, rng), store);
        self.yes("keypair", "none", key.secret.get_public_key(&sp.h).out() == key.public.out());
        self.yes("keypair", "again", amacs::Keypair::new(&sp.h, &mut copy).out() == key.out());
        for c in key.out().chunks(32) { self.fresh(c); }
        let key = elgamal::Keypair::generate(rng);
        let b = key.out();
        self.yes("elgamal", "none", elgamal::PublicKey::from(&key.secret).out() == key.public.out());
        for c in b.chunks(32) { self.fresh(c); }
        let i = SignalIssuer::create(sp, rng);
        let p: IssuerParameters = i.get_issuer_parameters();
        self.fresh(&bincode::serialize(&p).expect("parameters")[8..40]);
    }

    /// Bytes of which one bit is not as it was, of every type
    fn bits(&mut self, w: &mut World, rng: &mut R) {
        self.issue(w, false, rng);
        let e = RosterEntryCommitment::create(&w.number, &w.sp, rng).expect("entry");
        let shown = w.user.show(rng, &e).expect("presentation").out();
        for _ in 0..4 {
            self.flipped::<SignalCredentialPresentation>("presentation", &shown, rng);
            self.flipped::<VerifiedSignalCredential>("verified", &shown, rng);
            self.flipped::<SignalCredentialIssuance>("issuance", &w.issued, rng);
            self.flipped::<SignalUser>("user", &w.user.out(), rng);
            self.flipped::<SignalIssuer>("issuer", &w.issuer.out(), rng);
            self.flipped::<amacs::Keypair>("keypair", &w.issuer.issuer.keypair.out(), rng);
            self.flipped::<SystemParameters>("parameters", &w.sp.out(), rng);
            self.flipped::<RosterEntryCommitment>("entry", &e.out(), rng);
            self.flipped::<amacs::Tag>("tag", &shown[..64], rng);
        }
    }

    pub fn exec(&mut self, op: &Value, stmts: &[kinds::Stmt], rng: &mut R) -> Value {
        let (kind, n, life, store) = (op["kind"].as_str().unwrap(), op["n"].as_u64().unwrap(), op["life"].as_u64().unwrap(), op["store"] == true);
        // (what was seen before is not forgotten)
        self.counts.clear();
        self.numbers.clear();
        self.twice = 0;
        let mut w: Option<World> = None;
        for k in 0..n {
            if w.is_none() || k % life == 0 {
                match catch_unwind(AssertUnwindSafe(|| world(rng))) { Ok(x) => w = Some(x), Err(_) => { self.note("world", "none", "panic"); break; } }
                if kind == "honest" || kind == "altered" {
                    let r = catch_unwind(AssertUnwindSafe(|| self.issue(w.as_mut().unwrap(), store, rng)));
                    if r.is_err() { self.note("issue", "none", "panic"); }
                }
            }
            let x = w.as_mut().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| match kind {
                "honest" => {
                    if store {
                        if let Some(u) = SignalUser::back(&x.user.out()) { x.user = u; } else { self.note("restore", "user", "err"); }
                        if let Some(i) = SignalIssuer::back(&x.issuer.out()) { x.issuer = i; } else { self.note("restore", "issuer", "err"); }
                    }
                    self.honest(x, store, false, rng)
                },
                "altered" => self.honest(x, false, true, rng),
                "refused" => self.refused(x, rng),
                "mac" => self.mac(store, rng),
                "elgamal" => self.elgamal(store, rng),
                "phone" => self.phone(store, rng),
                "entry" => self.entry(x, store, rng),
                "proof" => self.proof(stmts, rng),
                "keys" => self.keys(store, rng),
                "bits" => self.bits(x, rng),
                k => { eprintln!("trial {}", k); std::process::exit(3) },
            }));
            if r.is_err() { self.note(kind, "none", "panic"); }
        }
        let counts: Vec<Value> = self.counts.iter().map(|(k, n)| json!({"step": k.0, "change": k.1, "res": k.2, "n": n})).collect();
        json!({"op": "bulk", "kind": kind, "n": n, "store": store, "counts": counts, "values": self.seen.len(), "twice": self.twice})
    }
}
