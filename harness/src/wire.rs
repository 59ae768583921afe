//! Byte strings, and what every decoder and encoder of the code under test makes of them (spec/Wire.tla).
use std::collections::HashMap;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

use aeonflux::amacs;
use aeonflux::credential::*;
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen::Commitment;
use aeonflux::user::User;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use rand::{ChaChaRng, RngCore, SeedableRng};
use serde::de::value::{Error as ValueError, SeqDeserializer};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use crate::kinds;

type B = [u8; 32];
fn arr(b: &[u8]) -> B { let mut t = [0u8; 32]; t.copy_from_slice(&b[..32]); t }
fn pb(p: &RistrettoPoint) -> B { p.compress().to_bytes() }
pub fn is_point(b: &B) -> bool { CompressedRistretto(*b).decompress().map_or(false, |p| pb(&p) == *b) }
pub fn is_scalar(b: &B) -> bool { Scalar::from_canonical_bytes(*b).is_some() }

/// x + y, as numbers of 256 bits.
fn add(x: &B, y: &B) -> B {
    let mut c = 0u16;
    let mut r = [0u8; 32];
    for i in 0..32 { c += x[i] as u16 + y[i] as u16; r[i] = c as u8; c >>= 8; }
    r
}
fn neg(x: &B) -> B { let mut r = [0u8; 32]; for i in 0..32 { r[i] = !x[i]; } add(&r, &small(1)) }
fn small(n: u8) -> B { let mut r = [0u8; 32]; r[0] = n; r }
/// The order of the group.
fn ell() -> B { add(&(Scalar::zero() - Scalar::one()).to_bytes(), &small(1)) }
/// The order of the field.
fn p() -> B { let mut r = [0xffu8; 32]; r[0] = 0xed; r[31] = 0x7f; r }

pub fn random32(rng: &mut ChaChaRng) -> B { let mut t = [0u8; 32]; rng.fill_bytes(&mut t); t }

fn point(x: &[u8]) -> RistrettoPoint { let mut b = [0u8; 32]; b.copy_from_slice(x); CompressedRistretto(b).decompress().unwrap() }
fn scalar(x: &[u8]) -> Scalar { let mut b = [0u8; 32]; b.copy_from_slice(x); Scalar::from_canonical_bytes(b).unwrap() }
/// The bytes of a class of values.
fn value(kind: &str, class: &str, rng: &mut ChaChaRng, vals: &mut HashMap<String, Vec<u8>>) -> Vec<u8> {
    if let Some(v) = vals.get(class) { return v.clone(); }
    let named = |c: &str| c.len() > 1 && c[1..].chars().all(|x| x.is_ascii_digit());
    let v: Vec<u8> = match (kind, class) {
        (_, "id") | (_, "0") => vec![0; 32],
        (_, "B") => RISTRETTO_BASEPOINT_COMPRESSED.to_bytes().to_vec(),
        (_, "1") => small(1).to_vec(),
        (_, "l-1") => add(&ell(), &neg(&small(1))).to_vec(),
        (_, "2^252") => { let mut r = [0u8; 32]; r[31] = 0x10; r.to_vec() },
        (_, "nc0") => p().to_vec(),
        (_, "nc+") => loop {                          // p + x, for a small x that encodes a point (its sum is noncanonical)
            let x = small((rng.next_u32() % 9 * 2) as u8);
            if is_point(&x) { break add(&p(), &x).to_vec(); }
        },
        (_, "neg") => add(&p(), &neg(&pb(&RistrettoPoint::random(rng)))).to_vec(),
        (_, "ns") => loop {                           // a canonical, non-negative field element that encodes no point
            let mut x = random32(rng); x[31] &= 0x3f; x[0] &= 0xfe;
            if CompressedRistretto(x).decompress().is_none() { break x.to_vec(); }
        },
        ("P", "hi") => { let mut x = pb(&RistrettoPoint::random(rng)); x[31] |= 0x80; x.to_vec() },
        (_, "hi") => { let mut x = Scalar::random(rng).to_bytes(); x[31] |= 0x80; x.to_vec() },
        (_, "ff") => vec![0xff; 32],
        (_, "l") => ell().to_vec(),
        (_, "l+1") => add(&ell(), &small(1)).to_vec(),
        (_, "l+s") => add(&ell(), &Scalar::random(rng).to_bytes()).to_vec(),
        (_, "2l") => add(&ell(), &ell()).to_vec(),
        (_, c) if c.contains("~") => {                // related to another one, or to two
            let (a, how) = (c.split('~').next().unwrap(), c.split('~').nth(1).unwrap());
            if kind == "P" && a.starts_with('s') {
                let x = scalar(&value("S", a, rng, vals));
                return pb(&(point(&value("P", how, rng, vals)) * x)).to_vec();
            }
            let x = value(kind, a, rng, vals);
            if kind == "P" {
                let x = point(&x);
                pb(&match how { "neg" => -x, "dbl" => x + x, "inc" => x + RISTRETTO_BASEPOINT_COMPRESSED.decompress().unwrap(),
                                m => x + point(&value(kind, m, rng, vals)) }).to_vec()
            } else {
                let x = scalar(&x);
                match how { "neg" => -x, "dbl" => x + x, "inc" => x + Scalar::one(), "inv" => x.invert(), "sq" => x * x,
                            m => x + scalar(&value(kind, m, rng, vals)) }.to_bytes().to_vec()
            }
        },
        (_, c) if c.contains(":") => {                // a random one with certain bytes
            let how = c.splitn(2, ':').nth(1).unwrap();
            let byte: Vec<usize> = if how.contains("=") { how.split('=').map(|x| x.parse().unwrap()).collect() } else { vec![] };
            loop {
                let mut x = if c.starts_with('p') { pb(&RistrettoPoint::random(rng)) } else { Scalar::random(rng).to_bytes() };
                if c.starts_with('s') {
                    match how { "lo" => for i in 16..32 { x[i] = 0; }, "hi" => for i in 0..16 { x[i] = 0; }, _ => x[byte[0]] = byte[1] as u8 }
                    if is_scalar(&x) { break x.to_vec(); }
                } else if x[byte[0]] == byte[1] as u8 { break x.to_vec(); }
            }
        },
        (_, c) if c.starts_with('p') && named(c) => pb(&RistrettoPoint::random(rng)).to_vec(),
        (_, c) if c.starts_with('s') && named(c) => Scalar::random(rng).to_bytes().to_vec(),
        (_, "L2^32+32") => ((1u64 << 32) + 32).to_le_bytes_().to_vec(),
        (_, "L2^63") => (1u64 << 63).to_le_bytes_().to_vec(),
        (_, "Lmax") => vec![0xff; 8],
        (_, c) if c.starts_with('L') => c[1..].parse::<u64>().unwrap().to_le_bytes_().to_vec(),
        (k, c) => panic!("class {} {}", k, c),
    };
    // Classes that were drawn at random once keep their value.
    vals.insert(class.to_string(), v.clone());
    v
}

trait Le { fn to_le_bytes_(self) -> [u8; 8]; }
impl Le for u64 { fn to_le_bytes_(self) -> [u8; 8] { let mut r = [0; 8]; for i in 0..8 { r[i] = (self >> (8 * i)) as u8; } r } }

/// (`prev` are the bytes before any changes, of the operation before)
fn build(op: &Value, rng: &mut ChaChaRng, prev: &mut Vec<u8>) -> Vec<u8> {
    let mut vals = HashMap::new();
    let ks: Vec<&str> = op["kinds"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let mut b: Vec<u8> = vec![];
    let mut at = vec![];
    if op["prev"] == true {
        b = prev.clone();
        for k in &ks { let n = at.last().map_or(0, |x: &(usize, usize)| x.0 + x.1); at.push((n, if *k == "L" { 8 } else { 32 })); }
    } else { for (k, c) in ks.iter().zip(op["cells"].as_array().unwrap()) {
        let v = value(k, c.as_str().unwrap(), rng, &mut vals);
        at.push((b.len(), v.len()));
        b.extend(v);
    } }
    *prev = b.clone();
    for m in op["mods"].as_array().unwrap() {
        let n = |i: usize| m[i].as_u64().unwrap() as usize;
        match m[0].as_str().unwrap() {
            "cell" => { let o = at[n(1) - 1].0; let v = value("", m[2].as_str().unwrap(), rng, &mut vals);
                        if o + 32 <= b.len() { b[o..o + 32].copy_from_slice(&v); } },
            "cut" => { let l = b.len().saturating_sub(n(1)); b.truncate(l); },
            "ext" => {
                let mut t = vec![0u8; n(1)];
                match m[2].as_str().unwrap() {
                    "rand" => rng.fill_bytes(&mut t),
                    "copy" => for i in 0..t.len() { if !b.is_empty() { t[i] = b[i % b.len()]; } },
                    _ => {},
                }
                b.extend(t);
            },
            "drop" => if n(1) < b.len() { b.remove(n(1)); },
            "ins" => if n(1) <= b.len() { b.insert(n(1), rng.next_u32() as u8); },
            "front" => { let k = n(1).min(b.len()); b.drain(..k); },
            "rand" => { b = vec![0; n(1)]; rng.fill_bytes(&mut b); },
            "flip" => if n(1) / 8 < b.len() { b[n(1) / 8] ^= 1 << (n(1) % 8); },
            "flipin" => { let o = at[n(1) - 1].0 + n(2) / 8; if o < b.len() { b[o] ^= 1 << (n(2) % 8); } },
            "byte" => if n(1) < b.len() { b[n(1)] = n(2) as u8; },
            "swap" => if n(1).max(n(2)) + 32 <= b.len() {
                let (x, y) = (arr(&b[n(1)..]), arr(&b[n(2)..]));
                b[n(1)..n(1) + 32].copy_from_slice(&y);
                b[n(2)..n(2) + 32].copy_from_slice(&x);
            },
            x => panic!("mod {}", x),
        }
    }
    b
}

/// What came of a decoding.
enum R<T> { Good(T), Bad, Panic }
fn guard<T, F: FnOnce() -> Option<T>>(f: F) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(Some(x)) => R::Good(x), Ok(None) => R::Bad, Err(_) => R::Panic }
}
impl<T> R<T> { fn name(&self) -> &'static str { match self { R::Good(_) => "ok", R::Bad => "err", R::Panic => "panic" } } }

fn lenpre(n: u64, b: &[u8]) -> Vec<u8> { let mut v = n.to_le_bytes_().to_vec(); v.extend_from_slice(b); v }
fn jarray(b: &[u8]) -> String { format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

struct Codec<T> {
    from: fn(&[u8]) -> Option<T>,
    to: fn(&T) -> Vec<u8>,
    eq: fn(&T, &T) -> bool,
    obs: fn(&T) -> Vec<B>,
}

fn run<T: Serialize + DeserializeOwned>(op: &Value, c: Codec<T>, rng: &mut ChaChaRng, prev: &mut Vec<u8>) -> Value {
    let b = build(op, rng, prev);
    if op["op"] == "ends" { let mut e = ends(&c, &b); e["t"] = op["t"].clone(); return e; }
    if op["op"] == "wrapped" { return wrapped::<T>(op, &b); }
    let bin = lenpre(b.len() as u64, &b);
    let js = jarray(&b);
    let objs: Vec<R<T>> = vec![
        guard(|| (c.from)(&b)),
        guard(|| bincode::deserialize::<T>(&bin).ok()),
        guard(|| bincode::deserialize_from::<_, T>(Cursor::new(&bin)).ok()),
        guard(|| serde_json::from_str::<T>(&js).ok()),
        guard(|| serde_json::from_reader::<_, T>(Cursor::new(js.as_bytes())).ok()),
        guard(|| serde_json::from_value::<T>(json!(b)).ok()),
        guard(|| T::deserialize(SeqDeserializer::<_, ValueError>::new(b.iter().cloned())).ok()),
        guard(|| { // among other things
            let v = [&[1u8][..], &bin, &[7, 7, 7, 7, 7, 7, 7, 7]].concat();
            let (o, n): (Option<T>, u64) = bincode::deserialize(&v).ok()?;
            if n == 0x0707070707070707 { o } else { None }
        }),
        guard(|| { let mut x: Vec<T> = serde_json::from_str(&format!("[{},{}]", js, js)).ok()?; if x.len() == 2 { x.pop() } else { None } }),
    ];
    let mut ids: HashMap<B, usize> = HashMap::new();
    ids.insert([0; 32], 0);
    let mut id = |x: &B| { let n = ids.len(); *ids.entry(*x).or_insert(n) };
    let (mut vid, mut vp, mut vs, mut vl) = (vec![], vec![], vec![], vec![]);
    let mut o = 0;
    while o + 8 <= b.len() {
        vl.push((b[o..o + 8] == [32, 0, 0, 0, 0, 0, 0, 0]) as u8);
        if o + 32 <= b.len() {
            let x = arr(&b[o..]);
            vid.push(id(&x)); vp.push(is_point(&x) as u8); vs.push(is_scalar(&x) as u8);
        }
        o += 8;
    }
    let good: Vec<&T> = objs.iter().filter_map(|x| if let R::Good(y) = x { Some(y) } else { None }).collect();
    let obs: Vec<usize> = good.get(0).map_or(vec![], |x| (c.obs)(x).iter().map(|y| id(y)).collect());
    let flags = guard(|| {
        let again = good.get(0).and_then(|x| (c.from)(&(c.to)(x)));
        Some((good.iter().all(|x| (c.to)(x) == b),
         good.iter().all(|x| (c.eq)(x, good[0])) && (good.is_empty() || again.map_or(false, |x| (c.eq)(&x, good[0]) && (c.obs)(&x) == (c.obs)(good[0])))
            && good.iter().all(|x| (c.obs)(x) == (c.obs)(good[0])),
         good.iter().all(|x| bincode::serialize(x).ok() == Some(bin.clone())),
         good.iter().all(|x| serde_json::to_string(x).ok() == Some(js.clone()) && serde_json::to_value(x).ok() == Some(json!(b)))))
    });
    let f = if let R::Good(x) = flags { x } else { (false, false, false, false) };
    json!({"op": "wire", "t": op["t"], "len": b.len(), "id": vid, "p": vp, "s": vs, "l": vl, "expect": op["expect"],
           "res": objs.iter().map(|x| x.name()).collect::<Vec<_>>(), "obs": obs, "same": f.0, "eq": f.1, "bin": f.2, "json": f.3})
}

/// An object's bytes with something short before or after them: whatever it is, that is no object.
fn ends<T: Serialize + DeserializeOwned>(c: &Codec<T>, b: &[u8]) -> Value {
    let mut more: Vec<Vec<u8>> = (0..256).map(|x| vec![x as u8]).collect();
    for k in 2..32usize { for x in [0u8, 10, 13, 32, 48, 61, 128, 255, k as u8, b.get(0).cloned().unwrap_or(1), b.last().cloned().unwrap_or(1)].iter() { more.push(vec![*x; k]); } }
    for x in ["\r\n", "\n\r", "\\n", "\"\"", "{}", "[]", "=\n", "\0\n", "\n\0", "END", "-----", "\u{80}\0\0\0"].iter() { more.push(x.as_bytes().to_vec()); }
    for k in [4usize, 8].iter() {                 // lengths
        let mut l = (b.len() as u64).to_le_bytes_()[..*k].to_vec(); more.push(l.clone()); l.reverse(); more.push(l);
    }
    let (mut ok, mut panic, mut tried) = (0, 0, 0);
    let mut first = vec![];
    for m in more.iter() {
        for front in [false, true].iter() {
            let x = if *front { [&m[..], b].concat() } else { [b, &m[..]].concat() };
            let (bin, js) = (lenpre(x.len() as u64, &x), jarray(&x));
            for r in vec![guard(|| (c.from)(&x)), guard(|| bincode::deserialize::<T>(&bin).ok()), guard(|| serde_json::from_str::<T>(&js).ok())] {
                tried += 1;
                match r { R::Good(_) => ok += 1, R::Panic => panic += 1, R::Bad => continue }
                if first.is_empty() { first = vec![json!(m), json!(front)]; }
            }
        }
    }
    json!({"op": "ends", "len": b.len(), "tried": tried, "ok": ok, "panic": panic, "first": first})
}

fn wrapped<T: Serialize + DeserializeOwned>(op: &Value, b: &[u8]) -> Value {
    let w = op["wrap"].as_str().unwrap();
    let n = b.len() as u64;
    let els: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    let el = |e: &str| { let mut v = els.clone(); if v.is_empty() { v.push(e.to_string()); } else { let k = v.len() / 2; v[k] = e.to_string(); } format!("[{}]", v.join(",")) };
    let plain = jarray(b);
    let rs: Vec<R<T>> = if w.starts_with("bin") {
        let v = match w {
            "bin_more" => lenpre(n + 1, b),
            "bin_huge" => lenpre(1 << 62, b),
            "bin_max" => lenpre(u64::max_value(), b),
            "bin_neg" => lenpre(u64::max_value() - 31, b),
            "bin_cut" => { let mut v = lenpre(n, b); v.pop(); v },
            "bin_half" => vec![1, 0, 0, 0],
            _ => vec![],
        };
        // From a reader, bincode allocates whatever the length says; that is not for the code under test to prevent.
        let huge = ["bin_huge", "bin_max", "bin_neg"].contains(&w);
        let mut r = vec![guard(|| bincode::deserialize::<T>(&v).ok())];
        if !huge { r.push(guard(|| bincode::deserialize_from::<_, T>(Cursor::new(&v)).ok())); }
        r
    } else {
        let s = match w {
            "json_el256" => el("256"), "json_neg" => el("-1"), "json_float" => el("1.5"), "json_str_el" => el("\"1\""),
            "json_null_el" => el("null"), "json_nested" => el("[1]"), "json_huge_el" => el("340282366920938463463374607431768211456"),
            "json_bool_el" => el("true"), "json_obj" => "{\"a\":1}".to_string(), "json_objs" => format!("[{}]", plain),
            "json_trunc" => plain[..plain.len() - 1].to_string(), "json_tail" => format!("{}x", plain),
            "json_comma" => format!("{},]", &plain[..plain.len() - 1]),
            "json_null" => "null".into(), "json_true" => "true".into(), "json_num" => "17".into(), "json_text" => "\"some text\"".into(),
            _ => "".to_string(),
        };
        let v: Option<Value> = serde_json::from_str(&s).ok();
        vec![guard(|| serde_json::from_str::<T>(&s).ok()), guard(|| serde_json::from_reader::<_, T>(Cursor::new(s.as_bytes())).ok()),
             guard(|| v.and_then(|v| serde_json::from_value::<T>(v).ok()))]
    };
    json!({"op": "wrapped", "t": op["t"], "wrap": w, "res": rs.iter().map(|x| x.name()).collect::<Vec<_>>()})
}

fn proof<P: Serialize>(p: &P) -> Vec<B> { kinds::decode_proof(&bincode::serialize(p).unwrap()).unwrap().iter().map(|s| s.to_bytes()).collect() }
fn cb(c: &Commitment) -> B { pb(&RistrettoPoint::from(*c)) }
fn o_params(p: &SystemParameters) -> Vec<B> { vec![pb(&p.g), pb(&p.h)] }
fn o_pk(p: &amacs::PublicKey) -> Vec<B> { p.Xn.iter().map(pb).collect() }
fn o_sk(p: &amacs::SecretKey) -> Vec<B> { let mut v = vec![p.x0.to_bytes()]; v.extend(p.xn.iter().map(|x| x.to_bytes())); v }
fn o_kp(p: &amacs::Keypair) -> Vec<B> { let mut v = o_pk(&p.public); v.extend(o_sk(&p.secret)); v }
fn o_cred(c: &Credential) -> Vec<B> { let mut v = vec![pb(&c.mac.nonce), pb(&c.mac.mac)]; v.extend(c.attributes.iter().map(|x| x.to_bytes())); v }
fn o_egsk(k: &elgamal::SecretKey) -> Vec<B> { vec![Scalar::from(k.clone()).to_bytes()] }
fn o_egpk(k: &elgamal::PublicKey) -> Vec<B> { vec![pb(&RistrettoPoint::from(*k))] }
fn o_eg(k: &elgamal::Keypair) -> Vec<B> { let mut v = o_egsk(&k.secret); v.extend(o_egpk(&k.public)); v }
fn o_issuer(i: &Issuer) -> Vec<B> { let mut v = o_params(&i.system_parameters); v.extend(o_kp(&i.keypair)); v }
fn o_pres(c: &CredentialPresentation) -> Vec<B> {
    let mut v = vec![cb(&c.rerandomized_mac_commitment), pb(&c.rerandomized_nonce)];
    v.extend(c.attributes_revealed.iter().map(|x| x.to_bytes()));
    v.extend(c.attributes_blinded.iter().map(cb));
    v.extend(proof(&c.proof));
    v
}
fn o_spres(c: &SignalCredentialPresentation) -> Vec<B> {
    let mut v = vec![cb(&c.roster_entry_commitment.0)];
    v.extend(o_pres(&c.presentation));
    v.extend(proof(&c.roster_membership_proof));
    v
}
fn o_user(u: &User) -> Vec<B> {
    let mut v = o_params(&u.system_parameters);
    v.extend(o_pk(&u.issuer_parameters));
    if let Some(ref k) = u.key { v.extend(o_eg(k)); }
    if let Some(ref c) = u.credential { v.extend(o_cred(c)); }
    v
}

pub fn exec(op: &Value, rng: &mut ChaChaRng, prev: &mut Vec<u8>) -> Value {
    macro_rules! codec {
        ($t:ty, $obs:expr) => { codec!($t, $obs, |x, y| x == y) };
        ($t:ty, $obs:expr, $eq:expr) => {
            run::<$t>(op, Codec { from: |b| <$t>::from_bytes(b).ok(), to: |x| x.to_bytes(), eq: $eq, obs: $obs }, rng, prev)
        };
    }
    match op["t"].as_str().unwrap() {
        "Tag" => codec!(amacs::Tag, |x| vec![pb(&x.nonce), pb(&x.mac)]),
        "MacPublicKey" => codec!(amacs::PublicKey, o_pk),
        "MacSecretKey" => codec!(amacs::SecretKey, o_sk, |x, y| x.to_bytes() == y.to_bytes()),
        "MacKeypair" => codec!(amacs::Keypair, o_kp, |x, y| x.to_bytes() == y.to_bytes()),
        "Credential" => codec!(Credential, o_cred),
        "CredentialRequest" => codec!(CredentialRequest, |x| x.attributes_revealed.iter().map(|y| y.to_bytes()).collect()),
        "CredentialIssuance" => codec!(CredentialIssuance, |x| {
            let mut v = vec![cb(&x.secret_key_commitment)]; v.extend(o_cred(&x.credential)); v.extend(proof(&x.proof)); v }),
        "CredentialPresentation" => codec!(CredentialPresentation, o_pres),
        "VerifiedCredential" => codec!(VerifiedCredential, |x| o_pres(&x.0)),
        "ElgamalPublicKey" => codec!(elgamal::PublicKey, o_egpk),
        "ElgamalSecretKey" => codec!(elgamal::SecretKey, o_egsk),
        "ElgamalKeypair" => codec!(elgamal::Keypair, o_eg),
        "SystemParameters" => codec!(SystemParameters, o_params),
        "Commitment" => codec!(Commitment, |x| vec![cb(x)]),
        "Issuer" => codec!(Issuer, o_issuer, |x, y| x.to_bytes() == y.to_bytes()),
        "SignalIssuer" => codec!(SignalIssuer, |x| o_issuer(&x.issuer), |x, y| x.to_bytes() == y.to_bytes()),
        "User" => codec!(User, o_user),
        "SignalUser" => codec!(SignalUser, |x| { let mut v = vec![x.phone_number.0.to_bytes()]; v.extend(o_user(&x.user)); v }),
        "PhoneNumber" => codec!(PhoneNumber, |x| vec![x.0.to_bytes()]),
        "CommittedPhoneNumber" => codec!(CommittedPhoneNumber, |x| vec![cb(&x.0)]),
        "RosterEntryCommitment" => codec!(RosterEntryCommitment, |x| vec![cb(&x.commitment.0), arr(&x.opening.to_bytes())],
                                          |x, y| x.commitment == y.commitment && x.opening.to_bytes() == y.opening.to_bytes()),
        "SignalCredentialPresentation" => codec!(SignalCredentialPresentation, o_spres),
        "VerifiedSignalCredential" => codec!(VerifiedSignalCredential, |x| o_spres(&SignalCredentialPresentation::from_bytes(&x.to_bytes()).unwrap())),
        x => panic!("type {}", x),
    }
}

pub fn rng(seed: u64, n: u64) -> ChaChaRng {
    let mut s = [9u8; 32];
    for i in 0..8 { s[i] = (seed >> (8 * i)) as u8; s[8 + i] = (n >> (8 * i)) as u8; }
    ChaChaRng::from_seed(s)
}
