// Sequences of calls of an API (spec/Api.tla), each of which is also made of the library itself. This file is included
// by the crates capi and jsapi, which define `call` (the API), `dec`, `enc` (how values are encoded), `read` and C.
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use rand::{ChaChaRng, RngCore, SeedableRng};
use serde_json::{json, Value};

use signal_credential::amacs::Keypair;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::{IssuerParameters, SignalIssuer};
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::{CommittedPhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

pub trait Wire: Sized + serde::Serialize + serde::de::DeserializeOwned {
    fn from(b: &[u8]) -> Option<Self>;
    fn to(&self) -> Vec<u8>;
}
macro_rules! wire { ($($t:ty),*) => { $(impl Wire for $t {
    fn from(b: &[u8]) -> Option<Self> { <$t>::from_bytes(b).ok() }
    fn to(&self) -> Vec<u8> { self.to_bytes().to_vec() }
})* } }
wire!(Keypair, SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential, IssuerParameters,
      SignalIssuer, SystemParameters, CommittedPhoneNumber, RosterEntryCommitment, SignalUser);

/// An argument: the bytes (or the JSON) that are passed; and whether they are those of a result that is retained.
pub struct Arg { pub bytes: Option<Vec<u8>>, pub own: Option<String>, pub huge: bool }
/// What a call returns
pub enum Ret<H> { Ok(H), Yes, Err, Odd(&'static str) }

const SIG: &[(&str, &[&str])] = &[
    ("system_parameters_create", &["seed"]), ("issuer_create", &["params", "seed"]), ("issuer_new", &["params", "keypair"]),
    ("issuer_get_issuer_parameters", &["issuer"]), ("issuer_issue", &["issuer", "number", "seed"]),
    ("issuer_verify", &["issuer", "pres"]), ("issuer_verify_roster_membership", &["issuer", "verified"]),
    ("user_obtain_finish", &["number", "params", "ipar", "issuance"]), ("user_show", &["user", "entry", "seed"]),
    ("roster_entry_commitment_create", &["number", "params", "seed"]), ("roster_entry_commitment_remove_opening", &["entry"]),
    ("roster_entry_commitment_open", &["entry", "number", "params"])];

fn number(n: &str) -> Vec<u8> {
    match n {
        "n1" => vec![0, 0, 1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4],
        "n2" => vec![0, 0, 1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4, 0],
        "n3" => vec![0],
        "max" => (0..26).map(|i| (i % 10) as u8).collect(),
        _ => vec![7; 27],
    }
}

/// What the library itself makes of the same arguments: Some(encoding), or None if it refuses them
pub fn lib(f: &str, a: &[Option<Vec<u8>>]) -> Option<Vec<u8>> {
    fn rng(x: &Option<Vec<u8>>) -> Option<ChaChaRng> {
        let x = x.as_ref()?;
        if x.len() != 32 { return None; }
        let mut s = [0u8; 32];
        s.copy_from_slice(x);
        Some(ChaChaRng::from_seed(s))
    }
    fn d<T: Wire>(x: &Option<Vec<u8>>) -> Option<T> { dec(x.as_ref()?) }
    fn n(x: &Option<Vec<u8>>) -> Option<&[u8]> { let x = x.as_ref()?; if C && x.is_empty() { None } else { Some(x) } }
    match f {
        "system_parameters_create" => { let mut r = rng(&a[0])?; Some(enc(&SystemParameters::hunt_and_peck(&mut r))) },
        "issuer_create" => {
            let (p, mut r) = (d::<SystemParameters>(&a[0])?, rng(&a[1])?);
            Some(enc(&SignalIssuer::create(p, &mut r).issuer.keypair))
        },
        "issuer_new" => Some(enc(&SignalIssuer::new(d::<SystemParameters>(&a[0])?, d::<Keypair>(&a[1])?))),
        "issuer_get_issuer_parameters" => Some(enc(&d::<SignalIssuer>(&a[0])?.get_issuer_parameters())),
        "issuer_issue" => {
            let (i, mut r) = (d::<SignalIssuer>(&a[0])?, rng(&a[2])?);
            i.issue(n(&a[1])?, &mut r).ok().map(|x| enc(&x))
        },
        "issuer_verify" => d::<SignalIssuer>(&a[0])?.verify(d::<SignalCredentialPresentation>(&a[1])?).ok().map(|x| enc(&x)),
        "issuer_verify_roster_membership" =>
            d::<SignalIssuer>(&a[0])?.verify_roster_membership(&d::<VerifiedSignalCredential>(&a[1])?).ok().map(|x| enc(&x)),
        "user_obtain_finish" => {
            let (p, x, i) = (d::<SystemParameters>(&a[1])?, d::<IssuerParameters>(&a[2])?, d::<SignalCredentialIssuance>(&a[3])?);
            let mut u = SignalUser::new(p, x, None, n(&a[0])?).ok()?;
            u.obtain_finish(Some(&i)).ok()?;
            Some(enc(&u))
        },
        "user_show" => {
            let (u, e, mut r) = (d::<SignalUser>(&a[0])?, d::<RosterEntryCommitment>(&a[1])?, rng(&a[2])?);
            u.show(&mut r, &e).ok().map(|x| enc(&x))
        },
        "roster_entry_commitment_create" => {
            let (p, mut r) = (d::<SystemParameters>(&a[1])?, rng(&a[2])?);
            RosterEntryCommitment::create(n(&a[0])?, &p, &mut r).ok().map(|x| enc(&x))
        },
        "roster_entry_commitment_remove_opening" => Some(enc(&d::<RosterEntryCommitment>(&a[0])?.commitment)),
        "roster_entry_commitment_open" => {
            let (e, p) = (d::<RosterEntryCommitment>(&a[0])?, d::<SystemParameters>(&a[2])?);
            e.open(n(&a[1])?, &p).ok().map(|_| vec![])
        },
        x => panic!("function {}", x),
    }
}

struct World<H> {
    regs: BTreeMap<String, H>,
    seeds: HashMap<String, Vec<u8>>,
    ids: HashMap<Vec<u8>, usize>,
    /// Every result, also those whose name another one has got since
    all: Vec<(H, Vec<u8>, String)>,
}

fn run<H: Clone + 'static, Fc: Fn(&str, &[Arg], &BTreeMap<String, H>) -> Ret<H> + 'static, Fr: Fn(&H) -> (Vec<u8>, bool) + 'static, Fp: Fn(&H) -> Vec<u8> + 'static>(call: Fc, read: Fr, pass: Fp, lens: Value) {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[5].parse().expect("seed");
    let threads = args.get(6).map_or(false, |m| m != "plain");
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = BufWriter::new(File::create(&args[4]).expect("trace"));
    let mut first = true;
    // What was returned in earlier scenarios: where, what it was, and by which call
    let mut kept: VecDeque<(H, Vec<u8>, String)> = VecDeque::new();
    for (k, line) in BufReader::new(File::open(&args[3]).expect("scenarios")).lines().enumerate() {
        let sc: Value = serde_json::from_str(&line.expect("line")).expect("scenario");
        let mut s = [5u8; 32];
        for i in 0..8 { s[i] = (seed >> (8 * i)) as u8; s[8 + i] = ((k as u64) >> (8 * i)) as u8; }
        let mut rng = ChaChaRng::from_seed(s);
        writeln!(out, "{}", json!({"op": "reset", "sc": k})).unwrap();
        if first { writeln!(out, "{}", json!({"op": "lengths", "lens": lens})).unwrap(); first = false; }
        out.flush().unwrap();
        let mut w = World { regs: BTreeMap::new(), seeds: HashMap::new(), ids: HashMap::new(), all: vec![] };
        for op in sc["ops"].as_array().expect("ops") {
            if op["op"] == "lengths" { writeln!(out, "{}", json!({"op": "lengths", "lens": lens})).unwrap(); continue; }
            let e = if threads { // every call in a thread of its own, while this one waits
                let at = (&mut w as *mut World<H> as usize, op as *const Value as usize, &mut rng as *mut ChaChaRng as usize,
                          &call as *const Fc as usize, &read as *const Fr as usize, &pass as *const Fp as usize);
                std::thread::spawn(move || unsafe {
                    one(&mut *(at.0 as *mut World<H>), &*(at.1 as *const Value), &mut *(at.2 as *mut ChaChaRng),
                        &*(at.3 as *const Fc), &*(at.4 as *const Fr), &*(at.5 as *const Fp))
                }).join().expect("thread")
            } else { one(&mut w, op, &mut rng, &call, &read, &pass) };
            writeln!(out, "{}", e).unwrap();
            out.flush().unwrap();
            if e["res"] == "panic" { break; }
        }
        // Nothing that was ever returned has changed, or has been freed, whatever was called since.
        if C {
            kept.extend(w.all.drain(..));
            while kept.len() > KEPT { kept.pop_front(); }
            let changed: Vec<&String> = kept.iter().filter(|x| read(&x.0) != (x.1.clone(), true)).map(|x| &x.2).collect();
            writeln!(out, "{}", json!({"op": "past", "kept": kept.len(), "changed": changed.iter().take(5).collect::<Vec<_>>()})).unwrap();
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
}
const KEPT: usize = 1 << 13;

fn one<H: Clone, Fc: Fn(&str, &[Arg], &BTreeMap<String, H>) -> Ret<H>, Fr: Fn(&H) -> (Vec<u8>, bool), Fp: Fn(&H) -> Vec<u8>>(
    w: &mut World<H>, op: &Value, rng: &mut ChaChaRng, call: &Fc, read: &Fr, pass: &Fp) -> Value
{
    let f = op["f"].as_str().unwrap();
    let sig = SIG.iter().find(|x| x.0 == f).expect("function").1;
    let mut args = vec![];
    for (i, kind) in sig.iter().enumerate() {
        let (a, m) = (op["a"][i].as_str().unwrap(), op["m"][i].as_str().unwrap());
        let mut own = None;
        let mut b: Option<Vec<u8>> = match *kind {
            "seed" => {
                if !w.seeds.contains_key(a) { let mut t = vec![0u8; 32]; rng.fill_bytes(&mut t); w.seeds.insert(a.into(), t); }
                Some(w.seeds[a].clone())
            },
            "number" => Some(number(a)),
            _ => { if m == "own" { own = Some(a.to_string()); } w.regs.get(a).map(|h| pass(h)) },
        };
        if *kind == "seed" || *kind == "number" || C {
            if let Some(ref mut v) = b { spoil(v, m, rng); }
        } else {
            if let Some(v) = b.take() { b = Some(spoil_json(v, m, rng)); }
        }
        if m == "null" { b = None; }
        args.push(Arg { bytes: b, own, huge: m == "huge" });
    }
    let plain: Vec<Option<Vec<u8>>> = args.iter().zip(sig).map(|(x, k)| match x.bytes {
        Some(ref v) if x.huge => { let mut v = v.clone(); v.resize(v.len() + 65536, 0); Some(v) },
        Some(ref v) if C && *k != "seed" && v.is_empty() => None,
        ref v => v.clone(),
    }).collect();
    let l1 = catch_unwind(AssertUnwindSafe(|| lib(f, &plain)));
    let l2 = catch_unwind(AssertUnwindSafe(|| lib(f, &plain)));
    let before: Vec<Vec<u8>> = w.regs.values().map(|h| read(h).0).collect();
    let r = catch_unwind(AssertUnwindSafe(|| call(f, &args, &w.regs)));
    let after: Vec<Vec<u8>> = w.regs.values().map(|h| read(h).0).collect();
    let (mut len, mut id, mut same) = (0, 0, true);
    let mut why = "";
    let res = match r {
        Err(_) => "panic",
        Ok(Ret::Odd(x)) => { why = x; "odd" },
        Ok(Ret::Err) => "err",
        Ok(Ret::Yes) => "ok",
        Ok(Ret::Ok(h)) => {
            let (content, _) = read(&h);
            len = content.len();
            // the same as the library's, wherever that is the same when asked twice
            if let (Ok(Some(x)), Ok(Some(y))) = (&l1, &l2) {
                let (x, y) = (canonical(x), canonical(y));
                same = x.len() == content.len() && x.chunks(8).zip(y.chunks(8)).zip(content.chunks(8)).all(|((a, b), z)| a != b || a == z);
            }
            let n = w.ids.len() + 1;
            if C { w.all.push((h.clone(), content.clone(), f.to_string())); }
            id = *w.ids.entry(content).or_insert(n);
            w.regs.insert(op["o"].as_str().unwrap().to_string(), h);
            "ok"
        },
    };
    let mut heap = vec![];
    for (r, h) in &w.regs {
        let (content, live) = read(h);
        heap.push(json!({"r": r, "id": w.ids.get(&content).cloned().unwrap_or(0), "live": live}));
    }
    json!({"op": "call", "f": f, "a": op["a"], "m": op["m"], "o": op["o"], "res": res, "why": why, "len": len, "id": id, "same": same,
           "lib": match l1 { Ok(Some(_)) => "ok", Ok(None) => "err", Err(_) => "panic" }, "inputs": before == after, "heap": heap})
}

fn spoil(v: &mut Vec<u8>, m: &str, rng: &mut ChaChaRng) {
    let n = v.len();
    match m {
        "zero" => v.clear(),
        "cut" => { v.pop(); },
        "ext" => { let x = rng.next_u32() as u8; v.push(if x & 1 == 0 { 0 } else { x }) },
        "ext8" => v.resize(n + 256, 0),
        "ext16" => v.resize(n + 65536, 0),
        "flip" => if n > 0 { let i = rng.next_u32() as usize % (8 * n); v[i / 8] ^= 1 << (i % 8) },
        "nc" => for i in 0..n.min(32) { v[i] = 0xff },
        "half" => v.truncate(n / 2),
        _ => (),
    }
}

fn spoil_json(v: Vec<u8>, m: &str, rng: &mut ChaChaRng) -> Vec<u8> {
    let s = |x: &[u8]| x.to_vec();
    match m {
        "zero" => return s(b"0"),
        "text" => return serde_json::to_vec(&Value::String(String::from_utf8_lossy(&v).into_owned())).unwrap(),
        "nested" => return serde_json::to_vec(&json!([serde_json::from_slice::<Value>(&v).unwrap_or(Value::Null)])).unwrap(),
        _ => (),
    }
    let mut b: Vec<u8> = match serde_json::from_slice(&v) { Ok(b) => b, Err(_) => return v };
    if m == "float" {
        let mut x: Vec<Value> = b.iter().map(|y| json!(y)).collect();
        let i = rng.next_u32() as usize % x.len();
        x[i] = json!(1.5);
        return serde_json::to_vec(&x).unwrap();
    }
    spoil(&mut b, m, rng);
    serde_json::to_vec(&b).unwrap()
}
