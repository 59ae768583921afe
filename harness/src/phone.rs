//! Phone numbers as strings, bytes and scalars (spec/Phone.tla).
use std::panic::{catch_unwind, AssertUnwindSafe};

use aeonflux::amacs;
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::scalar::Scalar;
use rand::ChaChaRng;
use serde_json::{json, Value};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

type B = [u8; 32];

fn out<T, F: FnOnce() -> Option<T>>(f: F, show: impl Fn(&T) -> Value) -> (Value, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Some(x)) => { let v = show(&x); (json!({"res": "ok", "v": v}), Some(x)) },
        Ok(None) => (json!({"res": "err", "v": []}), None),
        Err(_) => (json!({"res": "panic", "v": []}), None),
    }
}

pub struct World { params: SystemParameters, issuer: SignalIssuer }

impl World {
    pub fn new(rng: &mut ChaChaRng) -> World {
        let params = SystemParameters::hunt_and_peck(rng);
        World { params, issuer: SignalIssuer::create(params, rng) }
    }

    pub fn exec(&self, op: &Value, rng: &mut ChaChaRng) -> Value {
        let v: Vec<u32> = op["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let bytes: Vec<u8> = v.iter().map(|x| *x as u8).collect();
        let text = |f: fn(u32) -> u32| -> String { v.iter().map(|x| std::char::from_u32(f(*x)).unwrap()).collect() };
        let show = |s: &B| json!(s.to_vec());
        let (mut made, mut back) = (vec![], vec![]);
        let mut n = v.len();
        let mut opens = json!("-");
        let mut nums: Vec<PhoneNumber> = vec![];
        let name = op["op"].as_str().unwrap();
        let num = |f: &dyn Fn() -> Option<PhoneNumber>, made: &mut Vec<Value>, nums: &mut Vec<PhoneNumber>| {
            let (x, y) = out(f, |p: &PhoneNumber| json!(p.0.to_bytes().to_vec()));
            made.push(x);
            if let Some(p) = y { nums.push(p); }
        };
        if name == "str" || name == "number" {
            let s = if name == "str" { text(|x| x) } else { text(|x| x + 48) };
            n = s.len();
            num(&|| PhoneNumber::try_from_string(&s).ok(), &mut made, &mut nums);
        }
        if name == "bytes" || name == "number" {
            num(&|| PhoneNumber::try_from_bytes(&bytes).ok(), &mut made, &mut nums);
            let (p, i) = (self.params, &self.issuer);
            // Wherever a number is taken:
            made.push(out(|| i.issue(&bytes, rng).ok(), |x| show(&x.credential.attributes[0].to_bytes())).0);
            num(&|| SignalUser::new(p, i.get_issuer_parameters(), None, &bytes).ok().map(|u| u.phone_number), &mut made, &mut nums);
            // A roster entry does not show the number, except that it is the one to open it with.
            let (x, e) = out(|| RosterEntryCommitment::create(&bytes, &p, rng).ok(), |e| {
                let s = |b: &[u8]| { let mut t = [0u8; 32]; t.copy_from_slice(b); Scalar::from_bytes_mod_order(t) };
                let o = s(&e.opening.to_bytes());
                // the layout the specification wants, to be compared in the exponent
                let mut b = [0u8; 32];
                if bytes.len() <= 26 {
                    b[0] = 15; b[1] = 15;
                    b[2..2 + bytes.len()].copy_from_slice(&bytes);
                    b[2 + bytes.len()] = 15; b[3 + bytes.len()] = 15; b[4 + bytes.len()] = bytes.len() as u8;
                }
                let c = e.commitment.0.to_bytes();
                let m = Scalar::from_bytes_mod_order(b);
                json!(if (m * p.h + o * p.g).compress().to_bytes().to_vec() == c { b.to_vec() } else { vec![] })
            });
            made.push(x);
            let mut longer = RosterEntryCommitment::create(&[1], &p, rng).unwrap();
            if let Some(e) = e { longer = e; }
            opens = out(|| longer.open(&bytes, &p).ok(), |_| json!([])).0["res"].clone();
        }
        if name == "scalar" {
            num(&|| PhoneNumber::from_bytes(&bytes).ok(), &mut made, &mut nums);
        }
        for p in nums {
            let q = p.clone();
            let b = p.0.to_bytes();
            // Its bytes, its serialisation and its attribute are those of the scalar
            made.push(out(|| PhoneNumber::from_bytes(&p.to_bytes()).ok(), |x| json!(x.to_bytes())).0);
            made.push(out(|| Some(amacs::Message::from(p.clone()).0), |m| if m.len() == 1 { show(&m[0].to_bytes()) } else { json!([]) }).0);
            made.push(out(|| Some((0..32).map(|i| p[i]).collect::<Vec<u8>>()), |x| json!(x)).0);
            back.push(out(|| Some(String::from(q)), |s| json!(s.chars().map(|c| c as u32).collect::<Vec<u32>>())).0);
            let _ = b;
        }
        json!({"op": name, "v": v, "n": n, "made": made, "back": back, "opens": opens, "res": made.iter().chain(back.iter()).map(|x| x["res"].clone()).collect::<Vec<_>>()})
    }
}
