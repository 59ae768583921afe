//! What is left of secrets in memory that is given back (spec/Erasure.tla).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

use aeonflux::amacs::{self, Rerandomization, SecretKey};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::user::User;
use rand::ChaChaRng;
use serde_json::{json, Value};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

type B = [u8; 32];
const MAX: usize = 512;

// ------------------------------------------------------------------------------------------------ the allocator
#[derive(Clone, Copy)]
struct Cell { secret: B, at: usize, state: u8 }   // at = 0: it is not known where
const UNSEEN: u8 = 0;
const ZERO: u8 = 1;      // was zeros when given back
const OTHER: u8 = 2;     // was something else
const LEFT: u8 = 3;      // was the secret, or part of it

struct Watch(UnsafeCell<([Cell; MAX], usize)>);
unsafe impl Sync for Watch {}
static ARMED: AtomicBool = AtomicBool::new(false);
static BUSY: AtomicBool = AtomicBool::new(false);
static WATCH: Watch = Watch(UnsafeCell::new(([Cell { secret: [0; 32], at: 0, state: UNSEEN }; MAX], 0)));

fn judge(c: &mut Cell, now: &[u8]) {
    let s = if now.iter().all(|x| *x == 0) { ZERO } else { OTHER };
    let s = if (0..4).any(|k| now[8 * k..8 * k + 8] == c.secret[8 * k..8 * k + 8]) { LEFT } else { s };
    if s > c.state { c.state = s; }
}

/// Memory that is given back, or was the place of a dropped value
unsafe fn given_back(p: *const u8, n: usize) {
    let w = &mut *WATCH.0.get();
    for c in w.0[..w.1].iter_mut() {
        if c.at >= p as usize && c.at + 32 <= p as usize + n {
            let mut now = [0u8; 32];
            for (i, x) in now.iter_mut().enumerate() { *x = std::ptr::read_volatile((c.at + i) as *const u8); }
            judge(c, &now);
        }
    }
}

pub struct Scanning;
unsafe impl GlobalAlloc for Scanning {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(SeqCst) {
            while BUSY.compare_and_swap(false, true, SeqCst) {}
            given_back(p, l.size());
            BUSY.store(false, SeqCst);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ARMED.load(SeqCst) { return System.realloc(p, l, n); }
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Drop something, and look at what is given back meanwhile
fn watch<F: FnOnce()>(cells: &[Cell], f: F) -> Vec<Value> {
    arm(cells);
    f();
    disarm()
}
fn arm(cells: &[Cell]) {
    let w = unsafe { &mut *WATCH.0.get() };
    w.0[..cells.len()].copy_from_slice(cells);
    w.1 = cells.len();
    ARMED.store(true, SeqCst);
}
fn disarm() -> Vec<Value> {
    ARMED.store(false, SeqCst);
    let w = unsafe { &mut *WATCH.0.get() };
    // what has not been given back is still there to be looked at
    for c in w.0[..w.1].iter_mut().filter(|c| c.state == UNSEEN && c.at != 0) {
        let now = bytes(c.at as *const u8, 32);
        judge(c, &now);
    }
    w.0[..w.1].iter().map(|c| json!(match c.state { UNSEEN => "unseen", ZERO => "zero", OTHER => "other", _ => "left" })).collect()
}

/// The memory of [p, p + n) is of a value that has been dropped in place
fn look_at(p: *const u8, n: usize) {
    while BUSY.compare_and_swap(false, true, SeqCst) {}
    unsafe { given_back(p, n) };
    BUSY.store(false, SeqCst);
}

// -------------------------------------------------------------------------------------------------- the secrets
/// Something that owns secrets
trait Secret: Send + 'static {
    /// The memory that it owns on the heap, as far as that is known
    fn heap(&self) -> Vec<(*const u8, usize)> { vec![] }
    fn copy(&self) -> Option<Self> where Self: Sized { None }
}
fn slice<T>(x: &[T]) -> (*const u8, usize) { (x.as_ptr() as *const u8, std::mem::size_of::<T>() * x.len()) }
impl Secret for SecretKey { fn heap(&self) -> Vec<(*const u8, usize)> { vec![slice(&self.xn)] } fn copy(&self) -> Option<Self> { Some(self.clone()) } }
impl Secret for amacs::Keypair { fn heap(&self) -> Vec<(*const u8, usize)> { self.secret.heap() } fn copy(&self) -> Option<Self> { Some(self.clone()) } }
impl Secret for Issuer { fn heap(&self) -> Vec<(*const u8, usize)> { self.keypair.heap() } }
impl Secret for SignalIssuer { fn heap(&self) -> Vec<(*const u8, usize)> { self.issuer.heap() } }
impl Secret for Nonces {
    fn heap(&self) -> Vec<(*const u8, usize)> { self.iter().map(|e| (e as *const Ephemeral as *const u8, std::mem::size_of::<Ephemeral>())).collect() }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
}
impl Secret for Ephemeral { fn copy(&self) -> Option<Self> { Some(self.clone()) } }
impl Secret for Rerandomization { fn copy(&self) -> Option<Self> { Some(self.clone()) } }
impl Secret for elgamal::SecretKey { fn copy(&self) -> Option<Self> { Some(self.clone()) } }
impl Secret for elgamal::Keypair { fn copy(&self) -> Option<Self> { Some(self.clone()) } }
impl Secret for User {}
impl Secret for SignalUser {}
impl Secret for RosterEntryCommitment {}

fn bytes(p: *const u8, n: usize) -> Vec<u8> { (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect() }
fn whole<T>(x: &T) -> (*const u8, usize) { (x as *const T as *const u8, std::mem::size_of::<T>()) }

/// Where the secrets are, as far as that can be found out
fn locate<T: Secret>(x: &T, secrets: &[B]) -> Vec<Cell> {
    let mut areas = x.heap();
    areas.push(whole(x));
    search(&areas, secrets)
}
fn search(areas: &[(*const u8, usize)], secrets: &[B]) -> Vec<Cell> {
    let mut used = vec![];
    secrets.iter().map(|s| {
        for (p, n) in areas {
            let b = bytes(*p, *n);
            for i in 0..(n + 1).saturating_sub(32) {
                let at = *p as usize + i;
                if b[i..i + 32] == s[..] && !used.contains(&at) { used.push(at); return Cell { secret: *s, at, state: UNSEEN } }
            }
        }
        Cell { secret: *s, at: 0, state: UNSEEN }
    }).collect()
}

struct Probe(*const u8, usize);
impl Drop for Probe { fn drop(&mut self) { if !self.0.is_null() { look_at(self.0, self.1) } } }

#[inline(never)]
fn scope<T: Secret>(x: T, secrets: &[B]) {
    let mut p = Probe(std::ptr::null(), 0);
    let y = x;
    let (a, n) = whole(&y);
    p.0 = a;
    p.1 = n;
    arm(&locate(&y, secrets));
    // (y is dropped, and then p, which looks at where it was)
}

/// A value which lives in a box of its own
struct Held<T: Secret> { v: Box<T>, secrets: Vec<B> }
trait Holder {
    fn copy(&self) -> Option<Box<dyn Holder>>;
    fn same(&self) -> Vec<Value>;
    /// Drop it; `more` makes other values to go along with it.
    fn drop(self: Box<Self>, way: &str) -> Vec<Value>;
}

impl<T: Secret> Held<T> {
    fn new(v: T, secrets: Vec<B>) -> Box<dyn Holder> { Box::new(Held { v: Box::new(v), secrets }) }
}

impl<T: Secret> Holder for Held<T> {
    fn copy(&self) -> Option<Box<dyn Holder>> { self.v.copy().map(|v| Held::new(v, self.secrets.clone())) }
    fn same(&self) -> Vec<Value> { locate(&*self.v, &self.secrets).iter().map(|c| json!(if c.at == 0 { "lost" } else { "kept" })).collect() }
    fn drop(self: Box<Self>, way: &str) -> Vec<Value> {
        let Held { v, secrets } = *self;
        // Whether it can be told where they are
        let find = |x: &T| locate(x, &secrets);
        let mut out = vec![];
        match way {
            "box" => { let c = find(&v); out = watch(&c, move || drop(v)); },
            "place" => {
                let c = find(&v);
                let p = Box::into_raw(v);
                out = watch(&c, || unsafe { std::ptr::drop_in_place(p); look_at(p as *const u8, std::mem::size_of::<T>()); });
                unsafe { std::alloc::dealloc(p as *mut u8, Layout::new::<T>()) };
            },
            "scope" => { scope(*v, &secrets); out = disarm(); },
            "unwind" => {
                let c = find(&v);
                out = watch(&c, move || { let _ = catch_unwind(AssertUnwindSafe(move || { let _v = v; if way.len() > 1 { std::panic::resume_unwind(Box::new(())) } })); });
            },
            "thread" => {
                let c = find(&v);
                out = watch(&c, move || { std::thread::spawn(move || drop(v)).join().unwrap(); });
            },
            "rc" => { let r = Rc::new(*v); let c = find(&r); let s = r.clone(); out = watch(&c, move || { drop(r); drop(s) }); },
            "arc" => { let r = Arc::new(*v); let c = find(&r); out = watch(&c, move || drop(r)); },
            "vec" => { let r = vec![*v]; let c = find(&r[0]); out = watch(&c, move || drop(r)); },
            "slice" => { let r = vec![*v].into_boxed_slice(); let c = find(&r[0]); out = watch(&c, move || drop(r)); },
            // (the iterator and the map move what they drop out of their memory first, so they are given boxes)
            "iter" => { let r = vec![v].into_iter(); let c = find(&r.as_slice()[0]); out = watch(&c, move || drop(r)); },
            "truncate" | "clear" | "drain" => {
                let mut r = vec![*v];
                let c = find(&r[0]);
                let (p, n) = whole(&r[0]);
                out = watch(&c, || {
                    if way == "truncate" { r.truncate(0) } else { r.clear() }
                    look_at(p, n);      // the vector keeps the memory, which is not in use any more
                });
            },
            "deque" => { let mut r = VecDeque::new(); r.push_front(*v); let c = find(&r[0]); out = watch(&c, move || drop(r)); },
            "map" => { let mut r = BTreeMap::new(); r.insert(1, v); let c = find(&r[&1]); out = watch(&c, move || drop(r)); },
            "option" => { let r = Box::new(Some(*v)); let c = find(r.as_ref().as_ref().unwrap()); out = watch(&c, move || drop(r)); },
            "none" => {
                let mut r = Box::new(Some(*v));
                let c = find(r.as_ref().as_ref().unwrap());
                let (p, n) = whole(r.as_ref().as_ref().unwrap());
                // (what is written there afterwards is whatever stands for nothing, so only the rest is of interest)
                let c: Vec<Cell> = c.iter().map(|x| if x.at >= p as usize && x.at < p as usize + n { Cell { at: 0, ..*x } } else { *x }).collect();
                out = watch(&c, || *r = None);
            },
            "tuple" => { let r = Box::new((1u8, *v, String::from("x"))); let c = find(&r.1); out = watch(&c, move || drop(r)); },
            "result" => { let r: Box<Result<T, String>> = Box::new(Ok(*v)); let c = find(r.as_ref().as_ref().unwrap()); out = watch(&c, move || drop(r)); },
            "closure" => {
                let heap = v.heap();
                let f: Box<dyn Fn() -> usize> = { let x = *v; Box::new(move || std::mem::size_of_val(&x)) };
                let mut areas = heap;
                areas.push((&*f as *const dyn Fn() -> usize as *const u8, std::mem::size_of_val(&*f)));
                let c = search(&areas, &secrets);
                out = watch(&c, move || drop(f));
            },
            w => { eprintln!("way {}", w); std::process::exit(3) },
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------------- commands
pub struct World { params: SystemParameters }

impl World {
    pub fn new(rng: &mut ChaChaRng) -> World { World { params: SystemParameters::hunt_and_peck(rng) } }

    fn make(&self, ty: &str, n: usize, from: &str, rng: &mut ChaChaRng) -> Box<dyn Holder> {
        let keys = |k: &SecretKey| -> Vec<B> { let mut v = vec![k.x0.to_bytes()]; v.extend(k.xn.iter().map(|x| x.to_bytes())); v };
        let one = |b: Vec<u8>| -> Vec<B> { let mut t = [0u8; 32]; t.copy_from_slice(&b); vec![t] };
        let bytes = from == "bytes";
        let bytes_of = |p: *const u8, n: usize| -> Vec<u8> { (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect() };
        let number = [1u8, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4];
        let ekey = elgamal::Keypair::generate(rng);
        match ty {
            "key" => {
                let k = SecretKey::new(n, rng);
                let k = if bytes { SecretKey::from_bytes(&k.to_bytes()).unwrap() } else { k };
                let s = keys(&k);
                Held::new(k, s)
            },
            "keypair" => {
                let secret = SecretKey::new(n, rng);
                let public = secret.get_public_key(&self.params.h);
                let k = amacs::Keypair { public, secret };
                let k = if bytes && n > 0 { amacs::Keypair::from_bytes(&k.to_bytes()).unwrap() } else { k };
                let s = keys(&k.secret);
                Held::new(k, s)
            },
            "issuer" => {
                let i = Issuer::create(self.params, rng);
                let i = if bytes { Issuer::from_bytes(&i.to_bytes()).unwrap() } else { i };
                let s = keys(&i.keypair.secret);
                Held::new(i, s)
            },
            "sissuer" => {
                let i = SignalIssuer::create(self.params, rng);
                let i = if bytes { SignalIssuer::from_bytes(&i.to_bytes()).unwrap() } else { i };
                let s = keys(&i.issuer.keypair.secret);
                Held::new(i, s)
            },
            "eph" => {
                let e = Ephemeral::new(rng);
                let e = if bytes { -e } else { e };
                let s = one(e.to_bytes());
                Held::new(e, s)
            },
            "nonces" => {
                let v = Nonces::new(rng, n);
                let s = v.iter().flat_map(|e| one(e.to_bytes())).collect();
                Held::new(v, s)
            },
            "rer" => {
                // (a scalar, which cannot be asked for)
                let r = Rerandomization::new(rng);
                let (p, n) = whole(&r);
                let s = one(bytes_of(p, n));
                Held::new(r, s)
            },
            "esk" => {
                let k = elgamal::SecretKey::generate(rng);
                let k = if bytes { elgamal::SecretKey::from_bytes(&k.to_bytes()).unwrap() } else { k };
                let s = one(k.to_bytes());
                Held::new(k, s)
            },
            "ekeypair" => {
                let k = if bytes { elgamal::Keypair::from_bytes(&ekey.to_bytes()).unwrap() } else { ekey };
                let s = one(k.secret.to_bytes());
                Held::new(k, s)
            },
            "user" => {
                let s = one(ekey.secret.to_bytes());
                let i = Issuer::create(self.params, rng);
                let u = User::new(self.params, i.get_issuer_parameters(), Some(ekey));
                let u = if bytes { User::from_bytes(&u.to_bytes()).unwrap() } else { u };
                Held::new(u, s)
            },
            "suser" => {
                let s = one(ekey.secret.to_bytes());
                let i = SignalIssuer::create(self.params, rng);
                let u = SignalUser::new(self.params, i.get_issuer_parameters(), Some(ekey), &number).unwrap();
                let u = if bytes { SignalUser::from_bytes(&u.to_bytes()).unwrap() } else { u };
                Held::new(u, s)
            },
            "roster" => {
                let r = RosterEntryCommitment::create(&number, &self.params, rng).unwrap();
                let r = if bytes { RosterEntryCommitment::from_bytes(&r.to_bytes()).unwrap() } else { r };
                let s = one(r.opening.to_bytes());
                Held::new(r, s)
            },
            x => { eprintln!("type {}", x); std::process::exit(3) },
        }
    }

    /// A scenario is a sequence of operations on values with names.
    pub fn run(&self, ops: &[Value], rng: &mut ChaChaRng, mut write: impl FnMut(Value)) {
        let mut vals: BTreeMap<String, Box<dyn Holder>> = BTreeMap::new();
        for op in ops {
            let mut e = op.clone();
            let (o, a) = (op["o"].as_str().unwrap_or("").to_string(), op["a"].as_str().unwrap_or("").to_string());
            e["cells"] = json!([]);
            e["res"] = json!("ok");
            match op["op"].as_str().unwrap() {
                "make" => {
                    let v = self.make(op["type"].as_str().unwrap(), op["n"].as_u64().unwrap() as usize, op["from"].as_str().unwrap(), rng);
                    e["cells"] = json!(v.same());
                    vals.insert(o, v);
                },
                "clone" => {
                    let v = vals[&a].copy().expect("no clone");
                    e["cells"] = json!(v.same());
                    vals.insert(o, v);
                },
                "look" => e["cells"] = json!(vals[&a].same()),
                "drop" => {
                    let v = vals.remove(&a).unwrap();
                    let way = op["way"].as_str().unwrap().to_string();
                    match catch_unwind(AssertUnwindSafe(|| v.drop(&way))) {
                        Ok(c) => e["cells"] = json!(c),
                        Err(_) => { ARMED.store(false, SeqCst); e["res"] = json!("panic") },
                    }
                },
                x => { eprintln!("operation {}", x); std::process::exit(3) },
            }
            write(e);
        }
        std::mem::forget(vals);
    }
}
