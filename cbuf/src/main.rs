//! Exports bytes to C, and keeps an eye on the allocator meanwhile (spec/Buffers.tla).
use std::collections::{BTreeMap, VecDeque};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::raw::{c_char, c_void};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::traits::Identity;
use serde_json::{json, Value};

extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(m: usize, n: usize) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn malloc_usable_size(p: *mut c_void) -> usize;
    fn free(p: *mut c_void);
}
#[allow(unused_imports)]
use buildtest as _b;
extern "C" { fn do_things_with_maths() -> *mut c_char; }

// What C's allocator was asked for while something was exported
static WATCHED: AtomicBool = AtomicBool::new(false);
static FAIL: AtomicBool = AtomicBool::new(false);
const MARGIN: usize = 64;
const CANARY: u8 = 0xa5;
const MANY: usize = 256;
struct Table(UnsafeCell<([(usize, usize); MANY], usize)>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new(([(0, 0); MANY], 0)));

/// Whoever asks for memory meanwhile gets it with a margin after it, all of which is marked.
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    if !WATCHED.load(SeqCst) { return __libc_malloc(n); }
    if FAIL.load(SeqCst) { return std::ptr::null_mut(); }
    let p = __libc_malloc(n + MARGIN) as *mut u8;
    for i in 0..n + MARGIN { p.add(i).write_volatile(CANARY); }
    let t = &mut *TABLE.0.get();
    if t.1 < MANY { t.0[t.1] = (p as usize, n); t.1 += 1; }
    p as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn calloc(m: usize, n: usize) -> *mut c_void {
    if !WATCHED.load(SeqCst) { return __libc_calloc(m, n); }
    let p = malloc(m * n);
    if !p.is_null() { for i in 0..m * n { (p as *mut u8).add(i).write_volatile(0); } }
    p
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    if !WATCHED.load(SeqCst) || p.is_null() { return if p.is_null() { malloc(n) } else { __libc_realloc(p, n) }; }
    let q = malloc(n);
    if !q.is_null() {
        std::ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, n.min(malloc_usable_size(p)));
        free(p);
    }
    q
}
/// The size of what was last given to somebody at this place
fn asked(p: usize) -> Option<usize> {
    let t = unsafe { &*TABLE.0.get() };
    t.0[..t.1].iter().rev().find(|x| x.0 == p).map(|x| x.1)
}

/// An exported buffer: how much of it was asked for, and how much of that matters
struct Buffer { p: *mut u8, size: usize, n: usize }
impl Buffer {
    fn bytes(&self) -> Vec<u8> { (0..self.n).map(|i| unsafe { self.p.add(i).read_volatile() }).collect() }
    fn margin(&self) -> bool { (self.size..self.size + MARGIN).all(|i| unsafe { self.p.add(i).read_volatile() } == CANARY) }
}

fn main() {
    // cbuf COMMAND STATEMENTS SCENARIOS TRACE SEED
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = BufWriter::new(File::create(&args[4]).expect("trace"));
    let mut kept: VecDeque<(Buffer, Vec<u8>)> = VecDeque::new();
    for (n, line) in BufReader::new(File::open(&args[3]).expect("scenarios")).lines().enumerate() {
        let sc: Value = serde_json::from_str(&line.expect("line")).expect("scenario");
        writeln!(out, "{}", json!({"op": "reset", "sc": n})).unwrap();
        out.flush().unwrap();
        let mut src: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut bufs: BTreeMap<String, Buffer> = BTreeMap::new();
        let mut points: Vec<Vec<u8>> = vec![];
        for op in sc["ops"].as_array().expect("ops") {
            let mut e = op.clone();
            let text = |k: &str| op[k].as_str().unwrap_or("").to_string();
            let num = |k: &str| op[k].as_u64().unwrap_or(0) as usize;
            let list = |k: &str| -> Vec<u8> { op[k].as_array().map_or(vec![], |x| x.iter().map(|b| b.as_u64().unwrap() as u8).collect()) };
            let (o, a) = (text("o"), text("a"));
            e["res"] = json!("ok");
            let name = text("op");
            match &name[..] {
                "source" => { src.insert(o, list("v")); },
                // (a long one)
                "pattern" => { let s = num("s"); src.insert(o, (0..num("n")).map(|i| ((i * (2 * s + 1) + i / 251) % 256) as u8).collect()); },
                "overwrite" => { let x = src.get_mut(&a).unwrap(); for b in x.iter_mut() { *b = b.wrapping_add(num("s") as u8); } },
                "discard" => { src.remove(&a); },
                "free" => unsafe { free(bufs.remove(&a).unwrap().p as *mut c_void) },
                "export" | "maths" | "mathslib" => {
                    // Sources are pieces of our own, or exported buffers.
                    let piece: Vec<u8>;
                    let s: &[u8] = if name != "export" { &[] }
                        else if let Some(x) = src.get(&a) { &x[num("from")..num("from") + num("len")] }
                        else { let b = &bufs[&a]; unsafe { std::slice::from_raw_parts(b.p.add(num("from")), num("len")) } };
                    piece = s.to_vec();
                    FAIL.store(op["fail"].as_bool().unwrap_or(false), SeqCst);
                    // (whatever the thread's generator needs is there before it fails)
                    if name == "maths" { let _ = maths::do_things_with_maths(); }
                    let mut point: Option<Vec<u8>> = None;
                    unsafe { (*TABLE.0.get()).1 = 0 };
                    WATCHED.store(true, SeqCst);
                    let r = catch_unwind(AssertUnwindSafe(|| match &name[..] {
                        "export" => allocator::allocate_buffer_for_bytes(s),
                        "maths" => unsafe { do_things_with_maths() },
                        _ => { point = Some(maths::do_things_with_maths().to_bytes().to_vec()); std::ptr::null_mut() },
                    }));
                    WATCHED.store(false, SeqCst);
                    FAIL.store(false, SeqCst);
                    match r {
                        Err(_) => { e["res"] = json!("panic"); },
                        Ok(p) => {
                            if name == "mathslib" { e["res"] = json!("point"); }
                            else if p.is_null() { e["res"] = json!("null"); }
                            else if let Some(size) = asked(p as usize) {
                                let n = if name == "export" { piece.len() + 1 } else { 33 };
                                e["size"] = json!(size);
                                let b = Buffer { p: p as *mut u8, size, n: n.min(size) };
                                let v = b.bytes();
                                let want = if name == "export" { piece.clone() } else { let t = v[..v.len().min(32)].to_vec(); point = Some(t.clone()); t };
                                e["copied"] = json!(v.len() == want.len() + 1 && v[..want.len()] == want[..]);
                                e["end"] = json!(v.last().map_or(-1, |x| *x as i32));
                                e["margin"] = json!(b.margin());
                                bufs.insert(o, b);
                            }
                            else { e["res"] = json!("elsewhere"); }
                        },
                    }
                    if let Some(t) = point {
                        let mut x = [0u8; 32];
                        let ok = t.len() == 32 && { x.copy_from_slice(&t); CompressedRistretto(x).decompress().map_or(false, |p| p != RistrettoPoint::identity()) };
                        e["valid"] = json!(ok);
                        e["fresh"] = json!(!points.contains(&t));
                        points.push(t);
                    }
                },
                x => { eprintln!("operation {}", x); std::process::exit(3) },
            }
            // all that has been exported and not been given back
            let sum = |v: &[u8]| -> u32 { v.iter().fold(7u32, |x, b| (x * 131 + *b as u32) % 1000003) };
            e["heap"] = json!(bufs.iter().map(|(r, b)| { let v = b.bytes(); json!({"r": r, "n": b.n, "sum": sum(&v), "margin": b.margin(), "v": if b.n <= 400 { v } else { vec![] }}) }).collect::<Vec<_>>());
            writeln!(out, "{}", e).unwrap();
            out.flush().unwrap();
        }
        // Nothing that was ever exported, and not given back, has changed, whatever was exported since.
        kept.extend(bufs.into_iter().map(|(_, b)| { let v = b.bytes(); (b, v) }));
        while kept.len() > 1 << 12 { let b = kept.pop_front().unwrap().0; unsafe { free(b.p as *mut c_void) }; }
        let changed = kept.iter().filter(|x| x.0.bytes() != x.1 || !x.0.margin()).count();
        let mut places: Vec<usize> = kept.iter().map(|x| x.0.p as usize).collect();
        places.sort();
        places.dedup();
        writeln!(out, "{}", json!({"op": "past", "kept": kept.len(), "changed": changed, "shared": kept.len() - places.len()})).unwrap();
        out.flush().unwrap();
    }
}
