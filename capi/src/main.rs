//! Calls the C API, as a C program does, with every result retained.
//! Freed memory is overwritten and kept for a while; arguments are put, read-only, before a page that must not be touched.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr;
use std::sync::atomic::{AtomicBool, Ordering};

include!("../../api/src/common.rs");

pub const C: bool = true;
pub fn dec<T: Wire>(b: &[u8]) -> Option<T> { <T as Wire>::from(b) }
pub fn enc<T: Wire>(t: &T) -> Vec<u8> { t.to() }
pub fn canonical(b: &[u8]) -> Vec<u8> { b.to_vec() }

// ------------------------------------------------------------------------------------------------- memory
const HEAD: usize = 64;
const LIVE: u64 = 0x11fe_11fe_57a7_e001;
const DEAD: u64 = 0xdead_dead_57a7_e002;
const KEEP: usize = 1 << 14;

struct Quarantine { ring: UnsafeCell<[(usize, usize, usize); KEEP]>, at: UnsafeCell<usize> }
unsafe impl Sync for Quarantine {}
struct Poison;
static QUARANTINE: Quarantine = Quarantine { ring: UnsafeCell::new([(0, 0, 0); KEEP]), at: UnsafeCell::new(0) };

fn full(l: Layout) -> Layout { Layout::from_size_align(l.size() + HEAD, l.align().max(HEAD)).unwrap() }

static BUSY: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(full(l));
        if p.is_null() { return p; }
        *(p as *mut u64) = LIVE;
        *(p as *mut u64).offset(1) = l.size() as u64;
        let q = p.offset(HEAD as isize);
        ptr::write_bytes(q, 0xa5, l.size());
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let p = q.offset(-(HEAD as isize));
        *(p as *mut u64) = DEAD;
        ptr::write_bytes(q, 0xdd, l.size());
        if l.size() > 1 << 16 { System.dealloc(p, full(l)); return; }
        while BUSY.swap(true, Ordering::Acquire) {}
        let at = QUARANTINE.at.get();
        let slot = &mut (*QUARANTINE.ring.get())[*at];
        if slot.0 != 0 { System.dealloc(slot.0 as *mut u8, Layout::from_size_align_unchecked(slot.1, slot.2)); }
        *slot = (p as usize, full(l).size(), full(l).align());
        *at = (*at + 1) % KEEP;
        BUSY.store(false, Ordering::Release);
    }
}

#[global_allocator]
static ALLOC: Poison = Poison;

/// An argument, whose end is the end of a page, read-only.
struct Guarded { base: *mut c_void, total: usize, p: *const u8 }
impl Guarded {
    fn new(b: &[u8]) -> Guarded {
        unsafe {
            let page = 4096;
            let n = (b.len() + page - 1) / page * page;
            let n = if n == 0 { page } else { n };
            let base = libc::mmap(ptr::null_mut(), n + page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(base != libc::MAP_FAILED);
            let p = (base as *mut u8).offset((n - b.len()) as isize);
            ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            libc::mprotect(base, n, libc::PROT_READ);
            libc::mprotect((base as *mut u8).offset(n as isize) as *mut c_void, page, libc::PROT_NONE);
            Guarded { base, total: n + page, p }
        }
    }
}
impl Guarded {
    /// The bytes, followed by 2^32 zeros (which take no memory unless they are looked at)
    fn huge(b: &[u8]) -> Guarded {
        unsafe {
            let total = (1usize << 32) + b.len();
            let base = libc::mmap(ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(base != libc::MAP_FAILED);
            ptr::copy_nonoverlapping(b.as_ptr(), base as *mut u8, b.len());
            libc::mprotect(base, total, libc::PROT_READ);
            Guarded { base, total, p: base as *const u8 }
        }
    }
}
impl Drop for Guarded { fn drop(&mut self) { unsafe { libc::munmap(self.base, self.total); } } }

// ------------------------------------------------------------------------------------------------- the API
#[repr(C)]
struct CArg { p: *const u8, n: u64 }
#[repr(C)]
struct CResult { len: u64, ptr: *const u8 }
extern "C" {
    fn shim_call(f: *const c_char, a: *const CArg, out: *mut CResult) -> c_int;
    fn shim_length(k: *const c_char) -> u64;
}

#[derive(Clone, Copy)]
pub struct Buf { ptr: *const u8, len: usize }

fn read(h: &Buf) -> (Vec<u8>, bool) {
    let content = unsafe { std::slice::from_raw_parts(h.ptr, h.len) }.to_vec();
    let state = unsafe { ptr::read_unaligned(h.ptr.offset(-(HEAD as isize)) as *const u64) };
    (content, state != DEAD)
}

fn one_at_a_time() -> File {
    use std::os::unix::io::AsRawFd;
    let f = File::open(std::env::args().nth(2).unwrap()).unwrap();
    unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX); }
    f
}

fn call(f: &str, args: &[Arg], regs: &BTreeMap<String, Buf>) -> Ret<Buf> {
    let mut guards = vec![];
    let mut cargs = vec![];
    for a in args {
        match (&a.own, &a.bytes) {
            (Some(r), _) if regs.contains_key(r) => { let h = regs[r]; cargs.push(CArg { p: h.ptr, n: h.len as u64 }); },
            (_, Some(b)) if a.huge => { let g = Guarded::huge(b); cargs.push(CArg { p: g.p, n: g.total as u64 }); guards.push(g); },
            (_, Some(b)) => { let g = Guarded::new(b); cargs.push(CArg { p: g.p, n: b.len() as u64 }); guards.push(g); },
            (_, None) => cargs.push(CArg { p: ptr::null(), n: 32 }),
        }
    }
    let name = CString::new(f).unwrap();
    let mut out = CResult { len: 77, ptr: 77 as *const u8 };
    // one at a time, in case that the huge argument is copied
    let lock = if args.iter().any(|a| a.huge) { Some(one_at_a_time()) } else { None };
    assert!(unsafe { shim_call(name.as_ptr(), cargs.as_ptr(), &mut out) } == 1);
    drop(lock);
    if f == "roster_entry_commitment_open" {
        return match (out.ptr.is_null(), out.len) { (true, 0) => Ret::Err, (true, 1) => Ret::Yes, _ => Ret::Odd("neither 0 nor 1") };
    }
    match (out.ptr.is_null(), out.len) {
        (true, 0) => Ret::Err,
        (true, _) => Ret::Odd("null with a length"),
        (false, 0) => Ret::Odd("a pointer without a length"),
        (false, n) if n > 1 << 20 => Ret::Odd("an absurd length"),
        (false, n) => Ret::Ok(Buf { ptr: out.ptr, len: n as usize }),
    }
}

extern "C" {
    fn system_parameters_create();
    fn issuer_create();
    fn issuer_new();
    fn issuer_get_issuer_parameters();
    fn issuer_issue();
    fn issuer_verify();
    fn issuer_verify_roster_membership();
    fn user_obtain_finish();
    fn user_show();
    fn roster_entry_commitment_create();
    fn roster_entry_commitment_remove_opening();
    fn roster_entry_commitment_open();
}

fn main() {
    // so that the linker does not drop them
    let keep = [system_parameters_create as usize, issuer_create as usize, issuer_new as usize, issuer_get_issuer_parameters as usize, issuer_issue as usize, issuer_verify as usize, issuer_verify_roster_membership as usize, user_obtain_finish as usize, user_show as usize, roster_entry_commitment_create as usize, roster_entry_commitment_remove_opening as usize, roster_entry_commitment_open as usize];
    if keep.iter().any(|x| *x == 0) { std::process::exit(3); }
    let mut lens = vec![];
    for k in &["seed", "params", "issuer", "ipar", "keypair", "user", "issuance", "pres", "verified", "entry", "roster"] {
        let c = CString::new(*k).unwrap();
        lens.push(json!({"k": k, "len": unsafe { shim_length(c.as_ptr()) }}));
    }
    use credential::c::*;
    for (k, n) in &[("seed", LENGTH_SEED as u64), ("params", LENGTH_SYSTEM_PARAMETERS), ("issuer", LENGTH_ISSUER), ("ipar", LENGTH_ISSUER_PARAMETERS),
                    ("keypair", LENGTH_ISSUER_KEYPAIR), ("user", LENGTH_USER), ("issuance", LENGTH_CREDENTIAL_ISSUANCE),
                    ("pres", LENGTH_CREDENTIAL_PRESENTATION), ("verified", LENGTH_VERIFIED_CREDENTIAL)] {
        lens.push(json!({"k": k, "len": n}));
    }
    run(call, read, |h| read(h).0, json!(lens));
}
