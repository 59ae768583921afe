#![allow(non_snake_case)]
#![feature(try_trait)]
mod bulk;
mod erase;
mod kinds;
mod machine;
mod params;
mod phone;
mod wire;

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[global_allocator]
static ALLOC: erase::Scanning = erase::Scanning;

fn mode(args: &[String]) -> &str { args.get(6).map_or("plain", |x| &x[..]) }

type Runner = Box<FnMut(usize, &Vec<Value>, &mut FnMut(Value))>;

/// Run scenarios one after another; or, in the mode "parallel", several at the same time, so that every event of a
/// scenario happens while others happen elsewhere. Each is recorded as a whole, and is judged by itself.
fn scenarios<F: Fn() -> Runner + Send + Sync + 'static>(args: &[String], make: F) {
    let all: Arc<Vec<Value>> = Arc::new(BufReader::new(File::open(&args[3]).expect("scenarios")).lines()
        .map(|l| serde_json::from_str(&l.expect("line")).expect("scenario")).collect());
    let out = Arc::new(Mutex::new(BufWriter::new(File::create(&args[4]).expect("trace"))));
    if mode(args) != "parallel" {
        let mut run = make();
        let mut out = out.lock().unwrap();
        for (n, sc) in all.iter().enumerate() {
            writeln!(out, "{}", json!({"op": "reset", "sc": n})).unwrap();
            out.flush().unwrap();
            run(n, sc["ops"].as_array().expect("ops"), &mut |e| { writeln!(out, "{}", e).unwrap(); out.flush().unwrap(); });
        }
        return;
    }
    let (next, make) = (Arc::new(AtomicUsize::new(0)), Arc::new(make));
    let threads: Vec<_> = (0..4).map(|_| {
        let (all, out, next, make) = (all.clone(), out.clone(), next.clone(), make.clone());
        std::thread::spawn(move || {
            let mut run = make();
            loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= all.len() { return; }
                let mut events = vec![json!({"op": "reset", "sc": n})];
                run(n, all[n]["ops"].as_array().expect("ops"), &mut |e| events.push(e));
                let mut out = out.lock().unwrap();
                for e in events { writeln!(out, "{}", e).unwrap(); }
                out.flush().unwrap();
            }
        })
    }).collect();
    for t in threads { t.join().expect("thread"); }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 { eprintln!("usage: harness COMMAND ..."); std::process::exit(3); }
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        // machine STATEMENTS SCENARIOS TRACE SEED [MODE]: one scenario (a JSON object with ops) per line
        "machine" => {
            let stmts: Value = serde_json::from_reader(File::open(&args[2]).expect("statements")).expect("statements");
            let seed: u64 = args[5].parse().expect("seed");
            let threads = mode(&args) == "threads";
            scenarios(&args, move || {
                let mut m = Some(machine::Machine::new(kinds::stmts(&stmts)));
                Box::new(move |n, ops: &Vec<Value>, emit: &mut FnMut(Value)| {
                    m.as_mut().unwrap().reset(seed, n as u64);
                    for op in ops {
                        let e = if threads { // every operation in a thread of its own
                            let (mut x, op) = (m.take().unwrap(), op.clone());
                            let (x, e) = std::thread::spawn(move || { let e = x.exec(&op); (x, e) }).join().expect("thread");
                            m = Some(x);
                            e
                        } else { m.as_mut().unwrap().exec(op) };
                        let end = e["res"] == "panic" || e["res"] == "noreg";
                        emit(e);
                        if end { break; }
                    }
                })
            });
        },
        // The same, for commands whose operations are independent of one another
        cmd if cmd == "wire" || cmd == "phone" => {
            let seed: u64 = args[5].parse().expect("seed");
            let wire = cmd == "wire";
            let world = Arc::new(phone::World::new(&mut wire::rng(seed, 1 << 40)));
            scenarios(&args, move || {
                let world = world.clone();
                Box::new(move |n, ops: &Vec<Value>, emit: &mut FnMut(Value)| {
                    let (mut rng, mut prev) = (wire::rng(seed, n as u64), vec![]);
                    for op in ops { emit(if wire { wire::exec(op, &mut rng, &mut prev) } else { world.exec(op, &mut rng) }); }
                })
            });
        },
        "bulk" => {
            let seed: u64 = args[5].parse().expect("seed");
            let stmts: Value = serde_json::from_reader(File::open(&args[2]).expect("statements")).expect("statements");
            scenarios(&args, move || {
                let stmts = kinds::stmts(&stmts);
                Box::new(move |n, ops: &Vec<Value>, emit: &mut FnMut(Value)| {
                    let (mut rng, mut bulk) = (wire::rng(seed, n as u64), bulk::Bulk::new());
                    for op in ops { emit(bulk.exec(op, &stmts, &mut rng)); }
                })
            });
        },
        // One proof, for the operation pfx of the machine
        "proof" => std::io::stdout().write_all(&kinds::answer(&args[2])).unwrap(),
        // Sequences of operations on values that own secrets
        "erase" => {
            let seed: u64 = args[5].parse().expect("seed");
            let mut out = BufWriter::new(File::create(&args[4]).expect("trace"));
            let world = erase::World::new(&mut wire::rng(seed, 1 << 40));
            for (n, line) in BufReader::new(File::open(&args[3]).expect("scenarios")).lines().enumerate() {
                let sc: Value = serde_json::from_str(&line.expect("line")).expect("scenario");
                writeln!(out, "{}", json!({"op": "reset", "sc": n})).unwrap();
                out.flush().unwrap();
                world.run(sc["ops"].as_array().expect("ops"), &mut wire::rng(seed, n as u64), |e| { writeln!(out, "{}", e).unwrap(); out.flush().unwrap(); });
            }
        },
        // Sequences of operations on random number generators
        "params" => {
            let mut out = BufWriter::new(File::create(&args[4]).expect("trace"));
            for (n, line) in BufReader::new(File::open(&args[3]).expect("scenarios")).lines().enumerate() {
                let sc: Value = serde_json::from_str(&line.expect("line")).expect("scenario");
                writeln!(out, "{}", json!({"op": "reset", "sc": n})).unwrap();
                out.flush().unwrap();
                params::run(sc["ops"].as_array().expect("ops"), |e| { writeln!(out, "{}", e).unwrap(); out.flush().unwrap(); });
            }
        },
        x => { eprintln!("unknown command {}", x); std::process::exit(3); },
    }
}
