#![feature(thread_local, alloc_error_hook)]

mod driver;
mod exec;
mod gen;
mod kernel;
mod nat;
mod plan;
mod rng;
mod shm;
mod sinks;
mod sys;

#[global_allocator]
static ALLOC: kernel::SimAlloc = kernel::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str, d: u64| get(n).map_or(d, |v| v.parse().unwrap_or_else(|_| { eprintln!("{} needs a number", n); std::process::exit(3) }));
    let property = get("--property").unwrap_or_default();
    let seed = num("--seed", 1);
    let known = || if gen::profile(&property).is_none() { eprintln!("unknown property {:?}", property); std::process::exit(3) };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            known();
            driver::check(&driver::Options {
                property, seed, runs: num("--runs", 1000), first: num("--first", 0), secs: num("--secs", 60) as f64,
                workers: num("--workers", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize,
                out: get("--out").unwrap_or("/dev/null".into()), replay: get("--replay").unwrap_or("/tmp/replay.txt".into()),
                keep_going: args.iter().any(|a| a == "--keep-going"), minimise_secs: num("--minimise-secs", 30) as f64,
            })
        }
        Some("replay") => driver::replay(&args[2], args.iter().any(|a| a == "--trace")),
        Some("determinism") => { known(); driver::determinism(&property, seed, num("--first", 0), num("--runs", 100)) }
        Some("show") => { known(); print!("{}", gen::plan(&property, seed, num("--run", 0)).text()); 0 }
        Some("model") => model(),
        _ => { eprintln!("usage: dst check|replay|determinism|show|model ..."); 3 }
    };
    std::process::exit(code);
}

/// Prints results of the reference model for an independent one to check.
fn model() -> i32 {
    let mut r = rng::Rng::new(7, 7);
    for i in 0..3000u64 {
        let ty = exec::ty_of(i as u8);
        let n = gen::size(&mut r, 60);
        let a = gen::value(&mut r, ty, n);
        let b = gen::related(&mut r, ty, &a, 60);
        let s = r.below(300) as usize;
        let e = r.below(9) as usize;
        let dec = a.to_digits(ty.bits(), true);
        let q = a.divrem(&b);
        println!("{} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}", a.to_hex(), b.to_hex(), s, e, a.add(&b).to_hex(), a.sub(&b).map_or("-".into(), |x| x.to_hex()),
            a.mul(&b).to_hex(), q.as_ref().map_or("-".into(), |x| x.0.to_hex()), q.as_ref().map_or("-".into(), |x| x.1.to_hex()),
            a.shl(s).to_hex(), a.shr(s).to_hex(), a.pow(e).to_hex(), a.to_dec(), nat::Nat::parse(&a.to_dec()).unwrap().to_hex(),
            nat::Nat::from_digits(&dec, ty.bits(), true).to_hex(), nat::Nat::from_digits(&a.to_digits(ty.bits(), false), ty.bits(), false).to_hex(),
            format!("{}:{}", ty.bits(), dec.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(",")));
    }
    0
}
