//! `replay run <harness> <hex>`: run one harness natively on recorded inputs.
//! `replay fuzz <harness> <seconds> <seed>`: search for a failing input.
//! Exit 0: passes. Exit 1: fails (prints the panic / the input). Exit 3: the
//! inputs violate a precondition.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use musli_verif::shim;
    use std::panic;
    use std::time::{Duration, Instant};

    let args: Vec<String> = std::env::args().collect();
    let name = &args[2];
    let Some(f) = musli_verif::registry::ALL
        .iter()
        .find(|(n, _)| n == name)
        .map(|(_, f)| *f)
    else {
        eprintln!("unknown harness {name}");
        std::process::exit(4);
    };

    fn run(f: fn(), bytes: Vec<u8>) -> Result<(), i32> {
        shim::set_stream(bytes);
        match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
            Ok(()) => Ok(()),
            Err(p) if p.is::<shim::Assume>() => Err(3),
            Err(_) => Err(1),
        }
    }

    let hook = panic::take_hook();
    match args[1].as_str() {
        "run" => {
            let hex = args.get(3).map(|s| s.as_str()).unwrap_or("");
            let bytes = (0..hex.len() / 2)
                .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            panic::set_hook(Box::new(move |info| {
                if !info.payload().is::<shim::Assume>() && !shim::is_expected() {
                    hook(info)
                }
            }));
            if let Err(code) = run(f, bytes) {
                std::process::exit(code);
            }
        }
        "fuzz" => {
            let secs: u64 = args[3].parse().unwrap();
            let mut x: u64 = args[4].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let mut next = || {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x
            };
            // Reported right here: a panic which can not unwind does not return.
            panic::set_hook(Box::new(|info| {
                if !info.payload().is::<shim::Assume>() && !shim::is_expected() {
                    println!("FAIL {}\n{info}", shim::hex());
                    std::process::exit(1);
                }
            }));
            let end = Instant::now() + Duration::from_secs(secs);
            let (mut n, mut rejected) = (0u64, 0u64);
            while Instant::now() < end {
                // Mix of uniform bytes, small values and extremes.
                let mode = next() % 4;
                let bytes: Vec<u8> = (0..512)
                    .map(|_| {
                        let r = next();
                        match (mode, r % 8) {
                            (0, _) => (r >> 8) as u8,
                            (1, 0..=5) => 0,
                            (1, _) => (r >> 8) as u8 % 16,
                            (2, 0..=2) => 0xff,
                            (2, 3..=4) => 0x80,
                            (2, _) => (r >> 8) as u8,
                            (_, 0..=4) => (r >> 8) as u8 % 4,
                            (_, _) => (r >> 8) as u8,
                        }
                    })
                    .collect();
                n += 1;
                match run(f, bytes) {
                    Ok(()) => {}
                    Err(3) => rejected += 1,
                    Err(_) => {
                        println!("FAIL {}", shim::hex());
                        std::process::exit(1);
                    }
                }
            }
            println!("PASS evaluations={n} rejected={rejected}");
        }
        _ => std::process::exit(4),
    }
}
