#![feature(alloc_error_hook, thread_local)]
#![allow(static_mut_refs, dangerous_implicit_autorefs)]
mod ctl;
mod dur;
mod props;
mod replica;
mod rt;
mod run;
mod scn;
mod shrink;
mod statics;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let opts = || {
        let prop = std::env::args().nth(2).unwrap_or_default();
        if !props::PROPS.contains(&&prop[..]) {
            eprintln!("unknown property {prop:?}");
            std::process::exit(2);
        }
        let n = |k: &str, d: u64| arg(k).and_then(|s| s.parse().ok()).unwrap_or(d);
        ctl::Opts {
            prop,
            tier: arg("--tier").unwrap_or_else(|| "quick".into()),
            seed: n("--seed", 1),
            runs: n("--runs", 1000),
            secs: n("--secs", 60),
            workers: n("--workers", 8) as usize,
            evidence: arg("--evidence"),
            replays: arg("--replays").unwrap_or_else(|| "out".into()),
        }
    };
    match &cmd[..] {
        "check" => {
            let o = opts();
            let t0 = std::time::Instant::now();
            let (r, body) = ctl::explore(&o);
            let mut n = 0;
            let mut code = 0;
            if let Some((idx, class, detail, sc)) = &r.violation {
                n = 1;
                code = 1;
                let p = ctl::report(&o, *idx, class, detail, sc);
                println!("VIOLATION property={} replay={p}", o.prop);
            }
            if let Some(e) = &o.evidence {
                let t = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{body}}}, \"assumptions\": {}, \"wall_s\": {:.1}, \"violations\": {n}}}\n", ctl::jstr(&o.prop), ctl::jstr(&o.tier), o.seed, props::assumptions(&o.prop), t0.elapsed().as_secs_f64());
                if std::fs::write(e, t).is_err() {
                    eprintln!("cannot write {e}");
                    std::process::exit(3);
                }
            }
            println!("{} runs, digest {:016x}, {:.1}s", r.runs, r.digest, t0.elapsed().as_secs_f64());
            std::process::exit(code);
        }
        "digest" => {
            let o = opts();
            let (r, _) = ctl::explore(&o);
            println!("{} seed={} runs={} workers={} digest={:016x} violation={}", o.prop, o.seed, r.runs, o.workers, r.digest, r.violation.is_some());
        }
        "replay" => std::process::exit(ctl::replay(&std::env::args().nth(2).unwrap_or_default())),
        "scenario" => unsafe {
            // The scenario of one run index, with the time its parts take.
            rt::init();
            let o = opts();
            let mut w = props::World::new();
            w.scout(o.seed, &o.prop);
            let idx = arg("--run").and_then(|s| s.parse().ok()).unwrap_or(0);
            let t0 = std::time::Instant::now();
            let sc = props::generate(&o.prop, o.seed, idx, &mut w, o.tier == "thorough");
            let t1 = std::time::Instant::now();
            let j = props::judge(&o.prop, &sc, &mut w);
            if std::env::var_os("SIM_RECS").is_some() {
                println!("{:#?}", j.obs.recs);
            }
            println!("{}# generated in {:?}, judged in {:?}, {} calls, {} steps, exit {:?}", sc.encode(), t1 - t0, t1.elapsed(), j.obs.calls, j.obs.ticks, j.obs.exit);
        },
        "cost" => unsafe {
            rt::init();
            let mut w = props::World::new();
            for l in std::io::stdin().lines().map_while(Result::ok) {
                if let Some(c) = gen::OwnedCall::decode(&l) {
                    let r = w.run.iso(&c);
                    println!("{:>10} steps {:>4} requests {:>8} peak  bound {:>10}  text {:>6} {:.60}", r.steps, r.allocs, r.peak, props::step_bound(&c), c.text.len(), l);
                }
            }
        },
        "serve" => replica::serve(),
        _ => {
            eprintln!("usage: sim check|digest PROP [--tier T --seed S --runs N --secs S --workers W --evidence F --replays D] | replay FILE | serve");
            std::process::exit(2);
        }
    }
}
