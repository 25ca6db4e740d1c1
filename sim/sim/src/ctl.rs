//! The controller: forks workers, hands out run indices, gathers what they saw, minimises the
//! first failure and writes replay file and evidence.
#![allow(static_mut_refs)]
use crate::props::*;
use crate::rt;
use crate::run::*;
use crate::scn::*;
use crate::shrink::*;
use crate::statics::Hot;
use gen::mix;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub secs: u64,
    pub workers: usize,
    pub evidence: Option<String>,
    pub replays: String,
}

const EPOCH: u64 = 32;
const DBITS: u64 = 1 << 27;
const VTEXT: usize = 8 << 20;
const NSAMPLE: usize = 3;
const STEXT: usize = 6000;

#[repr(C)]
struct Control {
    next: AtomicU64,
    stop: AtomicU32,
    lock: AtomicU32,
    v_idx: AtomicU64,
    v_len: AtomicU64,
    stats: [AtomicU64; 40],
    fired: [AtomicU64; 12],
    pairs: [AtomicU64; 16],
    digest: AtomicU64,
    s_len: [AtomicU64; NSAMPLE],
    s_text: [[u8; STEXT]; NSAMPLE],
    v_text: [u8; VTEXT],
}

const RUNS: usize = 0;
const NONTRIVIAL: usize = 1;
const DISTINCT: usize = 2;
const INTER: usize = 3;
const CALLS: usize = 4;
const TICKS: usize = 5;
const FORKS: usize = 6;
const ISO: usize = 7;
const ISOTICKS: usize = 8;
const RESTARTS: usize = 9;
const LIVES: usize = 10;
const REDELIVERED: usize = 11;
const THREADS: usize = 12;
const NOTE: usize = 13;
const MAXPEAK: usize = 14;
const MAXSTEPS: usize = 15;
const REQUESTS: usize = 16;
const GLOBS: usize = 17;
const LIBPANIC: usize = 18;
const NESTED: usize = 19;
const INCONCLUSIVE: usize = 20;
const PLAIN: usize = 21;
const FOREIGN: usize = 22;
const FOREIGNCALLS: usize = 23;

fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(0x9e3779b97f4a7c15);
    }
    h
}

fn set_bit(map: *mut u8, h: u64) -> bool {
    let h = h % DBITS;
    unsafe {
        let a = &*(map.add((h / 8) as usize) as *const std::sync::atomic::AtomicU8);
        let m = 1u8 << (h % 8);
        a.fetch_or(m, SeqCst) & m == 0
    }
}

/// Hash of everything a run did.
pub fn obs_hash(o: &Obs) -> u64 {
    let mut h = 1u64;
    for t in &o.recs {
        for r in t {
            let o = &r.out;
            let w = [o.bits as u64, (o.bits >> 64) as u64, o.ival as u64, (o.ival as u128 >> 64) as u64, o.aux, o.status as u64 | (o.flag as u64) << 8 | (o.res as u64) << 16 | (o.has_val as u64) << 24 | (r.state as u64) << 32 | (r.thread as u64) << 40, r.text_hash, r.steps, r.peak, r.biggest, r.live as u64, r.text_len as u64 | (r.after_err as u64) << 32, r.sink_errs as u64 | (r.allocs as u64) << 32, r.refused as u64 | (r.globs as u64) << 32, r.chunks as u64 | (r.fp_flags as u64) << 32, r.fp_changed as u64 | (r.tag as u64) << 32];
            for x in w {
                h = mix(h ^ x).wrapping_add(0x9e3779b97f4a7c15);
            }
        }
    }
    h = hash_bytes(h, format!("{:?} {:?} {} {}", o.exit, o.fired, o.ticks, o.mismatch).as_bytes());
    inter_hash(o, h)
}
fn inter_hash(o: &Obs, mut h: u64) -> u64 {
    for s in &o.sw {
        h = mix(h ^ (s.thread as u64) << 56 ^ (s.target as u64) << 48 ^ (s.op as u64) << 40 ^ (s.kind as u64) << 36 ^ s.k);
    }
    h
}

fn pin(i: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(i % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

fn worker(i: usize, o: &Opts, hot: Hot, c: &'static Control, dist: *mut u8, inter: *mut u8) {
    pin(i);
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        rt::init();
    }
    let thorough = o.tier == "thorough";
    let mut w = World::new();
    w.hot = hot;
    let add = |k: usize, n: u64| {
        c.stats[k].fetch_add(n, SeqCst);
    };
    'out: loop {
        let e = c.next.fetch_add(1, SeqCst);
        for idx in e * EPOCH..(e + 1) * EPOCH {
            if idx >= o.runs || c.stop.load(SeqCst) != 0 {
                break 'out;
            }
            let t1 = Instant::now();
            let sc = generate(&o.prop, o.seed, idx, &mut w, thorough);
            let j = judge(&o.prop, &sc, &mut w);
            let ob = &j.obs;
            add(RUNS, 1);
            add(CALLS, ob.calls);
            add(TICKS, ob.ticks);
            add(RESTARTS, ob.restarts as u64);
            add(LIVES, ob.incarnations as u64);
            add(REDELIVERED, ob.redelivered);
            add(THREADS, sc.threads.len() as u64);
            add(NOTE, j.note);
            add(NESTED, ob.nested.iter().filter(|r| r.state != rt::NOTRUN).count() as u64);
            if matches!(ob.exit, Exit::Timeout) && j.violation.is_none() {
                add(INCONCLUSIVE, 1);
            }
            for k in 0..12 {
                c.fired[k].fetch_add(ob.fired[k], SeqCst);
            }
            for t in &ob.recs {
                for r in t {
                    c.stats[MAXPEAK].fetch_max(r.peak, SeqCst);
                    c.stats[MAXSTEPS].fetch_max(r.steps, SeqCst);
                    add(REQUESTS, r.allocs as u64);
                    add(GLOBS, r.globs as u64);
                    add(LIBPANIC, (r.state == rt::PANICKED) as u64);
                }
            }
            for s in sc.threads.iter().flatten() {
                let k = s.call.kind as usize * 9 + s.call.f as usize;
                if c.pairs[k / 64].load(SeqCst) >> (k % 64) & 1 == 0 {
                    c.pairs[k / 64].fetch_or(1 << (k % 64), SeqCst);
                }
            }
            let text = sc.encode();
            let oh = obs_hash(ob);
            c.digest.fetch_add(mix(oh ^ mix(idx)), SeqCst);
            if std::env::var_os("SIM_LOG").is_some() {
                println!("{idx} {oh:016x} {:.3}s", t1.elapsed().as_secs_f64());
            }
            if j.nontrivial {
                add(NONTRIVIAL, 1);
                if set_bit(dist, hash_bytes(oh, text.as_bytes())) {
                    add(DISTINCT, 1);
                }
                for s in 0..NSAMPLE {
                    if idx % EPOCH == (s as u64 * 11 + 3) && c.s_len[s].compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
                        let n = text.len().min(STEXT);
                        unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), c.s_text[s].as_ptr() as *mut u8, n) };
                        c.s_len[s].store(n as u64, SeqCst);
                    }
                }
            }
            if !ob.sw.is_empty() && set_bit(inter, inter_hash(ob, 3)) {
                add(INTER, 1);
            }
            if let Some(v) = j.violation {
                while c.lock.swap(1, SeqCst) != 0 {
                    std::thread::yield_now();
                }
                if idx < c.v_idx.load(SeqCst) {
                    let t = format!("{}\u{1}{}\u{1}{}", v.class, v.detail, text);
                    if t.len() <= VTEXT {
                        unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), c.v_text.as_ptr() as *mut u8, t.len()) };
                        c.v_len.store(t.len() as u64, SeqCst);
                        c.v_idx.store(idx, SeqCst);
                    }
                }
                c.lock.store(0, SeqCst);
                c.stop.store(1, SeqCst);
                break 'out;
            }
        }
    }
    add(PLAIN, w.plain_runs);
    add(FOREIGN, w.foreign_runs);
    add(FOREIGNCALLS, w.foreign_calls);
    add(FORKS, w.run.forks);
    add(ISO, w.run.iso_runs);
    add(ISOTICKS, w.run.iso_ticks);
}

pub struct Result {
    pub violation: Option<(u64, String, String, Scenario)>,
    pub runs: u64,
    pub digest: u64,
}

pub fn explore(o: &Opts) -> (Result, String) {
    let t0 = Instant::now();
    let (c, dist, inter) = unsafe {
        rt::init();
        let c = rt::map_shared(std::mem::size_of::<Control>()) as *mut Control;
        (&*c, rt::map_shared((DBITS / 8) as usize), rt::map_shared((DBITS / 8) as usize))
    };
    c.v_idx.store(u64::MAX, SeqCst);
    let hot = {
        let mut w = World::new();
        w.scout(o.seed, &o.prop);
        w.hot
    };
    let (n_statics, n_hot) = (hot.statics, hot.steps.len());
    let mut pids = vec![];
    for i in 0..o.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(i, o, hot.clone(), c, dist, inter);
            std::process::exit(0);
        }
        pids.push(pid);
    }
    let mut failed = false;
    let mut timed_out = false;
    let mut left = pids.len();
    while left > 0 {
        let mut st = 0;
        let r = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if r > 0 {
            left -= 1;
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                eprintln!("worker {r} ended with status {st:#x}");
                failed = true;
                c.stop.store(1, SeqCst);
            }
        } else {
            std::thread::sleep(Duration::from_millis(10));
            if t0.elapsed().as_secs() >= o.secs && !timed_out {
                timed_out = true;
                c.stop.store(1, SeqCst);
            }
        }
    }
    if failed && c.v_idx.load(SeqCst) == u64::MAX {
        eprintln!("harness error");
        std::process::exit(3);
    }
    let wall = t0.elapsed().as_secs_f64();
    let st = |k: usize| c.stats[k].load(SeqCst);
    let mut violation = None;
    if c.v_idx.load(SeqCst) != u64::MAX {
        let n = c.v_len.load(SeqCst) as usize;
        let t = String::from_utf8_lossy(&c.v_text[..n]).into_owned();
        let mut p = t.splitn(3, '\u{1}');
        let (class, detail, sc) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
        match Scenario::decode(sc) {
            Some(s) => violation = Some((c.v_idx.load(SeqCst), class.to_string(), detail.to_string(), s)),
            None => {
                eprintln!("harness error: scenario does not decode:\n{sc}");
                std::process::exit(3);
            }
        }
    }
    let (edges, edges_all) = unsafe { rt::coverage() };
    let pairs: u32 = c.pairs.iter().map(|p| p.load(SeqCst).count_ones()).sum();
    let mut faults = String::new();
    for k in 0..12 {
        faults.push_str(&format!("{}{}: {}", if k > 0 { ", " } else { "" }, jstr(ACT_NAMES[k]), c.fired[k].load(SeqCst)));
    }
    let samples: Vec<String> = (0..NSAMPLE).filter(|&s| c.s_len[s].load(SeqCst) > 1).map(|s| jstr(&String::from_utf8_lossy(&c.s_text[s][..c.s_len[s].load(SeqCst) as usize]))).collect();
    let runs = st(RUNS);
    let body = format!(
        "\"evaluations\": {runs}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"nontrivial_runs\": {}, \"requested_runs\": {}, \"stopped_by_time\": {timed_out}, \"runs_per_hour\": {:.0}, \"library_calls\": {}, \"simulated_steps\": {}, \"isolated_reference_calls\": {}, \"isolated_reference_steps\": {}, \"processes_forked\": {}, \"process_lives\": {}, \"crash_restarts\": {}, \"redelivered_entries\": {}, \"simulated_threads\": {}, \"distinct_interleavings\": {}, \"preemption_site_pairs\": {}, \"library_edges_reached\": {edges}, \"library_edges\": {edges_all}, \"operation_format_pairs\": {pairs}, \"memory_requests\": {}, \"writable_statics_of_the_library\": {}, \"calls_found_to_touch_them\": {}, \"accesses_to_writable_globals\": {}, \"nested_calls\": {}, \"calls_that_panicked_alone_and_here\": {}, \"inconclusive_runs\": {}, \"largest_heap_in_a_call\": {}, \"most_steps_in_a_call\": {}, {}\"components_real\": [\"all of rustc_apfloat (ieee, ppc, lib) and smallvec, compiled from /repo with yield points added by the compiler\", \"std allocation, panic and lock code\"], \"components_simulated\": [\"thread scheduling and lock waits\", \"memory device\", \"text sinks\", \"checkpoint disk and process crashes\", \"host floating-point control and status\", \"replica log delivery\"], \"faults_fired\": {{{faults}}}, \"digest\": {}",
        st(DISTINCT),
        jstr(rule(&o.prop)),
        samples.join(", "),
        st(NONTRIVIAL),
        o.runs,
        runs as f64 / wall * 3600.0,
        st(CALLS),
        st(TICKS),
        st(ISO),
        st(ISOTICKS),
        st(FORKS),
        st(LIVES),
        st(RESTARTS),
        st(REDELIVERED),
        st(THREADS),
        st(INTER),
        unsafe { rt::pair_count() },
        st(REQUESTS),
        n_statics,
        n_hot,
        st(GLOBS),
        st(NESTED),
        st(LIBPANIC),
        st(INCONCLUSIVE),
        st(MAXPEAK),
        st(MAXSTEPS),
        match &o.prop[..] {
            "C05" => format!("\"calls_in_histories\": {}, ", st(NOTE)),
            "C12" => format!("\"runs_repeated_without_optimisation\": {}, ", st(PLAIN)),
            "C13" => format!("\"runs_on_unoptimised_replica\": {}, \"runs_on_big_endian_32_bit_replica\": {}, \"entries_on_big_endian_32_bit_replica\": {}, ", st(PLAIN), st(FOREIGN), st(FOREIGNCALLS)),
            "C03" => format!("\"runs_under_weak_memory\": {}, \"calls_under_weak_memory\": {}, ", st(FOREIGN), st(FOREIGNCALLS)),
            _ => String::new(),
        },
        jstr(&format!("{:016x}", c.digest.load(SeqCst))),
    );
    (Result { violation, runs, digest: c.digest.load(SeqCst) }, body)
}

pub fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "One run prints one value many times into writers failing at enumerated byte and chunk positions, plus healthy prints. Non-trivial: at least one writer fault fired. Distinct: hash of scenario and all outcomes.",
        "C02" => "One run interleaves print and parse calls with writers that call back into the library, panic, or meet refused memory, and calls after them. Non-trivial: at least one such fault fired.",
        "C03" => "One run is a set of calls on 2-4 threads under a seeded schedule. Non-trivial: at least two switches happened. Distinct: hash of scenario, schedule and outcomes.",
        "C04" => "As C03 with threads stalled for ever inside calls. Non-trivial: a stall fired inside a call.",
        "C05" => "One run is a history of calls in one process, compared call by call with fresh processes. Non-trivial: more than one call.",
        "C07" => "One run is a register program with crashes inside operations, restarts from checkpoints kept as text, a twin that never crashes, and an archive of up to 64 values that the first life writes as text and the last reads back. Non-trivial: at least one restart.",
        "C06" => "One run is a register program with crashes inside operations, restarts from checkpoints, and a twin that never crashes. Non-trivial: at least one restart.",
        "C08" => "As C06 with the stored registers damaged between lives. Non-trivial: at least one restart.",
        "C09" => "One run makes 24 non-decimal calls with the allocator refusing everything. Every run counts.",
        "C10" => "One run makes decimal conversions with enumerated and random memory requests refused, and retries. Non-trivial: a request was refused.",
        "C11" => "One run makes decimal conversions under one allocator personality, with extreme exponents and long texts. Non-trivial: memory was requested.",
        "C12" => "One run makes 16 calls with the floating-point environment switched before and during them.",
        "C13" => "One run is a log applied by a checked replica in order and by an optimised replica with reordering, duplicates and crash-restarts; every fourth log also by an unoptimised one, and some short ones on an interpreted big-endian 32-bit host. Non-trivial: a restart or a redelivery happened.",
        _ => "One run is a durable register program with crashes and retries against the reference machine. Non-trivial: at least one restart.",
    }
}

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Minimises, verifies in a fresh process, writes the replay file; returns its path.
pub fn report(o: &Opts, idx: u64, class: &str, detail: &str, sc: &Scenario) -> String {
    let mut w = World::new();
    let again = judge(&o.prop, sc, &mut w).violation;
    let mut best = sc.clone();
    let mut tried = 0;
    if again.is_some_and(|v| v.class == class) {
        let mut s = Shrinker { prop: &o.prop, class: class.to_string(), w: &mut w, end: Instant::now() + Duration::from_secs(75), tried: 0 };
        best = s.run(sc);
        tried = s.tried;
    } else {
        eprintln!("note: the failure did not show again in the controller process");
    }
    let _ = std::fs::create_dir_all(&o.replays);
    let path = format!("{}/{}-seed{}-run{}.scn", o.replays, o.prop, o.seed, idx);
    let write = |sc: &Scenario, det: &str, min: bool| {
        let mut t = format!("# property {}\n# seed {} run {}\n# class {}\n# minimised {} ({} candidate runs), {} steps, {} faults and switches\n", o.prop, o.seed, idx, class, min, tried, sc.steps(), count_faults(sc));
        for l in det.lines() {
            t.push_str(&format!("# {l}\n"));
        }
        t.push_str(&sc.encode());
        let _ = std::fs::write(&path, t);
    };
    let det = judge(&o.prop, &best, &mut w).violation.map(|v| v.detail).unwrap_or_else(|| detail.to_string());
    write(&best, &det, true);
    println!("{class}\n{det}");
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status();
    if st.ok().and_then(|s| s.code()) != Some(1) {
        eprintln!("note: the minimised file does not reproduce in a fresh process; keeping the original");
        write(sc, detail, false);
    }
    path
}

pub fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 3;
    };
    let Some(sc) = Scenario::decode(&t) else {
        eprintln!("not a scenario: {path}");
        return 3;
    };
    unsafe { rt::init() };
    let mut w = World::new();
    let j = judge(&sc.prop, &sc, &mut w);
    println!("digest {:016x}", obs_hash(&j.obs));
    match j.violation {
        Some(v) => {
            println!("{}\n{}", v.class, v.detail);
            println!("VIOLATION property={} replay={path}", sc.prop);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
