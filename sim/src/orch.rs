//! Runs simulations: forks one process per run, collects outcomes, shrinks and
//! replays violations, writes evidence.

use crate::choice;
use crate::json::{self, s, J};
use crate::rt::{self, Outcome};
use crate::sys;
use crate::{Prop, DEBUG};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::CommandExt;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

static TIER: AtomicUsize = AtomicUsize::new(0);

pub fn thorough() -> bool {
    TIER.load(SeqCst) == 1
}

pub fn set_tier(t: &str) {
    TIER.store((t == "thorough") as usize, SeqCst);
}

fn tier_name() -> &'static str {
    if thorough() {
        "thorough"
    } else {
        "quick"
    }
}

// -------------------------------------------------------------------- scratch

static mut SCRATCH: String = String::new();

fn base_dir() -> String {
    for d in ["/dev/shm", "/tmp", "/var/tmp"] {
        let p = format!("{d}/renplex-sim-{:07}", std::process::id());
        if std::fs::create_dir_all(&p).is_ok() {
            let probe = format!("{p}/probe");
            if std::fs::write(&probe, b"x").is_ok() {
                let _ = std::fs::remove_file(&probe);
                return p;
            }
        }
    }
    let p = std::env::current_dir().unwrap().join(format!("renplex-sim-{:07}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p.to_string_lossy().into_owned()
}

/// Private directory of the current run, ends with '/'.
pub fn scratch() -> String {
    let p = unsafe { (*std::ptr::addr_of!(SCRATCH)).clone() };
    std::fs::create_dir_all(&p).expect("scratch");
    // temporary files of library code belong into the scratch directory as well
    std::env::set_var("TMPDIR", &p);
    p
}

// ------------------------------------------------------------------ execution

pub struct Bufs {
    result: *mut u8,
    choices: *mut u64,
    dir: String,
}

impl Bufs {
    pub fn new(dir: String) -> Bufs {
        Bufs { result: sys::shared(rt::RESULT_LEN), choices: choice::alloc_buf(), dir }
    }
}

const RUN_ALARM: usize = 60;

/// Executes one run in a forked child.
pub fn exec(p: &Prop, seed: u64, replay: Option<Vec<u64>>, tracing: bool, b: &Bufs) -> (Outcome, Vec<u64>) {
    unsafe {
        *(b.result as *mut u64) = 0;
        *b.choices = 0;
    }
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child(p, seed, replay, tracing, b);
    }
    let mut st = 0;
    loop {
        let r = unsafe { sys::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(sys::EINTR) {
            panic!("waitpid: {}", std::io::Error::last_os_error());
        }
    }
    if std::path::Path::new(&b.dir).exists() {
        let _ = std::fs::remove_dir_all(&b.dir);
    }
    let ch = choice::recorded(b.choices);
    match rt::read_result(b.result) {
        Some(o) => (o, ch),
        None => {
            let sig = st & 0x7f;
            let mut o = Outcome::default();
            o.violation = Some(if sig == 14 {
                ("hang".into(), format!("the run did not end within {RUN_ALARM} s"))
            } else if sig != 0 {
                ("crash".into(), format!("the process was killed by signal {sig}"))
            } else {
                ("crash".into(), format!("the process ended with status {}", (st >> 8) & 0xff))
            });
            (o, ch)
        }
    }
}

fn child(p: &Prop, seed: u64, replay: Option<Vec<u64>>, tracing: bool, b: &Bufs) -> ! {
    unsafe {
        SCRATCH = b.dir.clone();
        sys::raw(sys::SYS_ALARM, RUN_ALARM, 0, 0, 0, 0, 0);
        if !DEBUG.load(SeqCst) {
            let fd = sys::raw(sys::SYS_OPENAT, -100isize as usize, c"/dev/null".as_ptr() as usize, 2, 0, 0, 0);
            if fd >= 0 {
                sys::raw(sys::SYS_DUP2, fd as usize, 1, 0, 0, 0, 0);
                sys::raw(sys::SYS_DUP2, fd as usize, 2, 0, 0, 0, 0);
            }
        }
    }
    choice::start(seed, replay, b.choices);
    rt::set_result_buf(b.result);
    rt::TRACING.store(tracing, SeqCst);
    rt::install_panic_hook(DEBUG.load(SeqCst));
    rt::step_cap(400_000_000);
    // a thread of its own: its memory does not depend on what this worker did before
    let run = p.run;
    let main = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run));
        if r.is_err() {
            rt::fail("harness-panic", format!("driver: {}", rt::last_panic()));
        }
        rt::finish();
    });
    let _ = main.expect("spawn").join();
    sys::exit_now(1);
}

fn workers() -> usize {
    if let Ok(v) = std::env::var("SIM_WORKERS") {
        if let Ok(n) = v.parse() {
            return n;
        }
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

const NOTE_LEN: usize = 1 << 16;

pub struct Batch {
    pub runs: u64,
    pub first_bad: Option<u64>,
    pub notes: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub nontrivial: Vec<bool>,
    pub wall: f64,
}

/// Executes runs 0..n on all workers; stops early at a violation.
pub fn batch(p: &Prop, seed: u64, n: u64, cap_s: f64, base: &str) -> Batch {
    let w = workers();
    let t0 = Instant::now();
    let stop = sys::shared(4096) as *const AtomicU64;
    let stop = unsafe { &*stop };
    stop.store(u64::MAX, SeqCst);
    let odd = unsafe { &*(sys::shared(4096) as *const AtomicU64) };
    let hashes = sys::shared((n as usize + 1) * 8) as *mut u64;
    let flags = sys::shared(n as usize + 1);
    // the same address space whatever the number of workers
    let notes = sys::shared(NOTE_LEN * w.max(64));
    let mut pids = vec![];
    for k in 0..w {
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let b = Bufs::new(format!("{base}/w{k:03}/"));
            let mut acc: BTreeMap<String, u64> = BTreeMap::new();
            let mut idx = k as u64;
            let mut done = 0u64;
            while idx < n {
                if idx > stop.load(SeqCst) || t0.elapsed().as_secs_f64() > cap_s {
                    break;
                }
                let rs = choice::run_seed(seed, p.id, idx);
                let (mut o, _) = exec(p, rs, None, false, &b);
                if let Some((c, _)) = &o.violation {
                    // believed only if it repeats; many that do not repeat mean
                    // that the code decides by something outside its inputs
                    let same = (0..3).map(|_| exec(p, rs, None, false, &b).0).find(|x| matches!(&x.violation, Some((d, _)) if d == c));
                    match same {
                        Some(x) => o = x,
                        None => {
                            if std::env::var_os("SIM_SHOW").is_some() {
                                eprintln!("run {idx}: unrepeatable: {:?}", o.violation);
                            }
                            *acc.entry("unrepeatable".into()).or_insert(0) += 1;
                            if odd.fetch_add(1, SeqCst) < 20 {
                                o = exec(p, rs, None, false, &b).0;
                                o.violation = None;
                            }
                        }
                    }
                }
                for (k, v) in &o.notes {
                    let e = acc.entry(k.clone()).or_insert(0);
                    if k.starts_with("max_") {
                        *e = (*e).max(*v);
                    } else {
                        *e += v;
                    }
                }
                unsafe {
                    *hashes.add(idx as usize) = choice::mix(o.hash ^ o.notes.get("single_steps").copied().unwrap_or(0));
                    let judged = o.notes.get("checks").copied().unwrap_or(0) > 0;
                    *flags.add(idx as usize) = if judged && o.notes.get("events").copied().unwrap_or(0) > 0 { 3 } else { 1 };
                }
                done += 1;
                if let Some(v) = &o.violation {
                    if DEBUG.load(SeqCst) || std::env::var_os("SIM_SHOW").is_some() {
                        eprintln!("run {idx}: {} {}", v.0, v.1);
                    }
                    stop.fetch_min(idx, SeqCst);
                }
                idx += w as u64;
            }
            acc.insert("runs".into(), done);
            let mut t = String::new();
            for (k, v) in acc {
                t.push_str(&format!("{k} {v}\n"));
            }
            let bytes = t.as_bytes();
            unsafe {
                let d = notes.add(NOTE_LEN * k);
                let len = bytes.len().min(NOTE_LEN - 8);
                std::ptr::copy_nonoverlapping(bytes.as_ptr(), d.add(8), len);
                *(d as *mut u64) = len as u64;
            }
            sys::exit_now(0);
        }
        pids.push(pid);
    }
    let mut broken = false;
    for pid in pids {
        let mut st = 0;
        loop {
            let r = unsafe { sys::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
            if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(sys::EINTR) {
                broken = true;
                break;
            }
        }
        broken |= st != 0;
    }
    if broken {
        eprintln!("error: a simulation worker failed");
        let _ = std::fs::remove_dir_all(base);
        std::process::exit(3);
    }
    let mut out = Batch {
        runs: 0,
        first_bad: None,
        notes: BTreeMap::new(),
        hashes: vec![],
        nontrivial: vec![],
        wall: t0.elapsed().as_secs_f64(),
    };
    let st = stop.load(SeqCst);
    if st != u64::MAX {
        out.first_bad = Some(st);
    }
    for k in 0..w {
        let t = unsafe {
            let d = notes.add(NOTE_LEN * k);
            String::from_utf8_lossy(std::slice::from_raw_parts(d.add(8), *(d as *const u64) as usize)).into_owned()
        };
        for l in t.lines() {
            let mut it = l.rsplitn(2, ' ');
            let v: u64 = it.next().unwrap().parse().unwrap_or(0);
            let key = it.next().unwrap_or("").to_string();
            let e = out.notes.entry(key.clone()).or_insert(0);
            if key.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
    }
    out.runs = out.notes.remove("runs").unwrap_or(0);
    for i in 0..n as usize {
        unsafe {
            let f = *flags.add(i);
            if f != 0 {
                out.hashes.push(*hashes.add(i));
                out.nontrivial.push(f == 3);
            }
        }
    }
    out
}

// ------------------------------------------------------------------- shrinking

fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn shrink(p: &Prop, start: Vec<u64>, class: &str, b: &Bufs) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0u64;
    let budget = |tries: u64| tries < 600 && t0.elapsed().as_secs_f64() < 25.0;
    let attempt = |cand: &Vec<u64>, tries: &mut u64| -> bool {
        *tries += 1;
        let (o, _) = exec(p, 0, Some(cand.clone()), false, b);
        matches!(&o.violation, Some((c, _)) if c == class)
    };
    // cut the tail
    let (mut lo, mut hi) = (0usize, best.len());
    while lo < hi && budget(tries) {
        let mid = (lo + hi) / 2;
        let cand = best[..mid].to_vec();
        if attempt(&cand, &mut tries) {
            hi = mid;
            best = cand;
        } else {
            lo = mid + 1;
        }
    }
    let mut changed = true;
    while changed && budget(tries) {
        changed = false;
        let mut size = (best.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i < best.len() && budget(tries) {
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                if attempt(&cand, &mut tries) {
                    best = cand;
                    changed = true;
                    continue;
                }
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    if attempt(&cand, &mut tries) {
                        best = cand;
                        changed = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            for cut in [2u64, 4] {
                if best[i] > 1 && budget(tries) {
                    let mut cand = best.clone();
                    cand[i] /= cut;
                    if attempt(&cand, &mut tries) {
                        best = cand;
                        changed = true;
                    }
                }
            }
            if best[i] > 0 && best[i] < 8 && budget(tries) {
                let mut cand = best.clone();
                cand[i] -= 1;
                if attempt(&cand, &mut tries) {
                    best = cand;
                    changed = true;
                }
            }
        }
    }
    (trim(best), tries)
}

// ------------------------------------------------------------------- commands

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| {
        let exe = std::env::current_exe().unwrap();
        // <verif>/target/debug/sim
        exe.parent().and_then(|p| p.parent()).and_then(|p| p.parent()).unwrap().to_string_lossy().into_owned()
    })
}

pub fn check(p: &Prop, seed: u64) -> i32 {
    let t0 = Instant::now();
    let n = if thorough() { p.thorough } else { p.quick };
    let n = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(n);
    let cap = if thorough() { 700.0 } else { 300.0 };
    let base = base_dir();
    let r = batch(p, seed, n, cap, &base);
    let b = Bufs::new(format!("{base}/main/"));
    let mut samples = vec![];
    for idx in 0..3.min(r.runs) {
        if r.first_bad.is_some() {
            break;
        }
        let rs = choice::run_seed(seed, p.id, idx);
        let (o, ch) = exec(p, rs, None, true, &b);
        let t: Vec<J> = o.trace.iter().take(14).map(|l| s(cut(l, 300))).collect();
        samples.push(J::Obj(vec![
            ("run".into(), J::Int(idx as i128)),
            ("seed".into(), s(format!("{rs:#x}"))),
            ("choices".into(), J::Int(ch.len() as i128)),
            ("exec_hash".into(), s(format!("{:#x}", o.hash))),
            ("trace_head".into(), J::Arr(t)),
        ]));
    }
    let mut code = 0;
    let mut bad_info = J::Null;
    if let Some(idx) = r.first_bad {
        code = 1;
        let rs = choice::run_seed(seed, p.id, idx);
        let (o, ch) = exec(p, rs, None, false, &b);
        let (class, msg) = o.violation.clone().unwrap_or(("unrepeatable".into(), "the violation did not repeat".into()));
        let (small, tries) = if class == "hang" || class == "unrepeatable" { (ch.clone(), 0) } else { shrink(p, ch.clone(), &class, &b) };
        let (o2, _) = exec(p, 0, Some(small.clone()), true, &b);
        let (small, o2) = match &o2.violation {
            Some((c, _)) if *c == class => (small, o2),
            _ => (ch.clone(), exec(p, 0, Some(ch.clone()), true, &b).0),
        };
        let msg2 = o2.violation.clone().map(|v| v.1).unwrap_or(msg.clone());
        let dir = format!("{}/evidence/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", p.id, seed, idx);
        let j = J::Obj(vec![
            ("property".into(), s(p.id)),
            ("tier".into(), s(tier_name())),
            ("verif_seed".into(), J::Int(seed as i128)),
            ("run".into(), J::Int(idx as i128)),
            ("run_seed".into(), s(format!("{rs:#x}"))),
            ("class".into(), s(class.clone())),
            ("message".into(), s(msg2.clone())),
            ("exec_hash".into(), s(format!("{:#x}", o2.hash))),
            ("choices_before_shrinking".into(), J::Int(ch.len() as i128)),
            ("shrink_executions".into(), J::Int(tries as i128)),
            ("choices".into(), J::Arr(small.iter().map(|x| J::Int(*x as i128)).collect())),
            ("trace".into(), J::Arr(o2.trace.iter().map(|l| s(cut(l, 400))).collect())),
        ]);
        std::fs::write(&path, j.text()).expect("replay file");
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        let repeated = matches!(&again, Ok(x) if x.status.code() == Some(1));
        println!("{}: {} (run {idx}, seed {rs:#x}): {}", p.id, class, msg2);
        println!("choices {} -> {}, replayed in a fresh process: {}", ch.len(), small.len(), repeated);
        println!("VIOLATION property={} replay={}", p.id, path);
        bad_info = J::Obj(vec![
            ("class".into(), s(class)),
            ("message".into(), s(msg2)),
            ("replay".into(), s(path)),
            ("replay_confirmed".into(), J::Bool(repeated)),
        ]);
    }
    let _ = std::fs::remove_dir_all(&base);
    evidence(p, seed, &r, samples, bad_info, t0.elapsed().as_secs_f64());
    let distinct: BTreeSet<u64> = r.hashes.iter().copied().collect();
    println!("{}: {} runs, {} distinct executions, {:.1} s", p.id, r.runs, distinct.len(), t0.elapsed().as_secs_f64());
    if code == 0 && r.notes.get("checks").copied().unwrap_or(0) == 0 {
        eprintln!("error: nothing was judged");
        return 3;
    }
    code
}

fn cut(l: &str, n: usize) -> String {
    if l.chars().count() > n {
        l.chars().take(n).collect::<String>() + "..."
    } else {
        l.to_string()
    }
}

fn evidence(p: &Prop, seed: u64, r: &Batch, samples: Vec<J>, bad: J, wall: f64) {
    let non: BTreeSet<u64> = r.hashes.iter().zip(&r.nontrivial).filter(|(_, n)| **n).map(|(h, _)| *h).collect();
    let note = |k: &str| r.notes.get(k).copied().unwrap_or(0);
    let faults: Vec<(String, J)> =
        r.notes.iter().filter(|(k, _)| k.starts_with("fault_")).map(|(k, v)| (k[6..].to_string(), J::Int(*v as i128))).collect();
    let rest: Vec<(String, J)> = r
        .notes
        .iter()
        .filter(|(k, _)| !k.starts_with("fault_") && !["steps", "switches", "checks", "events"].contains(&k.as_str()))
        .map(|(k, v)| (k.clone(), J::Int(*v as i128)))
        .collect();
    let mut cov = vec![
        ("evaluations".into(), J::Int(r.runs as i128)),
        ("distinct_nontrivial".into(), J::Int(non.len() as i128)),
        (
            "rule".into(),
            s(format!(
                "One evaluation is one simulated execution in its own process, generated from its run seed. {} Two executions are the same if their hash over the sequence of scheduler switches (with step numbers), injected faults, work splits and applied operations is the same. Non-trivial: at least one such event happened and at least one oracle comparison was made.",
                p.rule
            )),
        ),
        ("samples".into(), J::Arr(samples)),
        ("oracle_comparisons".into(), J::Int(note("checks") as i128)),
        ("runs_per_hour_one_seed_each".into(), J::Int((r.runs as f64 / r.wall.max(1e-6) * 3600.0) as i128)),
        ("simulated_steps".into(), J::Int(note("steps") as i128)),
        ("simulated_time_s".into(), J::Num(note("steps") as f64 * 1e-6)),
        ("thread_switches".into(), J::Int(note("switches") as i128)),
        ("faults_injected".into(), J::Obj(faults)),
        ("counters".into(), J::Obj(rest)),
        ("real_components".into(), J::Arr(p.real.iter().map(|x| s(*x)).collect())),
        ("stub_components".into(), J::Arr(p.stub.iter().map(|x| s(*x)).collect())),
        ("workers".into(), J::Int(workers() as i128)),
    ];
    if !matches!(bad, J::Null) {
        cov.push(("violation".into(), bad.clone()));
    }
    let j = J::Obj(vec![
        ("property".into(), s(p.id)),
        ("tier".into(), s(tier_name())),
        ("seed".into(), J::Int(seed as i128)),
        ("level".into(), s("exploration")),
        ("coverage".into(), J::Obj(cov)),
        ("assumptions".into(), J::Arr(p.assume.iter().map(|x| s(*x)).collect())),
        ("wall_s".into(), J::Num(wall)),
        ("violations".into(), J::Int(if matches!(bad, J::Null) { 0 } else { 1 })),
    ]);
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), j.text()).expect("evidence file");
}

/// Re-executes a replay file. Exit 1 if the recorded violation happens again.
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let Some(j) = std::fs::read_to_string(path).ok().and_then(|t| json::parse(&t)) else {
        eprintln!("cannot read {path}");
        return 3;
    };
    let id = j.get("property").map(|x| x.str()).unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 3;
    };
    set_tier(&j.get("tier").map(|x| x.str()).unwrap_or_default());
    let ch: Vec<u64> = j.get("choices").map(|x| x.arr()).unwrap_or_default().iter().map(|x| x.int() as u64).collect();
    let base = base_dir();
    let b = Bufs::new(format!("{base}/main/"));
    let (o, _) = exec(p, 0, Some(ch), true, &b);
    let _ = std::fs::remove_dir_all(&base);
    for l in &o.trace {
        println!("{l}");
    }
    match o.violation {
        None => {
            println!("no violation (hash {:#x})", o.hash);
            0
        }
        Some((c, m)) => {
            println!("{c}: {m}\nexec hash {:#x}", o.hash);
            let same = c == j.get("class").map(|x| x.str()).unwrap_or_default()
                && (c == "hang" || c == "crash" || format!("{:#x}", o.hash) == j.get("exec_hash").map(|x| x.str()).unwrap_or_default());
            if same {
                1
            } else {
                println!("differs from the recorded violation");
                2
            }
        }
    }
}

pub fn one(p: &Prop, seed: u64, idx: u64) -> i32 {
    let base = base_dir();
    let b = Bufs::new(format!("{base}/main/"));
    let (o, ch) = exec(p, choice::run_seed(seed, p.id, idx), None, true, &b);
    let _ = std::fs::remove_dir_all(&base);
    for l in &o.trace {
        println!("{l}");
    }
    println!("choices {} hash {:#x}\nnotes {:?}", ch.len(), o.hash, o.notes);
    match o.violation {
        None => 0,
        Some((c, m)) => {
            println!("{c}: {m}");
            1
        }
    }
}

/// Digest of n runs, to compare repetitions and worker counts.
pub fn digest(p: &Prop, seed: u64, n: u64) -> i32 {
    let base = base_dir();
    let r = batch(p, seed, n, 1e9, &base);
    let _ = std::fs::remove_dir_all(&base);
    let mut h = 0u64;
    for x in &r.hashes {
        h = choice::mix(h ^ x);
    }
    for (k, v) in &r.notes {
        h = choice::mix(h ^ choice::hash_str(k) ^ v);
    }
    if let Some(to) = std::env::var_os("SIM_HASHES") {
        let lines: Vec<String> = r.hashes.iter().enumerate().map(|(i, x)| format!("{i} {x:#018x}\n")).collect();
        let _ = std::fs::write(to, lines.concat());
    }
    println!("{} runs {} digest {h:#018x} first_bad {:?} notes {:?}", p.id, r.runs, r.first_bad, r.notes);
    0
}

/// Restarts the program with address-space randomisation off, once.
pub fn fix_addresses() {
    if std::env::var_os("SIM_FIXED").is_some() {
        return;
    }
    unsafe {
        let cur = sys::raw(sys::SYS_PERSONALITY, 0xffffffff, 0, 0, 0, 0, 0);
        if cur < 0 || sys::raw(sys::SYS_PERSONALITY, cur as usize | 0x0040000, 0, 0, 0, 0, 0) < 0 {
            return;
        }
    }
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(std::env::args_os().skip(1)).env("SIM_FIXED", "1");
    let e = c.exec();
    eprintln!("exec: {e}");
}
