//! C03, C04: CSV export under faults, crashes and concurrency.

use crate::choice::{chance, choose, pick, range, Rng};
use crate::elem::{S32, S64};
use crate::ensure;
use crate::io::{self, Hard};
use crate::orch::scratch;
use crate::rt::{self, bump, fail, hash_event, trace};
use crate::sys;
use crate::Prop;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use std::fmt::Display;

const REAL: &[&str] = &[
    "renplex Matrix/Dataset export and element formatting (compiled from /repo)",
    "std::fs / std::io on the kernel's file system (scratch directory)",
    "OS threads",
];
const STUB: &[&str] = &[
    "libc open/write/close/fsync/rename entry points: forward to the kernel or answer with the chosen fault",
    "process crash: all exporting threads stop at a chosen call that changes files, before it, after it or (writes) after part of its bytes",
    "thread scheduling: baton scheduler driven by the choice stream",
];

pub const C03: Prop = Prop {
    id: "C03",
    run: run_c03,
    quick: 100000,
    thorough: 800000,
    rule: "Tables (matrix or data batch, six element types, special values, shapes, spare capacity, old file content) and one fault plan are drawn from the seed: an error at a chosen system call, a disk-full byte offset, a failing open or a bad path, with short and interrupted writes mixed in.",
    real: REAL,
    stub: STUB,
    assume: &["Matrices have at least one column and data points at least one input value.", "NaN values read back as some NaN."],
};

pub const C04: Prop = Prop {
    id: "C04",
    run: run_c04,
    quick: 20000,
    thorough: 300000,
    rule: "One to four exports, sequential or concurrent, to different paths with drawn old contents; optional crash before, after or (writes) inside a chosen call that changes files; the target files are inspected after every system call that can change them.",
    real: REAL,
    stub: STUB,
    assume: &["A crash loses nothing the kernel already accepted (process crash, not power failure).", "Exports go to different paths."],
};

pub trait ExpElem: Display + Copy + 'static {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
    /// does the field text read back as this value?
    fn reads_back(&self, t: &str) -> bool;
    fn mat_csv(m: &Matrix<Self>, p: String) -> std::io::Result<()>;
    fn set_csv(m: &Dataset<Self, Self>, p: String) -> std::io::Result<()>;
}

macro_rules! fl {
    ($t:ty, $bits:ty) => {
        impl ExpElem for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng) -> $t {
                match r.below(16) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => <$t>::NAN,
                    3 => <$t>::INFINITY,
                    4 => <$t>::NEG_INFINITY,
                    5 => <$t>::MIN_POSITIVE / 8.0,
                    6 => <$t>::MAX,
                    7 => -1.0,
                    8 => r.below(1000) as $t,
                    9 | 10 => loop {
                        let v = <$t>::from_bits(r.next() as $bits);
                        if v.is_finite() {
                            break v;
                        }
                    },
                    _ => (r.sym() * 10.0) as $t,
                }
            }
            fn reads_back(&self, t: &str) -> bool {
                match t.parse::<$t>() {
                    Ok(v) => v == *self || (v.is_nan() && self.is_nan()),
                    Err(_) => false,
                }
            }
            fn mat_csv(m: &Matrix<$t>, p: String) -> std::io::Result<()> {
                m.to_csv(p)
            }
            fn set_csv(m: &Dataset<$t, $t>, p: String) -> std::io::Result<()> {
                m.to_csv(p)
            }
        }
    };
}
fl!(f32, u32);
fl!(f64, u64);

macro_rules! cx {
    ($t:ty, $p:ty, |$v:ident| $x:expr, $y:expr, $mk:expr) => {
        impl ExpElem for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng) -> $t {
                let (a, b) = (<$p as ExpElem>::gen(r), <$p as ExpElem>::gen(r));
                $mk(a, b)
            }
            fn reads_back(&self, t: &str) -> bool {
                let Some(t) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')) else { return false };
                let parts: Vec<&str> = t.split(' ').collect();
                let $v = self;
                parts.len() == 2 && <$p as ExpElem>::reads_back(&$x, parts[0]) && <$p as ExpElem>::reads_back(&$y, parts[1])
            }
            fn mat_csv(m: &Matrix<$t>, p: String) -> std::io::Result<()> {
                m.to_csv(p)
            }
            fn set_csv(m: &Dataset<$t, $t>, p: String) -> std::io::Result<()> {
                m.to_csv(p)
            }
        }
    };
}
cx!(Cf32, f32, |v| v.x, v.y, |a, b| Cf32 { x: a, y: b });
cx!(Cf64, f64, |v| v.x, v.y, |a, b| Cf64 { x: a, y: b });
cx!(S32, f32, |v| v.0.x, v.0.y, |a, b| S32(Cf32 { x: a, y: b }));
cx!(S64, f64, |v| v.0.x, v.0.y, |a, b| S64(Cf64 { x: a, y: b }));

enum Body<T> {
    Mat(Matrix<T>),
    Set(Dataset<T, T>),
}

struct Data<T> {
    body: Body<T>,
    rows: Vec<Vec<T>>,
}

impl<T: ExpElem> Data<T> {
    fn gen(big: bool) -> Data<T> {
        let mut r = Rng::drawn();
        let mut rows: Vec<Vec<T>> = vec![];
        if choose(2) == 0 {
            let (h, w) = match big {
                true if chance(1, 6) => pick(&[(1usize, 3000usize), (2500, 1), (300, 40), (1025, 3), (4, 1025)]),
                true => (range(20, 120), range(5, 40)),
                false => (choose(6), range(1, 6)),
            };
            for _ in 0..h {
                rows.push((0..w).map(|_| T::gen(&mut r)).collect());
            }
            // exact storage, or a table grown inside a larger capacity
            let m = if chance(1, 3) {
                let cap = [h + 1 + choose(3), w + choose(4)];
                let mut m = Matrix::with_capacity(cap);
                for row in &rows {
                    if m.add_row(row.clone()).is_err() {
                        m = Matrix::from_body(rows.concat(), [h, w]);
                        break;
                    }
                }
                if rows.is_empty() && choose(2) == 0 {
                    Matrix::from_body(vec![], [0, w])
                } else {
                    m
                }
            } else {
                Matrix::from_body(rows.concat(), [h, w])
            };
            Data { body: Body::Mat(m), rows }
        } else {
            let n = if big { pick(&[range(20, 100), range(20, 100), 130, 260, 513]) } else { choose(6) };
            let mut d = Dataset::new();
            let uniform = chance(1, 2);
            let (mut a, mut b) = (range(1, if big { 30 } else { 6 }), choose(5));
            for _ in 0..n {
                if !uniform {
                    a = 1 + r.below(6) as usize;
                    b = r.below(5) as usize;
                }
                let x: Vec<T> = (0..a).map(|_| T::gen(&mut r)).collect();
                let y: Vec<T> = (0..b).map(|_| T::gen(&mut r)).collect();
                let mut row = x.clone();
                row.extend(y.iter().copied());
                d.add_point((IOType::Scalar(x), IOType::Scalar(y)));
                rows.push(row);
            }
            Data { body: Body::Set(d), rows }
        }
    }
    fn export(&self, p: &str) -> std::io::Result<()> {
        match &self.body {
            Body::Mat(m) => T::mat_csv(m, p.to_string()),
            Body::Set(d) => T::set_csv(d, p.to_string()),
        }
    }
    fn what(&self) -> String {
        format!(
            "{} of {} with {} rows",
            if matches!(self.body, Body::Mat(_)) { "matrix" } else { "data batch" },
            T::NAME,
            self.rows.len()
        )
    }
    /// Complains if the bytes are not this table.
    fn compare(&self, bytes: &[u8]) -> Result<(), String> {
        let t = std::str::from_utf8(bytes).map_err(|_| "the file is not text".to_string())?;
        if !t.is_empty() && !t.ends_with('\n') {
            return Err("the last line is not terminated".into());
        }
        let lines: Vec<&str> = t.lines().collect();
        if lines.len() != self.rows.len() {
            return Err(format!("{} lines for {} rows", lines.len(), self.rows.len()));
        }
        for (i, (l, row)) in lines.iter().zip(&self.rows).enumerate() {
            let l = l.strip_suffix(',').unwrap_or(l);
            let f: Vec<&str> = l.split(',').collect();
            if f.len() != row.len() {
                return Err(format!("line {i} has {} values instead of {}", f.len(), row.len()));
            }
            for (j, (f, v)) in f.iter().zip(row).enumerate() {
                if !v.reads_back(f) {
                    return Err(format!("line {i}, value {j}: wrote '{f}' for {v}"));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C03

fn run_c03() {
    match choose(6) {
        0 => c03::<f32>(),
        1 => c03::<Cf32>(),
        2 => c03::<f64>(),
        3 => c03::<Cf64>(),
        4 => c03::<S32>(),
        _ => c03::<S64>(),
    }
}

fn c03<T: ExpElem>() {
    let dir = scratch();
    io::io().root = dir.clone();
    rt::solo(move || {
        let n = pick(&[1usize, 1, 2, 3]);
        let name = export_name();
        let _ = std::fs::create_dir(format!("{dir}sub"));
        let path = if chance(1, 4) {
            // relative to the working directory
            std::env::set_current_dir(&dir).unwrap();
            name.to_string()
        } else {
            format!("{dir}{name}")
        };
        for k in 0..n {
            if chance(1, 2) {
                let old = old_content(20_000);
                std::fs::write(&path, &old).unwrap();
            } else if chance(1, 4) {
                let _ = std::fs::remove_file(&path);
            }
            c03_one::<T>(&dir, &path, k);
        }
    });
}

/// File names a caller may choose.
fn export_name() -> &'static str {
    pick(&[
        "out.csv",
        "out",
        "out.txt",
        "out.CSV",
        "a b, c.csv",
        "\u{fc}n\u{ef}c\u{f6}de.csv",
        ".hidden",
        "a.b.c",
        "out.csv.tmp",
        "out.",
        "x",
        "\"quoted\"",
        "dot..dot",
        "out.csv ",
        " out.csv",
        " ",
        "out\t.csv",
        "out\n.csv",
        "100%.csv",
        "%s%n.csv",
        "~out.csv",
        "$HOME.csv",
        "-out.csv",
        "a*?.csv",
        "C:out.csv",
        "back\\slash.csv",
        "./out.csv",
        "sub/out.csv",
        "sub/../out.csv",
        "sub//out.csv",
        "sub/out",
        "con",
        "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789.csv",
    ])
}

fn c03_one<T: ExpElem>(dir: &str, path: &str, k: usize) {
    let data = Data::<T>::gen(chance(1, 12));
    // a clean export tells how many calls and bytes there are to disturb
    let dry = format!("{dir}dry.csv");
    io::plan(0, Hard::None);
    let r = rt::sut(|| data.export(&dry));
    let (calls, bytes, opens) = (io::io().calls, io::io().bytes, io::io().opens);
    match r {
        Err(e) => fail("panic", format!("export of a {} panicked: {e}", data.what())),
        Ok(Err(e)) => fail("spurious-error", format!("undisturbed export of a {} failed: {e}", data.what())),
        Ok(Ok(())) => {}
    }
    if let Err(e) = data.compare(&std::fs::read(&dry).unwrap_or_default()) {
        fail("wrong-file", format!("undisturbed export of a {}: {e}", data.what()));
    }
    let benign = pick(&[0u64, 1, 3, 10]);
    let mut target = path.to_string();
    let mut must_fail = false;
    let hard = match choose(6) {
        0 => Hard::None,
        1 | 2 if calls > 0 => Hard::AtCall {
            n: choose(calls as usize) as u64,
            errno: pick(&[sys::EIO, sys::ENOSPC, sys::EDQUOT, 27, 1, 9, 12, 22, 32, sys::ETIMEDOUT, 116, 6, 104]),
            sticky: chance(1, 2),
        },
        3 if bytes > 0 => Hard::AfterBytes { n: choose(bytes as usize) as u64, errno: pick(&[sys::ENOSPC, sys::EDQUOT, 27]) },
        4 if opens > 0 => {
            Hard::AtOpen { n: choose(opens as usize) as u64, errno: pick(&[sys::EACCES, sys::EMFILE, sys::ENOSPC, sys::EROFS, 23, 1, 2, 21, 26, 36, 40, 12, 17, 122]) }
        }
        5 => {
            must_fail = true;
            bump("fault_bad_path");
            match choose(6) {
                0 | 1 => target = format!("{dir}no/such/dir/out.csv"),
                2 => target = format!("{dir}{}", "x".repeat(300)),
                3 => target = format!("{dir}out.csv/"),
                4 => target = String::new(),
                _ => {
                    target = format!("{dir}adir");
                    let _ = std::fs::create_dir(&target);
                }
            }
            hash_event(0x33, 0);
            Hard::None
        }
        _ => Hard::None,
    };
    trace(|| format!("export {k}: {}, {calls} calls, {bytes} bytes, benign faults every ~{benign}, {hard:?}, path {}", data.what(), target.strip_prefix(dir).unwrap_or(&target)));
    io::plan(benign, hard);
    if chance(1, 12) {
        io::slow_device();
    }
    let r = rt::sut(|| data.export(&target));
    let hit = io::io().hard_hit;
    io::plan(0, Hard::None);
    bump("checks");
    hash_event(0x30, calls << 16 | hit as u64);
    match r {
        Err(e) => fail("panic", format!("export of a {} panicked: {e} ({hard:?})", data.what())),
        Ok(Err(e)) => {
            bump("exports_refused");
            ensure!(
                hit || must_fail,
                "spurious-error",
                "export of a {} reported '{e}' although nothing was refused",
                data.what()
            );
        }
        Ok(Ok(())) => {
            bump("exports_ok");
            ensure!(!must_fail, "false-success", "export to a path that cannot be written reported success");
            ensure!(
                !hit,
                "false-success",
                "export of a {} reported success although the operating system refused a call ({hard:?})",
                data.what()
            );
            let b = std::fs::read(&target).unwrap_or_default();
            if let Err(e) = data.compare(&b) {
                fail("wrong-file", format!("export of a {} reported success: {e}", data.what()));
            }
        }
    }
}

fn old_content(max: usize) -> Vec<u8> {
    let mut r = Rng::drawn();
    let n = match choose(3) {
        0 => r.below(40),
        1 => r.below(600),
        _ => r.below(max as u64),
    };
    (0..n).map(|i| if i % 9 == 8 { b'\n' } else { b'0' + r.below(10) as u8 }).collect()
}

// ------------------------------------------------------------------------ C04

struct Target {
    name: String,
    path: String,
    old: Option<Vec<u8>>,
    new: Vec<u8>,
}

static mut TARGETS: Vec<Target> = Vec::new();
static mut BYSTANDERS: Vec<(String, Vec<u8>)> = Vec::new();
static mut PROBES: u64 = 0;

fn targets() -> &'static mut Vec<Target> {
    unsafe { &mut *std::ptr::addr_of_mut!(TARGETS) }
}

/// Looks at all files; called after every call that may have changed one.
fn inspect(name: &str) {
    bump("file_states_inspected");
    unsafe { PROBES += 1 };
    let sweep = unsafe { PROBES % 8 == 1 };
    let known = targets().iter().any(|t| t.name == name);
    for t in targets().iter() {
        if known && !sweep && t.name != name {
            continue;
        }
        let cur = std::fs::read(&t.path).ok();
        if cur == t.old {
            continue;
        }
        match cur {
            None => fail("lost-file", format!("{}: the old content is gone and there is no file", t.name)),
            Some(c) => {
                if !t.new.starts_with(&c) {
                    let d = c.iter().zip(&t.new).position(|(a, b)| a != b).unwrap_or(t.new.len());
                    fail(
                        "bad-file-state",
                        format!(
                            "{}: {} bytes, neither the old content nor a leading part of the new content (differs at byte {d} of {})",
                            t.name,
                            c.len(),
                            t.new.len()
                        ),
                    );
                }
            }
        }
    }
    if sweep {
        bystanders();
    }
}

fn bystanders() {
    for (p, b) in unsafe { (*std::ptr::addr_of!(BYSTANDERS)).iter() } {
        let c = std::fs::read(p).ok();
        ensure!(c.as_ref() == Some(b), "bystander-touched", "an unrelated file was changed: {p}");
    }
}

struct Ptr<T>(*const T);
impl<T> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        Ptr(self.0)
    }
}
impl<T> Ptr<T> {
    fn get(&self) -> &T {
        unsafe { &*self.0 }
    }
}

fn run_c04() {
    match choose(6) {
        0 => c04::<f32>(),
        1 => c04::<Cf32>(),
        2 => c04::<f64>(),
        3 => c04::<Cf64>(),
        4 => c04::<S32>(),
        _ => c04::<S64>(),
    }
}

fn c04<T: ExpElem>() {
    let dir = scratch();
    io::io().root = dir.clone();
    let n = pick(&[1usize, 2, 3, 4]);
    let mut datas: Vec<&'static Data<T>> = vec![];
    for i in 0..n {
        let d: &'static Data<T> = if i > 0 && chance(1, 3) { datas[0] } else { Box::leak(Box::new(Data::gen(chance(1, 40)))) };
        datas.push(d);
    }
    // what each export leaves when it is alone
    io::plan(0, Hard::None);
    let news: &'static mut Vec<Vec<u8>> = Box::leak(Box::new(vec![]));
    {
        let datas = datas.clone();
        let dir = dir.clone();
        let out = news as *mut Vec<Vec<u8>>;
        rt::solo(move || {
            for (i, d) in datas.iter().enumerate() {
                let p = format!("{dir}ref{i}.csv");
                match rt::sut(|| d.export(&p)) {
                    Ok(Ok(())) => {}
                    x => fail("spurious-error", format!("undisturbed export failed: {x:?}")),
                }
                let b = std::fs::read(&p).unwrap_or_default();
                if let Err(e) = d.compare(&b) {
                    fail("wrong-file", format!("undisturbed export of a {}: {e}", d.what()));
                }
                unsafe { (*out).push(b) };
            }
        });
    }
    let muts = io::io().muts;
    // names that are prefixes of each other, share stems or extensions
    let family: [&str; 4] = pick(&[
        ["out0.csv", "out1.csv", "out2.csv", "out3.csv"],
        ["a", "a.csv", "a.csv.bak", "ab.csv"],
        ["a.csv", "a.txt", "a.tmp", "a"],
        ["a.csv", "a.csv.tmp", ".a.csv", "a.csv~"],
        ["a", "b", "a.tmp", "b.tmp"],
        ["out.new", "out.old", "out.bak", "out.part"],
        ["x.csv", "x.CSV", "X.csv", "x.csv.lock"],
        ["x.csv", "x.csv ", " x.csv", "x .csv"],
        ["s/x.csv", "x.csv", "s/x", "t/x.csv"],
        ["s/a", "s/b", "s/a.tmp", "t/a"],
    ]);
    for sub in ["s", "t"] {
        let _ = std::fs::create_dir(format!("{dir}{sub}"));
    }
    let relative = chance(1, 4);
    if relative {
        std::env::set_current_dir(&dir).unwrap();
    }
    for i in 0..n {
        let name = family[i].to_string();
        let path = if relative { name.clone() } else { format!("{dir}{name}") };
        let new = news[i].clone();
        let old = match choose(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(old_content(3000)),
            3 => {
                let k = choose(new.len() + 1);
                Some(new[..k].to_vec())
            }
            4 => {
                let mut o = new.clone();
                o.extend_from_slice(&old_content(500));
                Some(o)
            }
            _ => Some(news[(i + 1) % n].clone()),
        };
        if let Some(o) = &old {
            std::fs::write(&path, o).unwrap();
        }
        trace(|| format!("T{i}: export a {} ({} bytes) to {name}, old content {:?} bytes", datas[i].what(), new.len(), old.as_ref().map(|o| o.len())));
        targets().push(Target { name, path, old, new });
    }
    // files with names an export might be tempted to use for itself
    let mut others: Vec<String> = ["other.csv", "tmp", "temp.csv", "export.tmp"].map(String::from).into();
    for t in targets().iter() {
        let (sub, base) = t.name.rsplit_once('/').map_or(("", t.name.as_str()), |(d, _)| t.name.split_at(d.len() + 1));
        let stem = base.rsplit_once('.').map_or(base, |x| x.0);
        for k in ["tmp", "bak", "part", "new", "old", "lock", "swp", "temp", "partial"] {
            others.push(format!("{sub}{base}.{k}"));
            others.push(format!("{sub}{stem}.{k}"));
            others.push(format!("{sub}.{base}.{k}"));
        }
        others.push(format!("{sub}{base}~"));
        others.push(format!("{sub}.{base}"));
        others.push(format!("{sub}{base}.csv"));
        others.push(format!("{sub}{stem}.csv"));
        others.push(format!("{sub}tmp_{base}"));
        others.push(format!("{sub}{base}.1"));
        others.push(base.to_string());
        others.push(base.trim().to_string());
        others.push(format!("t/{base}"));
    }
    others.retain(|o| !o.starts_with("..") && targets().iter().all(|t| t.name != *o));
    for _ in 0..choose(6) {
        let p = format!("{dir}{}", others[choose(others.len())]);
        if unsafe { (*std::ptr::addr_of!(BYSTANDERS)).iter().any(|b| b.0 == p) } {
            continue;
        }
        let b = old_content(200);
        std::fs::write(&p, &b).unwrap();
        unsafe { (*std::ptr::addr_of_mut!(BYSTANDERS)).push((p, b)) };
    }
    rt::set_preemption(pick(&[1u64, 2, 5, 20]), chance(1, 3));
    let crash = choose(3) > 0 && muts > 0;
    let hard = if crash {
        // the first calls are the rare ones: favour them and the last ones
        let k = match choose(4) {
            0 => choose(muts.min(4) as usize),
            1 => muts as usize - 1 - choose(muts.min(3) as usize),
            _ => choose(muts as usize),
        };
        Hard::CrashAt { n: k as u64, torn: pick(&[0u64, 256, 128, 1, 255, 64]) }
    } else {
        Hard::None
    };
    let benign = pick(&[0u64, 1, 4, 20]);
    trace(|| format!("benign faults every ~{benign} calls, {hard:?}"));
    io::plan(benign, hard);
    // (every call is followed by an inspection)
    if chance(1, 25) && targets().iter().map(|t| t.new.len()).sum::<usize>() < 800 {
        io::slow_device();
    }
    io::io().monitor = Some(inspect);
    let done: &'static mut Vec<bool> = Box::leak(Box::new(vec![false; n]));
    let dptr = done as *mut Vec<bool>;
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for i in 0..n {
        let d = Ptr(datas[i] as *const Data<T>);
        let path = targets()[i].path.clone();
        tasks.push(Box::new(move || {
            match rt::sut(|| d.get().export(&path)) {
                Ok(Ok(())) => {}
                x => fail("spurious-error", format!("export failed without a refusal: {x:?}")),
            }
            unsafe { (&mut *dptr)[i] = true };
            after(i);
        }));
    }
    rt::run_tasks(tasks);
    io::io().monitor = None;
    inspect("");
    bystanders();
    hash_event(0x40, n as u64);
    let crashed = io::io().crashed;
    for i in 0..n {
        if done[i] {
            after(i);
        } else {
            ensure!(crashed, "lost-export", "an export ended without returning");
        }
    }
    if crashed {
        // restart: export again what was interrupted
        bump("restarts_after_crash");
        rt::restarted();
        io::plan(0, Hard::None);
        let datas = datas.clone();
        let redo: Vec<usize> = (0..n).filter(|i| !done[*i]).collect();
        rt::solo(move || {
            for i in redo {
                match rt::sut(|| datas[i].export(&targets()[i].path)) {
                    Ok(Ok(())) => {}
                    x => fail("no-recovery", format!("export after a crash failed: {x:?}")),
                }
                after(i);
            }
        });
    }
    bystanders();
}

fn after(i: usize) {
    let t = &targets()[i];
    let c = std::fs::read(&t.path).unwrap_or_default();
    bump("checks");
    if c != t.new {
        let d = c.iter().zip(&t.new).position(|(a, b)| a != b).unwrap_or(c.len().min(t.new.len()));
        fail(
            "wrong-file",
            format!("{}: {} bytes after a finished export, alone it leaves {} (first difference at byte {d})", t.name, c.len(), t.new.len()),
        );
    }
}
