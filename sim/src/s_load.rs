//! C01, C02: batch loading of image/label files.

use crate::choice::{chance, choose, pick, range, Rng};
use crate::elem::{Elem, S32, S64};
use crate::ensure;
use crate::io::{self, Hard};
use crate::orch::scratch;
use crate::rt::{self, bump, fail, hash_event, trace};
use crate::sys;
use crate::Prop;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;

const REAL: &[&str] = &[
    "renplex dataset loaders, Matrix, one-hot encoder, element types (compiled from /repo)",
    "std::fs::File / std::io on the kernel's file system (scratch directory)",
    "OS threads",
];
const STUB: &[&str] = &[
    "libc read/open/close entry points: forward to the kernel or answer with the chosen fault",
    "thread scheduling: baton scheduler driven by the choice stream",
    "rayon-core: simulated (not used by this code today)",
];

pub const C01: Prop = Prop {
    id: "C01",
    run: run_c01,
    quick: 40000,
    thorough: 900000,
    rule: "Files, batch sizes, element types, number of concurrent and interleaved loads, short and interrupted reads and thread switches are drawn from the seed.",
    real: REAL,
    stub: STUB,
    assume: &["Files are regular files whose content does not change during the load.", "Pixel values may differ from byte/255 by 1e-6."],
};

pub const C02: Prop = Prop {
    id: "C02",
    run: run_c02,
    quick: 100000,
    thorough: 2000000,
    rule: "As C01, plus one of: an I/O error at a chosen read call, either file cut at a chosen byte, different record counts, invalid labels at chosen records.",
    real: REAL,
    stub: STUB,
    assume: &["Nothing is demanded of a load after one of its calls failed.", "Pixel values may differ from byte/255 by 1e-6."],
};

trait LoadElem: Sized + 'static {
    const NAME: &'static str;
    fn load(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Self, Self>;
    fn val(&self) -> (f64, f64);
}

macro_rules! real {
    ($t:ty) => {
        impl LoadElem for $t {
            const NAME: &'static str = stringify!($t);
            fn load(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<$t, $t> {
                Dataset::<$t, $t>::minist_as_batch(d, l, n, t)
            }
            fn val(&self) -> (f64, f64) {
                (*self as f64, 0.0)
            }
        }
    };
}
real!(f32);
real!(f64);

macro_rules! complex {
    ($t:ty) => {
        impl LoadElem for $t {
            const NAME: &'static str = stringify!($t);
            fn load(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<$t, $t> {
                Dataset::<$t, $t>::minist_as_complex_batch(d, l, n, t)
            }
            fn val(&self) -> (f64, f64) {
                self.parts()
            }
        }
    };
}
complex!(Cf32);
complex!(Cf64);
complex!(S32);
complex!(S64);

#[derive(Clone)]
pub struct Files {
    pub img: String,
    pub lab: String,
    seed: u64,
    look: usize,
    labels: Vec<u8>,
    /// records complete in both files
    avail: usize,
}

/// What the images of a file look like: mostly all different, sometimes blank, plain or repeated.
const LOOKS: &[usize] = &[0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5];

fn pixel(seed: u64, look: usize, rec: usize, i: usize) -> u8 {
    let style = crate::choice::mix(seed ^ rec as u64 * 0x9e37);
    let rec = match look {
        1 if style % 3 == 0 => return [0, 255, (style >> 8) as u8][(style >> 4) as usize % 3],
        2 => rec / 2,
        3 => 0,
        4 => return 0,
        5 if style % 2 == 0 && i != (style >> 8) as usize % 784 => return 0,
        _ => rec,
    };
    let r = Rng(seed ^ (rec as u64) << 20).next();
    // recognisable: record number in the first two pixels, extremes elsewhere
    match i {
        0 => rec as u8,
        1 => (rec >> 8) as u8,
        _ => {
            let v = crate::choice::mix(r.wrapping_add((i / 8) as u64)) >> (8 * (i % 8));
            match v & 0xff {
                0..=7 => 0,
                8..=15 => 255,
                b => b as u8,
            }
        }
    }
}

pub fn make_files(name: &str, n_img: usize, n_lab: usize, bad: &[(usize, u8)], cut: Option<(bool, usize)>) -> Files {
    let dir = scratch();
    let mut r = Rng::drawn();
    let seed = r.next();
    let look = if chance(1, 3) { pick(LOOKS) } else { 0 };
    let mut labels: Vec<u8> = (0..n_lab).map(|_| r.below(10) as u8).collect();
    if look > 0 && r.below(2) == 0 {
        // long stretches of one label
        let step = 1 + r.below(9) as usize;
        let first = r.below(10) as usize;
        for (k, l) in labels.iter_mut().enumerate() {
            *l = ((first + k / (3 * step)) % 10) as u8;
        }
    }
    for (i, v) in bad {
        if *i < n_lab {
            labels[*i] = *v;
        }
    }
    let mut img: Vec<u8> = (0..16).map(|_| r.next() as u8).collect();
    for k in 0..n_img {
        for i in 0..784 {
            img.push(pixel(seed, look, k, i));
        }
    }
    let mut lab: Vec<u8> = (0..8).map(|_| r.next() as u8).collect();
    lab.extend_from_slice(&labels);
    match cut {
        Some((true, at)) => img.truncate(at),
        Some((false, at)) => lab.truncate(at),
        None => {}
    }
    let ci = img.len().saturating_sub(16) / 784;
    let cl = lab.len().saturating_sub(8);
    let f = Files { img: format!("{dir}{name}.img"), lab: format!("{dir}{name}.lab"), seed, look, labels, avail: ci.min(cl) };
    File::create(&f.img).unwrap().write_all(&img).unwrap();
    File::create(&f.lab).unwrap().write_all(&lab).unwrap();
    f
}

/// One load: open handles and the caller's tracker.
struct Load {
    id: usize,
    files: Files,
    img: File,
    lab: File,
    tracker: usize,
    pos: usize,
    ty: usize,
    sizes: Vec<usize>,
    call: usize,
    epochs: usize,
    /// a batch begins at this record
    edge: usize,
    /// the next pass opens the files again
    reopen: bool,
    /// calls still to make after the data is used up
    tail: usize,
    hard: bool,
}

fn open(f: &Files, id: usize, ty: usize, sizes: Vec<usize>, epochs: usize, hard: bool) -> Load {
    let img = File::open(&f.img).unwrap();
    let lab = File::open(&f.lab).unwrap();
    io::register(img.as_raw_fd(), &format!("images{id}"));
    io::register(lab.as_raw_fd(), &format!("labels{id}"));
    Load { id, files: f.clone(), img, lab, tracker: 0, pos: 0, ty, sizes, call: 0, epochs, edge: 0, reopen: epochs > 1 && chance(1, 2), tail: 2, hard }
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6
}

/// Makes one call; false when the load is over.
fn step<T: LoadElem>(l: &mut Load) -> bool {
    let mut want = l.sizes[l.call % l.sizes.len()];
    if l.tail < 2 && want == 0 {
        want = 1;
    }
    if l.pos < l.edge {
        want = want.min(l.edge - l.pos);
    }
    l.call += 1;
    let faults_before = hits(l.id);
    let before = l.pos;
    let r = rt::sut(|| T::load(&mut l.img, &mut l.lab, want, &mut l.tracker));
    let struck = hits(l.id) > faults_before;
    let left = l.files.avail - before;
    let upto = before + want.min(left);
    let invalid = (before..upto).find(|i| l.files.labels[*i] > 9);
    hash_event(0x10 + l.id as u64, (want as u64) << 32 | before as u64);
    trace(|| {
        format!(
            "{}: load{} <{}> batch of {want} at record {before} of {} -> {}",
            rt::tname(),
            l.id,
            T::NAME,
            l.files.avail,
            match &r {
                Ok(d) => format!("{} points", d.get_n_points()),
                Err(e) => format!("failed: {e}"),
            }
        )
    });
    bump("checks");
    let d = match r {
        Err(e) => {
            bump("calls_failed");
            if struck || invalid.is_some() {
                return false;
            }
            fail("spurious-failure", format!("load{} failed without a reason: {e}", l.id));
        }
        Ok(d) => d,
    };
    bump("calls_ok");
    ensure!(
        !struck,
        "error-swallowed",
        "load{}: the operating system reported an error during the call, but it returned {} points",
        l.id,
        d.get_n_points()
    );
    let got = d.get_n_points();
    ensure!(got <= want, "too-many", "load{}: {got} points returned, {want} requested", l.id);
    ensure!(
        got <= left,
        "invented-records",
        "load{}: {got} points returned, only {left} complete records were left (at record {before})",
        l.id
    );
    for k in 0..got {
        let rec = before + k;
        let (x, y) = d.get_point(k);
        let IOType::Matrix(maps) = x else { fail("wrong-form", "an image is not a matrix") };
        ensure!(maps.len() == 1, "wrong-form", "an image has {} maps", maps.len());
        let sh = maps[0].get_shape();
        ensure!(sh[0] == 28 && sh[1] == 28, "wrong-form", "image shape {}x{}", sh[0], sh[1]);
        let body = maps[0].get_body();
        ensure!(body.len() == 784, "wrong-form", "image with {} pixels", body.len());
        for (i, v) in body.iter().enumerate() {
            let (re, im) = v.val();
            let e = pixel(l.files.seed, l.files.look, rec, i) as f64 / 255.0;
            if !near(re, e) || !near(im, 0.0) {
                fail(
                    "wrong-image",
                    format!("load{}: record {rec}, pixel {i}: got {re}+{im}i, file has {} ({e})", l.id, pixel(l.files.seed, l.files.look, rec, i)),
                );
            }
        }
        let IOType::Scalar(t) = y else { fail("wrong-form", "a label is not a vector") };
        ensure!(t.len() == 10, "wrong-form", "label vector of length {}", t.len());
        let lab = l.files.labels[rec];
        ensure!(lab < 10, "invalid-label-delivered", "load{}: record {rec} has label {lab} and was delivered", l.id);
        for (i, v) in t.iter().enumerate() {
            let (re, im) = v.val();
            let e = if i == lab as usize { 1.0 } else { 0.0 };
            if !near(re, e) || !near(im, 0.0) {
                fail("wrong-label", format!("load{}: record {rec} has label {lab}, got one-hot element {i} = {re}+{im}i", l.id));
            }
        }
    }
    bump_points(got);
    l.pos += got;
    if got == 0 && want > 0 {
        ensure!(
            left == 0,
            "records-lost",
            "load{}: empty batch at record {before} although {} complete records exist{}",
            l.id,
            l.files.avail,
            if invalid.is_some() { " (the next one has an invalid label)" } else { "" }
        );
        if l.tail > 0 {
            l.tail -= 1;
        } else if l.epochs > 1 {
            // next pass
            l.epochs -= 1;
            if l.reopen {
                // descriptors of the closed files are given out again
                let (i, b) = (&l.files.img, &l.files.lab);
                l.img = File::open("/dev/null").unwrap();
                l.lab = File::open("/dev/null").unwrap();
                if l.call % 2 == 0 {
                    l.img = File::open(i).unwrap();
                    l.lab = File::open(b).unwrap();
                } else {
                    l.lab = File::open(b).unwrap();
                    l.img = File::open(i).unwrap();
                }
                io::register(l.img.as_raw_fd(), &format!("images{}", l.id));
                io::register(l.lab.as_raw_fd(), &format!("labels{}", l.id));
                bump("files_reopened");
            } else {
                l.img.seek(SeekFrom::Start(0)).unwrap();
                l.lab.seek(SeekFrom::Start(0)).unwrap();
            }
            l.tracker = 0;
            l.pos = 0;
            l.tail = 2;
            bump("second_passes");
        } else {
            return false;
        }
    }
    l.call < 60 + 4 * l.files.avail * l.epochs.max(1)
}

fn bump_points(n: usize) {
    rt::bump_by("records_delivered", n as u64);
}

/// Errors injected so far into this load.
fn hits(id: usize) -> u64 {
    io::hits_on(&format!("images{id}")) + io::hits_on(&format!("labels{id}"))
}

fn step_any(l: &mut Load) -> bool {
    match l.ty {
        0 => step::<f32>(l),
        1 => step::<f64>(l),
        2 => step::<Cf32>(l),
        3 => step::<Cf64>(l),
        4 => step::<S32>(l),
        _ => step::<S64>(l),
    }
}

fn sizes() -> Vec<usize> {
    (0..range(1, 4)).map(|_| pick(&[1usize, 2, 3, 0, 4, 5, 7, 10, 16, 31, 64, 100, 255, 256, 1000])).collect()
}

/// A record a batch shall begin at: round numbers of records or of records and header bytes.
fn big_edge(avail: usize) -> usize {
    let edge = if chance(2, 3) { if avail > 65_000 { 65_536usize } else { 60_000 } } else { pick(&[32_768usize, 4096, 50_000, 10_000, 1000]) };
    (edge - if chance(1, 2) { 8 } else { pick(&[0usize, 16, 7, 1, 9]) }).min(avail)
}

fn drive(mut loads: Vec<Load>) {
    let mut guard = 0;
    while !loads.is_empty() {
        let k = choose(loads.len());
        if !step_any(&mut loads[k]) {
            let l = loads.remove(k);
            ensure!(
                l.hard || l.pos == l.files.avail || l.call > 0,
                "records-lost",
                "load{} ended at record {} of {}",
                l.id,
                l.pos,
                l.files.avail
            );
            bump("loads_finished");
        }
        guard += 1;
        if guard > 20_000 {
            break;
        }
    }
}

fn launch(tasks: Vec<Vec<Load>>) {
    let mut v: Vec<Box<dyn FnOnce()>> = vec![];
    for loads in tasks {
        v.push(Box::new(move || drive(loads)));
    }
    rt::run_tasks(v);
}

fn run_c01() {
    let big = choose(400) == 1;
    let n_tasks = if big { 1 } else if chance(1, 60) { range(4, 20) } else { pick(&[1usize, 1, 2, 3]) };
    let benign = pick(&[0u64, 1, 2, 4, 10, 40]);
    rt::set_preemption(pick(&[1u64, 3, 10, 100]), chance(1, 2));
    let mut tasks = vec![];
    let mut id = 0;
    let mut shared: Option<Files> = None;
    for _ in 0..n_tasks {
        let mut loads = vec![];
        for _ in 0..if big { 1 } else { pick(&[1usize, 1, 1, 2]) } {
            let f = match &shared {
                Some(f) if chance(1, 3) => f.clone(),
                _ => {
                    let n = if big {
                        if chance(1, 2) { 65_520 + choose(24) } else { 59_990 + choose(18) }
                    } else if chance(1, 60) {
                        range(100, 600)
                    } else {
                        pick(&[1usize, 2, 3, 5, 8, 13, 0, 21, 40])
                    };
                    let extra = if chance(1, 5) { choose(3) } else { 0 };
                    let (a, b) = if chance(1, 2) { (n + extra, n) } else { (n, n + extra) };
                    make_files(&format!("f{id}"), a, b, &[], None)
                }
            };
            shared = Some(f.clone());
            let sz = if big { vec![pick(&[70000usize, 7000, 60000, 1000, 8191, 32768])] } else { sizes() };
            let epochs = if !big && chance(1, 4) { range(2, 3) } else { 1 };
            let ty = if big { pick(&[0usize, 2]) } else { choose(6) };
            trace(|| format!("load{id}: {} records, batch sizes {sz:?}, type {ty}, passes {epochs}", f.avail));
            loads.push(open(&f, id, ty, sz, epochs, false));
            if big && chance(2, 3) {
                loads[0].edge = big_edge(f.avail);
            }
            id += 1;
        }
        tasks.push(loads);
    }
    io::plan(if big { benign * 1000 } else { benign }, Hard::None);
    if !big && chance(1, 12) {
        io::slow_device();
    }
    if big {
        bump("full_size_files");
    }
    launch(tasks);
}

fn run_c02() {
    let n_tasks = pick(&[1usize, 1, 1, 2]);
    let benign = pick(&[0u64, 0, 2, 5, 20]);
    rt::set_preemption(pick(&[1u64, 5, 50]), chance(1, 2));
    let kind = choose(5);
    let mut tasks = vec![];
    let mut total = 0;
    for id in 0..n_tasks {
        let n = if chance(1, 40) { range(200, 600) } else { pick(&[1usize, 2, 3, 4, 6, 9, 0, 14]) };
        let (mut a, mut b) = (n, n);
        let mut cut = None;
        let mut bad = vec![];
        match kind {
            1 => {
                // cut at any byte, with record boundaries and headers favoured
                let img = chance(1, 2);
                let len = if img { 16 + 784 * n } else { 8 + n };
                let at = match choose(4) {
                    0 => choose(len + 1),
                    1 => choose(if img { 17 } else { 9 }).min(len),
                    2 => (if img { 16 + 784 * choose(n + 1) } else { 8 + choose(n + 1) }).min(len),
                    _ => (if img { 16 + 784 * choose(n + 1) + pick(&[1usize, 783, 392]) } else { 8 + choose(n + 1) }).min(len),
                };
                cut = Some((img, at));
                bump(if img { "fault_image_file_cut" } else { "fault_label_file_cut" });
                hash_event(0x21, at as u64);
            }
            2 => {
                let d = 1 + choose(4);
                if chance(1, 2) {
                    a += d
                } else {
                    b += d
                }
                bump("fault_record_count_mismatch");
                hash_event(0x22, d as u64);
            }
            3 => {
                for _ in 0..range(1, 2) {
                    let v = match choose(4) {
                        0 => 10,
                        1 => 255,
                        2 => 11,
                        _ => 10 + choose(246) as u8,
                    };
                    let at = choose(n.max(1));
                    bad.push((at, v));
                    bump("fault_invalid_label");
                    hash_event(0x23, (at as u64) << 8 | v as u64);
                }
            }
            _ => {}
        }
        let f = make_files(&format!("g{id}"), a, b, &bad, cut);
        total += 2 * f.avail + 6;
        let sz = sizes();
        let ty = choose(6);
        trace(|| format!("load{id}: images {a}, labels {b}, cut {cut:?}, bad labels {bad:?}, batch sizes {sz:?}, type {ty}"));
        tasks.push(vec![open(&f, id, ty, sz, 1, true)]);
    }
    let hard = if kind == 0 || kind == 4 {
        Hard::AtCall {
            n: choose(total) as u64,
            errno: pick(&[sys::EIO, sys::EIO, sys::ETIMEDOUT, 12, 116, 11, 21, 9, 22, 6, 1, 107, 32, 104, 5, 61, 74, 75, 121, 123]),
            sticky: chance(1, 2),
        }
    } else {
        Hard::None
    };
    trace(|| format!("benign faults every ~{benign} calls, hard fault {hard:?}"));
    io::plan(benign, hard);
    if chance(1, 12) {
        io::slow_device();
    }
    launch(tasks);
}
