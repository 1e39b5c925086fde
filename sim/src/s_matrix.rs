//! C10: a matrix is the table its edit history describes.

use crate::choice::{chance, choose, pick, range, Rng};
use crate::ensure;
use crate::net::Ptr;
use crate::rt::{self, bump, fail, hash_event, trace};
use crate::Prop;
use rayon::prelude::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::BasicOperations;
use std::sync::Mutex;

pub const C10: Prop = Prop {
    id: "C10",
    run: run_c10,
    quick: 50000,
    thorough: 2000000,
    rule: "One to three threads each apply a drawn history of accepted and refused edits to their own matrix and read a shared one; after every edit all ways of reading are compared with a plain table. Parallel row iteration is split, ordered and interleaved by choice.",
    real: &["renplex matrix code (compiled from /repo)", "rayon parallel iterators: splitting, consumers, collect", "OS threads"],
    stub: &["thread scheduling: baton scheduler driven by the choice stream", "rayon-core: join/scope replaced by simulated tasks"],
    assume: &["Row iteration is not looked at while the rows have no elements."],
};

/// Element of a table; values are told apart by a number.
pub trait Cell: BasicOperations<Self> + PartialEq {
    fn mk(n: u64) -> Self;
}
impl Cell for i64 {
    fn mk(n: u64) -> Self {
        n as i64
    }
}
impl Cell for f32 {
    fn mk(n: u64) -> Self {
        n as f32
    }
}
impl Cell for f64 {
    fn mk(n: u64) -> Self {
        n as f64
    }
}
impl Cell for Cf32 {
    fn mk(n: u64) -> Self {
        Cf32 { x: n as f32, y: -(n as f32) - 0.5 }
    }
}
impl Cell for Cf64 {
    fn mk(n: u64) -> Self {
        Cf64 { x: -(n as f64), y: n as f64 + 0.5 }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Row(usize),
    MutRow(usize),
    Col(usize),
    Del(usize),
    Elm(usize, usize),
    RowEdit(usize),
    Body,
    IterMut,
    Dealloc,
    Clone,
    Many(usize),
    ManyCols(usize),
    AddAll(usize),
    AddNumber(usize),
    Double,
}

struct Table<T> {
    rows: Vec<Vec<T>>,
    next: u64,
    /// every so many values offered together are all the same, or all zero
    dull: u64,
}

impl<T: Cell> Table<T> {
    fn shape(&self) -> [usize; 2] {
        [self.rows.len(), self.rows.first().map_or(0, |r| r.len())]
    }
    fn fresh(&mut self, n: usize) -> Vec<T> {
        if self.dull > 0 && (self.next / 2) % self.dull == 0 {
            self.next += 1;
            let v = if self.next % 3 == 0 { T::mk(self.next) } else { T::default() };
            return vec![v; n];
        }
        (0..n)
            .map(|_| {
                self.next += 1;
                T::mk(self.next)
            })
            .collect()
    }
}

fn gen_op() -> Op {
    match choose(18) {
        16 if chance(1, 2) => Op::ManyCols(choose(40)),
        16 => Op::Many(choose(40)),
        17 => match choose(3) {
            0 => Op::AddAll(choose(64)),
            1 => Op::AddNumber(choose(9)),
            _ => Op::Double,
        },
        0..=3 => Op::Row(choose(64)),
        4..=6 => Op::MutRow(choose(64)),
        7..=9 => Op::Col(choose(64)),
        10 | 11 => Op::Del(choose(4096)),
        12 => Op::Elm(choose(4096), choose(4096)),
        13 => match choose(3) {
            0 => Op::RowEdit(choose(4096)),
            1 => Op::Body,
            _ => Op::IterMut,
        },
        14 => Op::Clone,
        _ => Op::Dealloc,
    }
}

/// Length to offer: mostly the right one.
fn length(z: usize, right: usize, cap: usize) -> usize {
    let n = match z % 8 {
        0..=4 => right,
        5 => right + 1,
        6 => right.max(2) - 1,
        _ => 1 + z / 8,
    };
    if z == 63 {
        return 0;
    }
    if right == 0 {
        // nothing to match yet
        return [cap, cap + 1, 1, 1 + z / 16, cap.max(2) - 1][z % 5].max(1);
    }
    n
}

fn run_c10() {
    match choose(8) {
        0 => run::<f32>(),
        1 => run::<Cf32>(),
        2 => run::<f64>(),
        3 => run::<Cf64>(),
        _ => run::<i64>(),
    }
}

fn run<T: Cell>() {
    rt::set_threads(pick(&[4usize, 1, 2, 3, 8, 16]));
    let many = chance(1, 60);
    let k = if many { range(4, 24) } else { pick(&[1usize, 1, 2, 3]) };
    // a matrix everybody reads
    let (r, c) = (range(1, if chance(1, 6) { 200 } else { 12 }), range(1, 7));
    let body: Vec<T> = (0..(r * c) as u64).map(|i| T::mk(i + 1_000_000)).collect();
    let rows: Vec<Vec<T>> = body.chunks(c).map(|r| r.to_vec()).collect();
    let shared = Ptr::new((Matrix::from_body(body, [r, c]), Table { rows, next: 0, dull: 0 }));
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..k {
        let start = choose(5);
        let big = !many && chance(1, 40);
        let cap = match choose(4) {
            0 if big => [range(1, 400), range(1, 3)],
            1 if big => [range(1, 3), range(1, 400)],
            2 if big => [range(50, 140), range(50, 140)],
            3 if big => [range(65, 300), range(3, 12)],
            0 => [range(1, 5), range(1, 5)],
            1 => [range(0, 3), range(0, 3)],
            2 if chance(1, 3) => [range(1, 4), range(1, 40)],
            2 => [range(1, 40), range(1, 4)],
            3 if chance(1, 6) => [range(8, 20), range(8, 20)],
            _ => [range(1, 9), range(1, 9)],
        };
        let ops: Vec<(Op, u64)> = (0..range(1, if big { 14 } else if !many && chance(1, 80) { 400 } else if chance(1, 10) { 60 } else { 14 })).map(|_| (gen_op(), choose(1 << 20) as u64)).collect();
        let dull = if chance(1, 10) { range(1, 4) as u64 } else { 0 };
        let glance = choose(3);
        tasks.push(Box::new(move || {
            history::<T>(t, start, cap, dull, &ops);
            for _ in 0..glance {
                read_all(&shared.get().0, &shared.get().1, "shared matrix", &mut Rng(3));
            }
        }));
    }
    rt::set_preemption(pick(&[4u64, 1, 2, 15]), true);
    rt::run_tasks(tasks);
}

fn history<T: Cell>(t: usize, start: usize, cap: [usize; 2], dull: u64, ops: &[(Op, u64)]) {
    let mut tab: Table<T> = Table { rows: vec![], next: t as u64 * 10_000, dull };
    let mut m: Matrix<T> = match start {
        0 | 1 => Matrix::with_capacity(cap),
        2 => Matrix::new(),
        // nearly full
        4 if cap[0] > 0 && cap[1] > 0 => {
            let mut m = Matrix::with_capacity(cap);
            let c = cap[1].saturating_sub(1 + cap[0] % 4).max(1);
            for _ in 0..cap[0].saturating_sub(cap[1] % 3) {
                let row = tab.fresh(c);
                let given = row.clone();
                let ok = matches!(rt::sut(|| m.add_row(given).is_ok()), Ok(true));
                ensure!(ok, "wrong-decision", "T{t}: a row of {c} was refused (capacity {cap:?})");
                tab.rows.push(row);
            }
            m
        }
        _ => {
            let (r, c) = (cap[0].max(1), cap[1].max(1));
            let body = tab.fresh(r * c);
            tab.rows = body.chunks(c).map(|r| r.to_vec()).collect();
            Matrix::from_body(body, [r, c])
        }
    };
    trace(|| format!("T{t}: start {start} with {cap:?}"));
    if start < 2 {
        ensure!(m.get_capacity() == cap, "wrong-capacity", "capacity {:?} instead of {cap:?}", m.get_capacity());
    }
    let mut doubled = 0;
    let mut copies: Vec<(Matrix<T>, Vec<Vec<T>>)> = vec![];
    for (i, (op, z)) in ops.iter().enumerate() {
        let mut rng = Rng(*z);
        let [r, c] = tab.shape();
        let cap = [m.get_capacity()[0], m.get_capacity()[1]];
        let what = format!("T{t} op {i} {op:?} on {r}x{c} (capacity {}x{})", cap[0], cap[1]);
        let done = |ok: bool| {
            hash_event(0x10, (i as u64) << 8 | ok as u64);
            bump(if ok { "edits_accepted" } else { "edits_refused" });
            trace(|| format!("{what}: {}", if ok { "accepted" } else { "refused" }));
        };
        let decide = |ok: bool, should: bool, n: usize| {
            if ok != should {
                let s = if ok { "accepted" } else { "refused" };
                fail("wrong-decision", format!("{what}: length {n} was {s}"));
            }
        };
        let mut refused = false;
        match op {
            Op::Row(z) | Op::MutRow(z) => {
                // rows without elements, now and then several of them
                let n = if r > 0 && c == 0 { [0, 0, 1, z % 4][z / 16 % 4] } else { length(*z, c, cap[1]) };
                let row = tab.fresh(n);
                let should = (r == 0 || n == c) && r + 1 <= cap[0] && n <= cap[1];
                let ok = if matches!(op, Op::Row(_)) {
                    let given = row.clone();
                    matches!(rt::sut(|| m.add_row(given).is_ok()), Ok(true))
                } else {
                    let mut given = row.clone();
                    let ok = matches!(rt::sut(|| m.add_mut_row(&mut given).is_ok()), Ok(true));
                    ensure!(ok || given == row, "offer-changed", "{what}: refused, but the row offered was changed");
                    ok
                };
                done(ok);
                decide(ok, should, n);
                if ok {
                    tab.rows.push(row);
                }
                refused = !ok;
            }
            Op::Col(z) => {
                let n = if *z == 63 { 0 } else { length(*z, r, 3) };
                let col = tab.fresh(n);
                let mut given = col.clone();
                let should = r > 0 && n == r && c + 1 <= cap[1];
                let ok = matches!(rt::sut(|| m.add_col(&mut given).is_ok()), Ok(true));
                done(ok);
                ensure!(ok || given == col, "offer-changed", "{what}: refused, but the column offered was changed");
                decide(ok, should, n);
                if ok {
                    for (r, v) in tab.rows.iter_mut().zip(col) {
                        r.push(v);
                    }
                }
                refused = !ok;
            }
            Op::Del(z) => {
                let k = if z % 8 == 7 { r + z / 8 % 9 } else { z / 8 % r.max(1) };
                let got = rt::sut(|| m.del_row(k).ok()).ok().flatten();
                done(got.is_some());
                decide(got.is_some(), k < r, k);
                if let Some(row) = got {
                    let was = tab.rows.remove(k);
                    ensure!(row == was, "wrong-row", "{what}: deleting row {k} gave {row:?} instead of {was:?}");
                } else {
                    refused = true;
                }
            }
            Op::Elm(i, j) => {
                let (i, j) = (&(i % (r + 2)), &(j % (c + 2)));
                let v = tab.fresh(1)[0];
                let ok = matches!(rt::sut(|| m.elm_mut(*i, *j).map(|e| *e = v).is_ok()), Ok(true));
                done(ok);
                decide(ok, *i < r && *j < c, 1);
                if ok {
                    tab.rows[*i][*j] = v;
                }
                refused = !ok;
            }
            Op::RowEdit(i) => {
                let i = &(i % (r + 2));
                let v = tab.fresh(c);
                let ok = matches!(rt::sut(|| m.row_as_mut(*i).map(|e| e.copy_from_slice(&v)).is_ok()), Ok(true));
                done(ok);
                decide(ok, *i < r, 1);
                if ok {
                    tab.rows[*i] = v;
                }
                refused = !ok;
            }
            Op::Body => {
                let v = tab.fresh(r * c);
                let r = rt::sut(|| m.get_body_as_mut().copy_from_slice(&v));
                ensure!(r.is_ok(), "wrong-body", "{what}: the body does not have {} elements", v.len());
                if c > 0 {
                    tab.rows = v.chunks(c).map(|r| r.to_vec()).collect();
                }
                done(true);
            }
            Op::IterMut => {
                if c > 0 {
                    let v = tab.fresh(r * c);
                    let mut it = v.chunks(c);
                    let res = rt::sut(|| {
                        m.rows_as_iter_mut().for_each(|row| match it.next() {
                            Some(v) if v.len() == row.len() => row.copy_from_slice(v),
                            _ => {}
                        })
                    });
                    ensure!(res.is_ok(), "wrong-rows", "{what}: failed: {res:?}");
                    tab.rows = v.chunks(c).map(|r| r.to_vec()).collect();
                    done(true);
                }
            }
            Op::Dealloc => {
                let res = rt::sut(|| m.dealloc());
                ensure!(res.is_ok(), "wrong-capacity", "{what}: failed: {res:?}");
                done(true);
            }
            Op::Many(n) => {
                // rows one after the other, as long as there is room
                let w = if r > 0 { c } else { cap[1].max(1) };
                for k in 0..*n {
                    let row = tab.fresh(w);
                    let given = row.clone();
                    let ok = matches!(rt::sut(|| m.add_row(given).is_ok()), Ok(true));
                    decide(ok, r + k + 1 <= cap[0] && w <= cap[1], w);
                    if !ok {
                        break;
                    }
                    tab.rows.push(row);
                }
                done(true);
            }
            Op::ManyCols(n) => {
                for k in 0..if r > 0 { *n } else { 0 } {
                    let col = tab.fresh(r);
                    let mut given = col.clone();
                    let ok = matches!(rt::sut(|| m.add_col(&mut given).is_ok()), Ok(true));
                    decide(ok, c + k + 1 <= cap[1], r);
                    if !ok {
                        ensure!(given == col, "offer-changed", "{what}: refused, but the column offered was changed");
                        break;
                    }
                    for (r, v) in tab.rows.iter_mut().zip(col) {
                        r.push(v);
                    }
                }
                done(true);
            }
            Op::AddAll(z) => {
                let (r2, c2) = match z % 4 {
                    0 => (r + 1, c),
                    1 if r > 0 => (c, r),
                    _ => (r, c),
                };
                if r > 0 && r2 > 0 && c2 > 0 {
                    let other = tab.fresh(r2 * c2);
                    let rhs = Matrix::from_body(other.clone(), [r2, c2]);
                    let ok = matches!(rt::sut(|| m.add_mut(&rhs).is_ok()), Ok(true));
                    done(ok);
                    decide(ok, [r, c] == [r2, c2], r2 * c2);
                    ensure!(rhs.get_body() == other, "offer-changed", "{what}: the matrix added was changed");
                    if ok {
                        for (e, o) in tab.rows.iter_mut().flatten().zip(other) {
                            *e = *e + o;
                        }
                    }
                    refused = !ok;
                }
            }
            Op::AddNumber(z) => {
                let v = T::mk(*z as u64);
                let ok = matches!(rt::sut(|| m.add_mut_scalar(v).is_ok()), Ok(true));
                done(ok);
                decide(ok, true, 1);
                tab.rows.iter_mut().flatten().for_each(|e| *e = *e + v);
            }
            Op::Double => {
                // keep the numbers small
                if doubled < 5 {
                    doubled += 1;
                    let v = T::mk(2);
                    let ok = matches!(rt::sut(|| m.mul_mut_scalar(v).is_ok()), Ok(true));
                    done(ok);
                    decide(ok, true, 1);
                    tab.rows.iter_mut().flatten().for_each(|e| *e = *e * v);
                }
            }
            Op::Clone => {
                if copies.len() < 3 {
                    copies.push((m.clone(), tab.rows.clone()));
                }
                done(true);
            }
        }
        let now = [m.get_capacity()[0], m.get_capacity()[1]];
        ensure!(!refused || now == cap, "changed-by-refusal", "{what}: refused, but the capacity is now {now:?}");
        read_all(&m, &tab, &what, &mut rng);
    }
    for (m, rows) in copies {
        read_all(&m, &Table { rows, next: 0, dull: 0 }, "copy made earlier", &mut Rng(1));
    }
    let body = m.export_body();
    ensure!(body == tab.rows.concat(), "wrong-body", "exported body differs from the table");
}

fn read_all<T: Cell>(m: &Matrix<T>, tab: &Table<T>, what: &str, rng: &mut Rng) {
    bump("checks");
    let [r, c] = tab.shape();
    ensure!(m.get_shape() == [r, c], "wrong-shape", "{what}: shape {:?}, the table is {r}x{c}", m.get_shape());
    let flat = tab.rows.concat();
    ensure!(m.get_body() == flat, "wrong-body", "{what}: body {:?} should be {flat:?}", m.get_body());
    let res = rt::sut(|| {
        rt::outside(|| ());
        for i in 0..r + 1 {
            match m.row(i) {
                Ok(row) => ensure!(i < r && row == tab.rows[i], "wrong-row", "{what}: row {i} is {row:?}"),
                Err(_) => ensure!(i >= r, "wrong-row", "{what}: row {i} cannot be read"),
            }
            for j in 0..c + 1 {
                match m.elm(i, j) {
                    Ok(e) => ensure!(i < r && j < c && *e == tab.rows[i][j], "wrong-element", "{what}: element {i},{j} is {e}"),
                    Err(_) => ensure!(i >= r || j >= c, "wrong-element", "{what}: element {i},{j} cannot be read"),
                }
            }
            let mut s = vec![T::default(); c];
            match m.row_into_slice(i, &mut s) {
                Ok(()) => ensure!(i < r && s == tab.rows[i], "wrong-row", "{what}: row {i} copied is {s:?}"),
                Err(_) => ensure!(i >= r, "wrong-row", "{what}: row {i} cannot be copied"),
            }
        }
        for j in 0..c + 1 {
            let want: Vec<T> = tab.rows.iter().filter_map(|r| r.get(j).copied()).collect();
            match m.copy_col_into_vec(j) {
                Ok(col) => ensure!(j < c && col == want, "wrong-column", "{what}: column {j} is {col:?}, should be {want:?}"),
                Err(_) => ensure!(j >= c, "wrong-column", "{what}: column {j} cannot be read"),
            }
            let mut s = vec![T::default(); r];
            match m.col_into_slice(j, &mut s) {
                Ok(()) => ensure!(j < c && s == want, "wrong-column", "{what}: column {j} copied is {s:?}"),
                Err(_) => ensure!(j >= c, "wrong-column", "{what}: column {j} cannot be copied"),
            }
        }
        // rows without elements are not shown by iteration
        if r > 0 && c == 0 {
            bump("rows_without_elements");
            return;
        }
        let rows: Vec<Vec<T>> = m.rows_as_iter().map(|r| r.to_vec()).collect();
        ensure!(rows == tab.rows, "wrong-rows", "{what}: iteration shows {rows:?}");
        let (i, k) = (rng.below(r.max(1) as u64) as usize, 1 + rng.below(if rng.0 % 4 == 0 { r.max(1) as u64 } else { 3 }) as usize);
        if i + k <= r {
            let rows: Vec<&[T]> = m.get_slider(i, k).collect();
            ensure!(rows == tab.rows[i..i + k], "wrong-rows", "{what}: rows {i}..{} are {rows:?}", i + k);
        }
        // in parallel
        let rows: Vec<(usize, Vec<T>)> = m.rows_as_par_chunks().enumerate().map(|(i, r)| (i, r.to_vec())).collect();
        let ok = rows.len() == r && rows.iter().enumerate().all(|(i, (k, row))| i == *k && *row == tab.rows[i]);
        ensure!(ok, "wrong-parallel-rows", "{what}: parallel iteration shows {rows:?}");
        let seen = Mutex::new(vec![false; r]);
        m.rows_as_par_chunks().for_each(|row| {
            let mut seen = seen.lock().unwrap();
            match (0..r).find(|k| !seen[*k] && tab.rows[*k] == row) {
                Some(k) => seen[k] = true,
                None => fail("wrong-parallel-rows", format!("{what}: parallel iteration shows {row:?}, which is no row or was shown before")),
            }
        });
        let seen = seen.into_inner().unwrap();
        ensure!(seen.iter().all(|n| *n), "wrong-parallel-rows", "{what}: not all rows were visited: {seen:?}");
        let folded: Vec<T> = m.rows_as_par_chunks().flat_map_iter(|r| r.iter().copied()).collect();
        ensure!(folded == flat, "wrong-parallel-rows", "{what}: parallel flattening gives {folded:?}");
        let last = m.clone().body_into_iter().collect::<Vec<T>>();
        ensure!(last == flat, "wrong-body", "{what}: consumed body is {last:?}");
    });
    if let Err(e) = res {
        fail("read-failed", format!("{what}: reading failed: {e}"));
    }
}
