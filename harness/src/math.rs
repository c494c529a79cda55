//! Drivers for the field, encodings, sampling, interpolation and matrices (M01-M05).
use crate::util::*;
use ndarray::{Array1, Array2};
use rand::seq::SliceRandom;
use rand::{Rng, RngCore};
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::{binary_super_inv_matrix, lagrange_coeffs, rs_gen_mat, super_inv_matrix};

/// Calls a function generic in the field size.
#[macro_export]
macro_rules! by_w {
    ($w:expr, $f:ident ( $($a:expr),* )) => {
        match $w {
            1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*), 6 => $f::<6>($($a),*), 7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*),
            9 => $f::<9>($($a),*), 10 => $f::<10>($($a),*), 11 => $f::<11>($($a),*), 12 => $f::<12>($($a),*),
            13 => $f::<13>($($a),*), 14 => $f::<14>($($a),*), 15 => $f::<15>($($a),*), 16 => $f::<16>($($a),*),
            17 => $f::<17>($($a),*), 18 => $f::<18>($($a),*), 19 => $f::<19>($($a),*), 20 => $f::<20>($($a),*),
            21 => $f::<21>($($a),*), 22 => $f::<22>($($a),*), 23 => $f::<23>($($a),*), 24 => $f::<24>($($a),*),
            25 => $f::<25>($($a),*), 26 => $f::<26>($($a),*), 27 => $f::<27>($($a),*), 28 => $f::<28>($($a),*),
            29 => $f::<29>($($a),*), 30 => $f::<30>($($a),*),
            w => panic!("field size {} not covered", w),
        }
    };
}

pub fn u<const W: u8>(x: GF<W>) -> u32 {
    x.into()
}
pub fn us<'a, const W: u8>(v: impl IntoIterator<Item = &'a GF<W>>) -> Vec<u32> {
    v.into_iter().map(|x| u(*x)).collect()
}
pub fn mat<const W: u8>(m: &Array2<GF<W>>) -> Vec<Vec<u32>> {
    m.outer_iter().map(|r| us(r.iter())).collect()
}
/// An element from an integer below the order.
pub fn el<const W: u8>(v: u32) -> GF<W> {
    GF::from(v)
}
pub fn els<const W: u8>(v: &[u32]) -> Vec<GF<W>> {
    v.iter().map(|x| el(*x)).collect()
}

/// The polynomial of the field without its leading term: x * x^(W-1).
pub fn poly<const W: u8>() -> u32 {
    GF::<W>::init().unwrap();
    if W == 1 {
        1
    } else {
        u(el::<W>(2) * el::<W>(1 << (W - 1)))
    }
}

fn interesting<const W: u8>(r: &mut R) -> u32 {
    let o = 1u32 << W;
    let v = match r.gen_range(0..6) {
        0 => r.gen_range(0..o.min(4)),
        1 => o - 1 - r.gen_range(0..o.min(4)),
        2 => 1u32 << r.gen_range(0..W),
        3 => (1u32 << r.gen_range(0..W)) - 1,
        _ => r.gen_range(0..o),
    };
    v % o
}

fn field_event<const W: u8>(log: &Log) {
    log.push(json!({"e": "field", "w": W, "poly": poly::<W>(), "order": GF::<W>::ORDER,
                    "zero": [u(GF::<W>::ZERO), u(num_traits_zero::<W>())], "one": [u(GF::<W>::ONE), u(num_traits_one::<W>())]}));
}
fn num_traits_zero<const W: u8>() -> GF<W> {
    Array1::<GF<W>>::zeros(1)[0]
}
fn num_traits_one<const W: u8>() -> GF<W> {
    Array1::<GF<W>>::ones(1)[0]
}

fn forms<const W: u8>(a: GF<W>, b: GF<W>) -> ([u32; 4], u32) {
    let mut differ = 0;
    macro_rules! op {
        ($o:tt, $oa:tt) => {{
            let x = a $o b;
            let mut y = a;
            y $oa b;
            let mut z = a;
            z $oa &b;
            for v in [a $o &b, &a $o b, &a $o &b, y, z] {
                differ += (v != x) as u32;
            }
            u(x)
        }};
    }
    let add = op!(+, +=);
    let sub = op!(-, -=);
    let mul = op!(*, *=);
    let div = if u(b) == 0 { 0 } else { op!(/, /=) };
    ([add, sub, mul, div], differ)
}

fn ops_event<const W: u8>(log: &Log, pairs: &[(u32, u32)]) {
    let mut cols: Vec<Vec<u32>> = vec![Vec::new(); 4];
    let mut differ = 0;
    for (a, b) in pairs {
        let (v, d) = forms(el::<W>(*a), el::<W>(*b));
        differ += d;
        for k in 0..4 {
            cols[k].push(v[k]);
        }
    }
    let sum = Array1::from_vec(els::<W>(&pairs.iter().map(|p| p.0).collect::<Vec<_>>())).sum();
    let dot = Array1::from_vec(els::<W>(&pairs.iter().map(|p| p.0).collect::<Vec<_>>()))
        .dot(&Array1::from_vec(els::<W>(&pairs.iter().map(|p| p.1).collect::<Vec<_>>())));
    log.push(json!({"e": "ops", "w": W, "a": pairs.iter().map(|p| p.0).collect::<Vec<_>>(),
        "b": pairs.iter().map(|p| p.1).collect::<Vec<_>>(), "add": cols[0], "sub": cols[1], "mul": cols[2], "div": cols[3],
        "differ": differ, "sum": u(sum), "dot": u(dot)}));
}

fn conv_event<const W: u8>(log: &Log, vals: &[u32]) {
    let bits: Vec<Vec<u32>> = vals.iter().map(|v| (0..32).rev().map(|i| (v >> i) & 1).collect()).collect();
    let out: Vec<u32> = vals.iter().map(|v| u(GF::<W>::from(*v))).collect();
    log.push(json!({"e": "conv", "w": W, "bits": bits, "out": out}));
}

fn some_pairs<const W: u8>(r: &mut R, k: usize) -> Vec<(u32, u32)> {
    (0..k).map(|_| (interesting::<W>(r), interesting::<W>(r))).collect()
}
fn some_ints<const W: u8>(r: &mut R, k: usize) -> Vec<u32> {
    (0..k)
        .map(|i| match i % 6 {
            0 => r.next_u32(),
            1 => 1 << r.gen_range(0..32),
            2 => u32::MAX >> r.gen_range(0..32),
            3 => (1u32 << W).wrapping_add(r.gen_range(0..8)).wrapping_sub(4),
            4 => interesting::<W>(r),
            _ => r.next_u32() >> r.gen_range(0..20),
        })
        .collect()
}

fn all_of<const W: u8>(log: &Log, r: &mut R, thorough: bool) {
    field_event::<W>(log);
    if W <= 8 {
        let o = 1u32 << W;
        let all: Vec<(u32, u32)> = (0..o).flat_map(|a| (0..o).map(move |b| (a, b))).collect();
        for c in all.chunks(2048) {
            ops_event::<W>(log, c);
        }
    } else {
        for _ in 0..if thorough { 12 } else { 3 } {
            ops_event::<W>(log, &some_pairs::<W>(r, 150));
        }
    }
    conv_event::<W>(log, &some_ints::<W>(r, if thorough { 400 } else { 120 }));
}
fn some_of<const W: u8>(log: &Log, r: &mut R) {
    field_event::<W>(log);
    ops_event::<W>(log, &some_pairs::<W>(r, 40));
    conv_event::<W>(log, &some_ints::<W>(r, 12));
}

/// M01: arithmetic in all fields; `order` is the order of first use in this process.
pub fn field(mut a: Args) {
    let order: usize = a.extra[0].parse().unwrap();
    let top: u8 = if a.thorough { 26 } else { 22 };
    let mut r = rng(a.seed, 100 + order as u64);
    let mut ws: Vec<u8> = (1..=top).collect();
    match order {
        0 => {}
        1 => ws.reverse(),
        _ => ws.shuffle(&mut r),
    }
    if order == 3 {
        // Initialization and use by concurrent threads.
        let log = Log::new();
        log.push(json!({"e": "init", "order": order}));
        std::thread::scope(|s| {
            for k in 0..8u64 {
                let log = log.clone();
                let ws = ws.clone();
                let seed = a.seed;
                s.spawn(move || {
                    let mut r = rng(seed, 200 + k);
                    for w in ws.into_iter().filter(|w| *w <= 18) {
                        by_w!(w, some_of(&log, &mut r));
                    }
                });
            }
        });
        a.out.write("threads", &log);
        return;
    }
    if order == 2 {
        // Fields take turns.
        let log = Log::new();
        log.push(json!({"e": "init", "order": order}));
        for _ in 0..if a.thorough { 200 } else { 60 } {
            let w = *choose(&mut r, &ws);
            by_w!(w, some_of(&log, &mut r));
        }
        a.out.write("turns", &log);
        return;
    }
    // One field after the other; W = 8 is split over several traces.
    let mut log = Log::new();
    log.push(json!({"e": "init", "order": order}));
    for w in ws {
        by_w!(w, all_of(&log, &mut r, a.thorough));
        if w == 7 || w == 8 || w == 16 {
            a.out.write(&format!("w{}", w), &log);
            log = Log::new();
            log.push(json!({"e": "init", "order": order}));
        }
    }
    a.out.write("rest", &log);
}

// --- M02 --------------------------------------------------------------------
fn enc<T: serde::Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).unwrap()
}

fn codec_of<const W: u8>(log: &Log, r: &mut R, thorough: bool) {
    let vals: Vec<u32> = if W <= 10 {
        (0..1u32 << W).collect()
    } else {
        (0..if thorough { 2000 } else { 300 }).map(|_| interesting::<W>(r)).collect()
    };
    // Elements are built from bytes here: no tables are needed for fields of any size.
    let elems: Vec<GF<W>> = vals.iter().map(|v| el::<W>(*v)).collect();
    let mut sizes = Vec::new();
    let mut back = Vec::new();
    for e in &elems {
        let b = enc(e);
        sizes.push(b.len());
        back.push(match bincode::deserialize::<GF<W>>(&b) {
            Ok(x) => u(x) as i64,
            Err(_) => -1,
        });
    }
    log.push(json!({"e": "elems", "w": W, "doc": GF::<W>::NUM_BYTES, "v": vals, "sizes": sizes, "back": back}));
    let empty = enc(&Vec::<GF<W>>::new()).len();
    for k in [0usize, 1, 2, 3, 7, 50, 255, 256, 300] {
        let v: Vec<u32> = (0..k).map(|_| interesting::<W>(r)).collect();
        let b = enc(&els::<W>(&v));
        let back: Vec<i64> = match bincode::deserialize::<Vec<GF<W>>>(&b) {
            Ok(x) => x.iter().map(|y| u(*y) as i64).collect(),
            Err(_) => vec![-1],
        };
        log.push(json!({"e": "seq", "w": W, "v": v, "size": b.len() as i64 - empty as i64, "back": back}));
        let b = enc(&(els::<W>(&v), els::<W>(&v)));
        let back: Vec<Vec<i64>> = match bincode::deserialize::<(Vec<GF<W>>, Vec<GF<W>>)>(&b) {
            Ok((x, y)) => vec![x.iter().map(|y| u(*y) as i64).collect(), y.iter().map(|y| u(*y) as i64).collect()],
            Err(_) => vec![],
        };
        log.push(json!({"e": "two", "w": W, "v": v, "size": b.len() as i64 - 2 * empty as i64, "back": back}));
    }
}

pub fn codec(a: &mut Args) {
    let mut r = rng(a.seed, 300);
    let log = Log::new();
    log.push(json!({"e": "init"}));
    for w in 1..=30u8 {
        by_w!(w, codec_of(&log, &mut r, a.thorough));
    }
    a.out.write("elements", &log);
}

// --- M03 --------------------------------------------------------------------
fn sample_of<const W: u8>(log: &Log, r: &mut R, thorough: bool) {
    let mut g = rng(r.next_u64(), 1);
    let mut draw = |k: usize| -> Vec<u32> { (0..k).map(|_| u(GF::<W>::rand(&mut g))).collect() };
    let hist = |log: &Log, what: &str, cells: usize, it: &mut dyn Iterator<Item = usize>| {
        let mut c = vec![0u32; cells];
        let mut out = 0u32;
        let mut total = 0u32;
        for x in it {
            total += 1;
            if x < cells {
                c[x] += 1;
            } else {
                out += 1;
            }
        }
        log.push(json!({"e": "hist", "w": W, "what": what, "cells": cells, "total": total, "outside": out, "counts": c}));
    };
    let k = 1 << 20;
    let s = draw(k);
    // Whole field
    if W <= 12 {
        hist(log, "value", 1 << W, &mut s.iter().map(|x| *x as usize));
    }
    let hi = W.saturating_sub(8);
    let cells = 1usize << W.min(8);
    hist(log, "high", cells, &mut s.iter().map(|x| (*x >> hi) as usize));
    hist(log, "low", cells, &mut s.iter().map(|x| if *x >> W == 0 { *x as usize % cells } else { cells }));
    if W > 12 {
        let mid = (W - 8) / 2;
        hist(log, "middle", 256, &mut s.iter().map(|x| (*x >> mid) as usize % 256));
    }
    // Successive samples
    let b = W.min(4);
    let c = 1usize << b;
    for lag in [1usize, 2] {
        let f = |x: u32| (x >> (W - b)) as usize;
        let m = (c - 1) as u32;
        hist(log, "pairs high", c * c, &mut (0..s.len() / (2 * lag)).map(|i| {
            let j = (i / lag) * 2 * lag + i % lag;
            f(s[j]) * c + f(s[j + lag])
        }));
        hist(log, "pairs low", c * c, &mut (0..s.len() / (2 * lag)).map(|i| {
            let j = (i / lag) * 2 * lag + i % lag;
            (s[j] & m) as usize * c + (s[j + lag] & m) as usize
        }));
        hist(log, "pairs mixed", c * c, &mut (0..s.len() / (2 * lag)).map(|i| {
            let j = (i / lag) * 2 * lag + i % lag;
            f(s[j]) * c + (s[j + lag] & m) as usize
        }));
    }
    // Different generators
    let mut c2 = vec![0u32; 1 << b];
    for _ in 0..(4096 << b) {
        let mut g = rng(r.next_u64(), 2);
        let v = u(GF::<W>::rand(&mut g)) >> (W - b);
        if (v as usize) < c2.len() {
            c2[v as usize] += 1;
        }
    }
    log.push(json!({"e": "hist", "w": W, "what": "fresh generators", "cells": 1 << b, "total": 4096 << b, "outside": 0, "counts": c2}));
    // Single elements of larger fields
    if W > 12 && W <= if thorough { 20 } else { 18 } {
        let pts = [0u32, 1, (1 << W) - 1, 1 << (W - 1), r.gen_range(0..1 << W)];
        let mut c = [0u32; 5];
        let total = 1u32 << (W + 8);
        for _ in 0..total {
            let x = u(GF::<W>::rand(&mut g));
            for i in 0..5 {
                c[i] += (x == pts[i]) as u32;
            }
        }
        log.push(json!({"e": "points", "w": W, "points": pts, "mean": 256, "counts": c}));
    }
}

pub fn sample(mut a: Args) {
    let order: usize = a.extra[0].parse().unwrap();
    let mut r = rng(a.seed, 400 + order as u64);
    let mut ws: Vec<u8> = (1..=30).collect();
    match order {
        0 => {}
        1 => ws.reverse(),
        _ => ws.shuffle(&mut r),
    }
    let log = Log::new();
    log.push(json!({"e": "init", "order": order}));
    for w in ws {
        by_w!(w, sample_of(&log, &mut r, a.thorough));
    }
    a.out.write("sample", &log);
}

// --- M04 --------------------------------------------------------------------
fn interp_event<const W: u8>(log: &Log, cpos: &[u32], npos: &[u32], ks: Vec<usize>) {
    let (c, n) = (els::<W>(cpos), els::<W>(npos));
    match guarded(|| lagrange_coeffs(&c, &n)) {
        Ok(m) => log.push(json!({"e": "interp", "cpos": cpos, "npos": npos, "ks": ks, "shape": m.shape(), "m": mat(&m)})),
        Err(x) => log.push(json!({"e": "panic", "cpos": cpos, "npos": npos, "text": x})),
    }
}

fn subset(r: &mut R, from: &[u32], k: usize) -> Vec<u32> {
    let mut v: Vec<u32> = from.to_vec();
    v.shuffle(r);
    v.truncate(k);
    v
}

fn with_zero(mut c: Vec<u32>, zero: bool) -> Vec<u32> {
    if zero && !c.contains(&0) {
        let k = c.len() / 2;
        c[k] = 0;
    }
    c
}

fn mostly_others(r: &mut R, all: &[u32], c: &[u32], k: usize) -> Vec<u32> {
    let others: Vec<u32> = all.iter().filter(|x| !c.contains(x)).cloned().collect();
    let mut v = subset(r, &others, k);
    v.push(*choose(r, c));
    v.shuffle(r);
    v
}

fn interp_of<const W: u8>(a: &mut Args) {
    let mut r = rng(a.seed, 500 + W as u64);
    let p = poly::<W>();
    let mut log = Log::new();
    let head = |log: &Log| log.push(json!({"e": "init", "w": W, "poly": p}));
    head(&log);
    let o = 1usize << W;
    if W <= 3 {
        // All sets of old points (in a random order), all points as new ones.
        let all: Vec<u32> = (0..o as u32).collect();
        for s in 1u32..(1 << o) {
            let set: Vec<u32> = all.iter().filter(|x| s >> **x & 1 == 1).cloned().collect();
            let k = set.len();
            interp_event::<W>(&log, &subset(&mut r, &set, k), &subset(&mut r, &all, o), (0..k).collect());
        }
        interp_event::<W>(&log, &all, &[], vec![0]);
    } else if W <= 8 {
        let all: Vec<u32> = (0..o as u32).collect();
        let runs = if a.thorough { 400 } else { 60 };
        for i in 0..runs {
            let k = if W == 4 { 1 + i % 16 } else { *choose(&mut r, &[1, 2, 3, 5, 9, 16, 17]) };
            let kn = r.gen_range(0..=o.min(6));
            let c = subset(&mut r, &all, k);
            let ks = if W == 4 { (0..k).collect() } else { subset_ks(&mut r, k, 4) };
            let npos = if i % 5 == 0 { c.clone() } else { subset(&mut r, &all, kn) };
            interp_event::<W>(&log, &c, &npos, ks);
        }
        for (i, k) in [o, o - 1, o - 2, o / 2, o / 2 + 1, o / 3, o / 2].into_iter().enumerate() {
            // With or without zero, new points mostly others.
            let c = with_zero(subset(&mut r, &all, k), i % 3 != 1);
            let npos = mostly_others(&mut r, &all, &c, 4);
            interp_event::<W>(&log, &c, &npos, subset_ks(&mut r, k, 4));
        }
    } else {
        let big = if a.thorough { 520 } else { 130 };
        for (i, k) in [1usize, 2, 3, 5, 8, 16, 33, big].iter().enumerate() {
            let base = if i % 2 == 0 { r.gen_range(0..(o as u32).saturating_sub(600).max(1)) } else { 0 };
            let all: Vec<u32> = (0..(2 * *k as u32 + 8)).map(|x| if i % 2 == 0 { base + x } else { r.gen_range(0..o as u32) }).collect();
            let mut all: Vec<u32> = all.into_iter().map(|x| x % o as u32).collect();
            all.sort_unstable();
            all.dedup();
            let k = (*k).min(all.len());
            let c = with_zero(subset(&mut r, &all, k), i % 2 == 1);
            let npos = mostly_others(&mut r, &all, &c, 3);
            interp_event::<W>(&log, &c, &npos, subset_ks(&mut r, k, 3));
        }
    }
    a.out.write(&format!("w{}", W), &log);
    log = Log::new();
    let _ = log;
}

/// Exponents of the monomials to check: the extreme ones and some others.
fn subset_ks(r: &mut R, k: usize, m: usize) -> Vec<usize> {
    let mut v = vec![0, 1.min(k - 1), k - 1, k / 2];
    for _ in 0..m {
        v.push(r.gen_range(0..k));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn interp(mut a: Args) {
    let ws: Vec<u8> = if a.thorough { (1..=22).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 18] };
    for w in ws {
        by_w!(w, interp_of(&mut a));
    }
}

// --- M05 --------------------------------------------------------------------
/// Inverse by elimination; None if singular. Only a certificate: the specification verifies it.
pub fn inverse<const W: u8>(m: &[Vec<GF<W>>]) -> Option<Vec<Vec<GF<W>>>> {
    let k = m.len();
    let mut a: Vec<Vec<GF<W>>> = m.to_vec();
    let mut b: Vec<Vec<GF<W>>> = (0..k).map(|i| (0..k).map(|j| if i == j { GF::ONE } else { GF::ZERO }).collect()).collect();
    for c in 0..k {
        let p = (c..k).find(|&i| a[i][c] != GF::ZERO)?;
        a.swap(c, p);
        b.swap(c, p);
        let inv = GF::ONE / a[c][c];
        for j in 0..k {
            a[c][j] *= inv;
            b[c][j] *= inv;
        }
        for i in 0..k {
            if i != c && a[i][c] != GF::ZERO {
                let f = a[i][c];
                for j in 0..k {
                    let (x, y) = (a[c][j], b[c][j]);
                    a[i][j] -= f * x;
                    b[i][j] -= f * y;
                }
            }
        }
    }
    Some(b)
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            go(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(n, k, 0, &mut Vec::new(), &mut out);
    out
}

fn count(n: usize, k: usize) -> f64 {
    (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64)
}

/// `m` has one row per input; any k = (number of columns) rows must be independent.
fn mds<const W: u8>(log: &Log, r: &mut R, kind: &str, inp: usize, out: usize, shape: &[usize], m: &Array2<GF<W>>, limit: usize) {
    log.push(json!({"e": "matrix", "kind": kind, "inp": inp, "out": out, "shape": shape, "m": mat(m)}));
    if m.shape() != [inp, out] {
        return;
    }
    let sets: Vec<Vec<usize>> = if count(inp, out) <= limit as f64 {
        subsets(inp, out)
    } else {
        let mut v: Vec<Vec<usize>> = Vec::new();
        for i in 0..limit {
            let mut s: Vec<usize> = match i % 4 {
                0 => {
                    let st = 1usize << r.gen_range(0..10);
                    let b = r.gen_range(0..inp);
                    (0..out).map(|j| (b + j * st) % inp).collect()
                }
                1 => (0..out).map(|j| inp - 1 - j).collect(),
                _ => rand::seq::index::sample(r, inp, out).into_vec(),
            };
            s.sort_unstable();
            s.dedup();
            while s.len() < out {
                let x = r.gen_range(0..inp);
                if !s.contains(&x) {
                    s.push(x);
                }
            }
            s.sort_unstable();
            v.push(s);
        }
        v.sort();
        v.dedup();
        v
    };
    for s in sets {
        let sub: Vec<Vec<GF<W>>> = s.iter().map(|i| m.row(*i).to_vec()).collect();
        let inv: Vec<Vec<u32>> = match inverse(&sub) {
            Some(x) => x.iter().map(|r| us(r.iter())).collect(),
            None => vec![],
        };
        log.push(json!({"e": "set", "rows": s.iter().map(|x| x + 1).collect::<Vec<_>>(), "inv": inv}));
    }
}

fn matrices_of<const W: u8>(a: &mut Args) {
    let mut r = rng(a.seed, 600 + W as u64);
    let log = Log::new();
    log.push(json!({"e": "init", "w": W, "poly": poly::<W>()}));
    let o = 1usize << W;
    let mut dims: Vec<(usize, usize)> = Vec::new();
    let limit;
    if W <= 4 {
        // All dimensions of small fields.
        limit = if a.thorough { 2000 } else if W <= 3 { 40 } else { 12 };
        for inp in 1..o {
            for out in 1..=inp {
                dims.push((inp, out));
            }
        }
    } else {
        limit = if a.thorough { 40 } else { 8 };
        dims.extend([(3, 1), (3, 2), (5, 2), (5, 4), (9, 5), (16, 11), (20, 7)]);
        dims.push((o.min(300) - 1, 2));
        dims.push((o.min(300) - 1, 3));
        dims.push((o.min(80) - 1, 20));
        if W <= 8 {
            dims.push((o - 1, 2));
            dims.push((o - 1, 4));
        }
    }
    for (inp, out) in dims {
        match guarded(|| (super_inv_matrix::<W>(inp, out), rs_gen_mat::<W>(out, inp))) {
            Ok((s, g)) => {
                let (ss, gs) = (s.shape().to_vec(), g.shape().to_vec());
                mds(&log, &mut r, "extract", inp, out, &ss, &s.reversed_axes(), limit);
                mds(&log, &mut r, "code", inp, out, &gs, &g, limit);
            }
            Err(x) => log.push(json!({"e": "panic", "inp": inp, "out": out, "text": x})),
        }
    }
    a.out.write(&format!("w{}", W), &log);
}

/// Bits as integers of 24 bits.
fn chunks(bits: &[u32]) -> Vec<u32> {
    bits.chunks(24).map(|c| c.iter().enumerate().fold(0, |x, (i, b)| x | (b & 1) << i)).collect()
}

fn gf2_inverse(m: &[Vec<u32>]) -> Option<Vec<Vec<u32>>> {
    let k = m.len();
    let mut a = m.to_vec();
    let mut b: Vec<Vec<u32>> = (0..k).map(|i| (0..k).map(|j| (i == j) as u32).collect()).collect();
    for c in 0..k {
        let p = (c..k).find(|&i| a[i][c] == 1)?;
        a.swap(c, p);
        b.swap(c, p);
        for i in 0..k {
            if i != c && a[i][c] == 1 {
                for j in 0..k {
                    let (x, y) = (a[c][j], b[c][j]);
                    a[i][j] ^= x;
                    b[i][j] ^= y;
                }
            }
        }
    }
    Some(b)
}

/// A light sum of rows: the lightest row or sum of two rows of the systematic form for a random set
/// of columns. Returns the original rows to add.
fn light(rows: &[Vec<u32>], r: &mut R) -> Vec<usize> {
    let (k, n) = (rows.len(), rows[0].len());
    let words = (n + k + 63) / 64;
    let mut m: Vec<Vec<u64>> = rows
        .iter()
        .enumerate()
        .map(|(i, row)| {
            let mut v = vec![0u64; words];
            for (c, b) in row.iter().enumerate() {
                v[c / 64] |= (*b as u64 & 1) << (c % 64);
            }
            v[(n + i) / 64] |= 1 << ((n + i) % 64);
            v
        })
        .collect();
    let mut cols: Vec<usize> = (0..n).collect();
    cols.shuffle(r);
    let mut done = 0;
    for c in cols {
        if done == k {
            break;
        }
        let p = match (done..k).find(|&i| m[i][c / 64] >> (c % 64) & 1 == 1) {
            Some(p) => p,
            None => continue,
        };
        m.swap(done, p);
        for i in 0..k {
            if i != done && m[i][c / 64] >> (c % 64) & 1 == 1 {
                let x = m[done].clone();
                m[i].iter_mut().zip(x).for_each(|(a, b)| *a ^= b);
            }
        }
        done += 1;
    }
    let weight = |v: &[u64]| -> u32 { (0..n).map(|c| (v[c / 64] >> (c % 64) & 1) as u32).sum() };
    let mut best = m[0].clone();
    for i in 0..k {
        for j in i..k {
            let v: Vec<u64> = if i == j { m[i].clone() } else { m[i].iter().zip(&m[j]).map(|(a, b)| a ^ b).collect() };
            if weight(&v) < weight(&best) {
                best = v;
            }
        }
    }
    (0..k).filter(|i| best[(n + i) / 64] >> ((n + i) % 64) & 1 == 1).collect()
}

fn binary_of<const W: u8>(a: &mut Args, file: &std::path::Path, name: &str, n: usize, t: usize) {
    let mut r = rng(a.seed, 700 + n as u64 + W as u64);
    let log = Log::new();
    let text = std::fs::read_to_string(file).unwrap();
    let rows: Vec<String> = text.lines().map(|l| l.split_whitespace().collect::<String>()).collect();
    let _ = GF::<W>::init();
    let m = match guarded(|| binary_super_inv_matrix::<W>(file)) {
        Ok(m) => m,
        Err(x) => {
            log.push(json!({"e": "panic", "text": x}));
            a.out.write(name, &log);
            return;
        }
    };
    let (k, nn) = (m.shape()[0], m.shape()[1]);
    let read: Vec<String> = (0..nn)
        .map(|i| (0..k).map(|j| if u(m[[j, i]]) <= 1 { format!("{}", u(m[[j, i]])) } else { "x".into() }).collect())
        .collect();
    let out_rows: Vec<Vec<u32>> = (0..k).map(|j| (0..nn).map(|i| u(m[[j, i]])).collect()).collect();
    log.push(json!({"e": "init", "name": name, "n": n, "t": t, "k": k, "file": rows, "read": read,
                    "rows": out_rows.iter().map(|v| chunks(v)).collect::<Vec<_>>()}));
    if k <= 14 {
        if W == 18 {
            log.push(json!({"e": "distance"}));
        }
    } else if W == 18 {
        // Sets of removed inputs: consecutive ones, the support of sums of few rows, random ones.
        for i in 0..if a.thorough { 40 } else { 8 } {
            let removed: Vec<usize> = match i % 3 {
                0 => {
                    let b = r.gen_range(0..n);
                    (0..t).map(|j| (b + j) % n).collect()
                }
                1 => {
                    let (x, y) = (r.gen_range(0..k), r.gen_range(0..k));
                    let mut v: Vec<usize> =
                        (0..n).filter(|&c| (out_rows[x][c] ^ if x == y { 0 } else { out_rows[y][c] }) == 1).collect();
                    v.shuffle(&mut r);
                    v.truncate(t);
                    v
                }
                _ => rand::seq::index::sample(&mut r, n, t).into_vec(),
            };
            let mut kept: Vec<usize> = (0..n).filter(|c| !removed.contains(c)).collect();
            kept.shuffle(&mut r);
            // Columns that form a basis.
            let mut basis: Vec<usize> = Vec::new();
            let mut red: Vec<Vec<u32>> = Vec::new();
            for c in kept {
                let mut v: Vec<u32> = (0..k).map(|j| out_rows[j][c]).collect();
                for w in &red {
                    let lead = w.iter().position(|x| *x == 1).unwrap();
                    if v[lead] == 1 {
                        for j in 0..k {
                            v[j] ^= w[j];
                        }
                    }
                }
                if v.iter().any(|x| *x == 1) {
                    red.push(v);
                    basis.push(c);
                    if basis.len() == k {
                        break;
                    }
                }
            }
            let inv = if basis.len() == k {
                let sub: Vec<Vec<u32>> = (0..k).map(|j| basis.iter().map(|c| out_rows[j][*c]).collect()).collect();
                gf2_inverse(&sub).unwrap_or_default()
            } else {
                vec![]
            };
            log.push(json!({"e": "removed", "gone": removed.iter().map(|x| x + 1).collect::<Vec<_>>(),
                "basis": basis.iter().map(|x| x + 1).collect::<Vec<_>>(), "inv": inv}));
        }
        // The lightest sums of rows found by bringing the matrix into systematic form for random columns.
        for _ in 0..if a.thorough { 300 } else { 40 } {
            let s = light(&out_rows, &mut r);
            log.push(json!({"e": "sum", "rows": s.iter().map(|x| x + 1).collect::<Vec<_>>()}));
        }
        // Weights of sums of few rows.
        for i in 0..if a.thorough { 3000 } else { 400 } {
            let s: Vec<usize> = rand::seq::index::sample(&mut r, k, 1 + i % 4).into_vec();
            log.push(json!({"e": "sum", "rows": s.iter().map(|x| x + 1).collect::<Vec<_>>()}));
        }
    }
    a.out.write(&format!("{}-w{}", name, W), &log);
}

pub fn matrices(mut a: Args) {
    let ws: Vec<u8> = if a.thorough { (2..=18).collect() } else { vec![2, 3, 4, 5, 8, 9, 11, 18] };
    for w in ws {
        by_w!(w, matrices_of(&mut a));
    }
}

pub fn binary(mut a: Args) {
    let dir = std::path::Path::new("/repo/data/binsup_mat");
    let mut fs: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "txt").unwrap_or(false)).collect();
    fs.sort();
    for f in fs {
        let name = f.file_stem().unwrap().to_str().unwrap().to_string();
        let mut it = name.split('_');
        let n: usize = it.next().unwrap()[1..].parse().unwrap();
        let t: usize = it.next().unwrap()[1..].parse().unwrap();
        binary_of::<18>(&mut a, &f, &name, n, t);
        binary_of::<5>(&mut a, &f, &name, n, t);
    }
    // Matrices of other shapes written here.
    let mut r = rng(a.seed, 800);
    for (i, (rows, cols)) in [(1usize, 1usize), (1, 4), (4, 1), (3, 2), (7, 7), (2, 9)].iter().enumerate() {
        let text: String = (0..*rows)
            .map(|_| (0..*cols).map(|_| if r.gen::<bool>() { "1" } else { "0" }).collect::<Vec<_>>().join(" ") + "\n")
            .collect();
        let p = std::path::PathBuf::from(format!("{}/m{}.txt", a.scratch, i));
        // The last line may lack its line end.
        std::fs::write(&p, if i % 2 == 0 { text.trim_end().to_string() } else { text }).unwrap();
        binary_of::<2>(&mut a, &p, &format!("own{}", i), *rows, 0);
    }
}
