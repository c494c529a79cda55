//! Drivers for packed secret sharing (S01-S04).
use crate::math::{el, els, poly, u, us};
use crate::util::*;
use ndarray::{Array1, ArrayView1};
use rand::seq::SliceRandom;
use rand::{Rng, RngCore};
use scalable_mpc::math::galois::GF;
use scalable_mpc::sharing::PackedSharing;
use scalable_mpc::ProtoErrorKind;

#[macro_export]
macro_rules! by_few_w {
    ($w:expr, $f:ident ( $($a:expr),* )) => {
        match $w {
            2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*), 5 => $f::<5>($($a),*),
            8 => $f::<8>($($a),*), 9 => $f::<9>($($a),*), 11 => $f::<11>($($a),*), 16 => $f::<16>($($a),*), 18 => $f::<18>($($a),*),
            w => panic!("field size {} not covered", w),
        }
    };
}

const WS: [u8; 9] = [2, 3, 4, 5, 8, 9, 11, 16, 18];

fn head<const W: u8>(log: &Log) {
    log.push(json!({"e": "init", "w": W, "poly": poly::<W>()}));
}

struct Conf<const W: u8> {
    n: usize,
    d: usize,
    pos: Vec<GF<W>>,
    pss: PackedSharing<W>,
    coeffs: ndarray::Array2<GF<W>>,
}

fn conf<const W: u8>(log: &Log, n: usize, d: usize, pos: &[u32], degs: &[usize]) -> Conf<W> {
    let p = els::<W>(pos);
    let pss = PackedSharing::<W>::new(d as u32, n as u32, &p);
    log.push(json!({"e": "conf", "n": n, "d": d, "pos": pos, "xs": us(PackedSharing::<W>::share_pos(n as u32).iter()),
        "degs": degs, "reported": [pss.num_parties(), pss.num_secrets(), pss.degree()]}));
    let coeffs = PackedSharing::<W>::compute_share_coeffs(d as u32, n as u32, &p);
    Conf { n, d, pos: p, pss, coeffs }
}

/// Distinct positions outside the parties' ones: the default slots, wire positions, or any.
fn positions<const W: u8>(r: &mut R, n: usize, l: usize) -> Vec<u32> {
    let o = 1u64 << W;
    let xs = us(PackedSharing::<W>::share_pos(n as u32).iter());
    let mut v: Vec<u32> = match r.gen_range(0..3) {
        0 => us(PackedSharing::<W>::default_pos(n as u32, l as u32).iter()),
        1 if (n + 3 * l) as u64 <= o => {
            let w: Vec<u32> = (0..2 * l as u32).collect();
            let mut w: Vec<u32> = us(PackedSharing::<W>::wire_to_pos(n as u32, l as u32, w.into_iter()).collect::<Vec<_>>().iter());
            w.shuffle(r);
            w.truncate(l);
            w
        }
        _ => {
            let mut v: Vec<u32> = Vec::new();
            while v.len() < l {
                let x = if W <= 5 || r.gen() { r.gen_range(0..(1u32 << W)) } else { (1u32 << W) - 1 - r.gen_range(0..64) % (1 << W) };
                if !xs.contains(&x) && !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        }
    };
    if r.gen_range(0..3) == 0 {
        v.shuffle(r);
    }
    v
}

fn res_text<const W: u8>(x: &Result<Vec<GF<W>>, ProtoErrorKind>) -> (&'static str, Vec<u32>) {
    match x {
        Ok(v) => ("ok", us(v.iter())),
        Err(ProtoErrorKind::MaliciousBehavior) => ("malicious", vec![]),
        Err(_) => ("other", vec![]),
    }
}

fn recons<const W: u8>(c: &Conf<W>, sh: &[GF<W>]) -> Vec<Vec<u32>> {
    let v = Array1::from_vec(sh.to_vec());
    let rc = PackedSharing::<W>::compute_recon_coeffs(c.d as u32, c.n as u32, &c.pos);
    vec![
        us(c.pss.semihon_recon(v.view()).iter()),
        res_text(&c.pss.recon(v.view())).1,
        us(PackedSharing::recon_using_coeffs(v.view(), rc.view()).iter()),
        us(PackedSharing::recon_using_coeffs(v.view(), c.pss.recon_coeffs()).iter()),
    ]
}

fn deal<const W: u8, G: RngCore>(c: &Conf<W>, how: usize, secrets: &[GF<W>], g: &mut G) -> Vec<GF<W>> {
    let s = ArrayView1::from(secrets);
    match how {
        0 => c.pss.share(s, g),
        1 => PackedSharing::share_using_coeffs(s, c.coeffs.view(), c.pos.len() as u32, g),
        _ => c.pss.rand(g),
    }
}
const HOW: [&str; 3] = ["share", "coeffs", "rand"];

fn share_event<const W: u8>(log: &Log, c: &Conf<W>, how: usize, secrets: &[u32], r: &mut R) {
    let s = els::<W>(secrets);
    match guarded(|| {
        let sh = deal(c, how, &s, r);
        let rec = recons(c, &sh);
        (sh, rec)
    }) {
        Ok((sh, rec)) => log.push(json!({"e": "share", "how": HOW[how], "secrets": if how == 2 { vec![] } else { secrets.to_vec() },
                                         "shares": us(sh.iter()), "recons": rec})),
        Err(x) => log.push(json!({"e": "panic", "text": x})),
    }
}

fn secrets<const W: u8>(r: &mut R, k: usize) -> Vec<u32> {
    let o = 1u32 << W;
    (0..k)
        .map(|_| match r.gen_range(0..4) {
            0 => 0,
            1 => o - 1,
            _ => r.gen_range(0..o),
        })
        .collect()
}

/// (n, l, d) with l - 1 <= d < n that fit into the field.
fn shapes<const W: u8>(r: &mut R, thorough: bool) -> Vec<(usize, usize, usize)> {
    let o = 1usize << W;
    let mut v = Vec::new();
    if W <= 3 {
        for n in 1..o {
            for l in 1..=(o - n) {
                for d in (l - 1)..n {
                    v.push((n, l, d));
                }
            }
        }
    } else {
        let big: &[usize] = match W {
            4 => &[2, 3, 5, 8, 11, 13, 15],
            5 => &[3, 4, 7, 16, 20, 27],
            8 => &[3, 5, 16, 17, 33, 200],
            _ => &[3, 5, 9, 16, 33],
        };
        let mut cases: Vec<usize> = big.to_vec();
        if thorough {
            cases.extend(big);
            cases.extend(big);
            if W >= 9 {
                cases.push(128);
            }
        }
        for n in cases {
            let ds = [n - 1, n / 2, n / 3, r.gen_range(0..n)];
            for d in ds {
                if n > 64 && d > 20 {
                    v.push((n, 2, 12));
                    continue;
                }
                let lmax = (d + 1).min(o - n).min(9);
                for l in [1, lmax, 1 + r.gen_range(0..lmax)] {
                    v.push((n, l, d));
                }
            }
        }
        v.sort_unstable();
        v.dedup();
    }
    v
}

fn s01_of<const W: u8>(a: &mut Args) {
    let mut r = rng(a.seed, 1000 + W as u64);
    let log = Log::new();
    head::<W>(&log);
    let o = 1usize << W;
    for (n, l, d) in shapes::<W>(&mut r, a.thorough) {
        let pos = positions::<W>(&mut r, n, l);
        let c = conf::<W>(&log, n, d, &pos, &[d]);
        if W <= 3 && o.pow(l as u32) <= 64 {
            // all secrets
            for k in 0..o.pow(l as u32) {
                let s: Vec<u32> = (0..l).map(|i| (k / o.pow(i as u32) % o) as u32).collect();
                share_event(&log, &c, k % 2, &s, &mut r);
            }
        }
        for how in 0..3 {
            for k in [l, l, l - 1, 0, r.gen_range(0..=l)] {
                let s = secrets::<W>(&mut r, k);
                share_event(&log, &c, how, &s, &mut r);
            }
        }
    }
    a.out.write(&format!("w{}", W), &log);
}

pub fn s01(mut a: Args) {
    for w in WS {
        by_few_w!(w, s01_of(&mut a));
    }
}

fn s02_of<const W: u8>(a: &mut Args) {
    let mut r = rng(a.seed, 1100 + W as u64);
    let log = Log::new();
    head::<W>(&log);
    let o = 1usize << W;
    let mut sh = shapes::<W>(&mut r, a.thorough);
    sh.retain(|(n, _, _)| *n <= 33);
    for (n, l, d) in sh {
        let pos = positions::<W>(&mut r, n, l);
        let mut degs: Vec<usize> = (1..).map(|k| k * d).take_while(|x| *x < n).take(4).collect();
        degs.push(d);
        degs.push(n - 1);
        degs.sort_unstable();
        degs.dedup();
        let c = conf::<W>(&log, n, d, &pos, &degs);
        let mut regs: Vec<(usize, Vec<GF<W>>)> = Vec::new();
        for k in 0..3 {
            let s = secrets::<W>(&mut r, l);
            let x = deal(&c, k % 2, &els::<W>(&s), &mut r);
            log.push(json!({"e": "reg", "d": d, "shares": us(x.iter()), "secrets": s}));
            regs.push((d, x));
        }
        for _ in 0..if a.thorough { 20 } else { 7 } {
            let i = r.gen_range(0..regs.len());
            let j = r.gen_range(0..regs.len());
            let cst = r.gen_range(0..o as u32);
            let mut op = *choose(&mut r, &["add", "sub", "scale", "const", "mul", "mul", "mul"]);
            let md = regs[i].0 + regs[j].0;
            if op == "mul" && (md >= n || !degs.contains(&md)) {
                op = "add";
            }
            let (a1, b1) = (Array1::from_vec(regs[i].1.clone()), Array1::from_vec(regs[j].1.clone()));
            let k = el::<W>(cst);
            let (deg, x) = match op {
                "add" => (regs[i].0.max(regs[j].0), &a1 + &b1),
                "sub" => (regs[i].0.max(regs[j].0), &a1 - &b1),
                "mul" => (md, &a1 * &b1),
                "scale" => (regs[i].0, a1.mapv(|x| x * k)),
                _ => (regs[i].0, a1.mapv(|x| x + k)),
            };
            let pss = PackedSharing::<W>::new(deg as u32, n as u32, &c.pos);
            let rec = pss.semihon_recon(x.view());
            log.push(json!({"e": "op", "op": op, "i": i + 1, "j": j + 1, "c": cst, "d": deg, "shares": us(x.iter()), "recon": us(rec.iter())}));
            regs.push((deg, x.to_vec()));
        }
    }
    // Positions
    let mut cases = vec![(1usize, 1usize), (3, 1), (5, 2), (16, 3), (33, 8), (100, 20)];
    if W <= 4 {
        cases = (1..o).flat_map(|n| (1..=(o - n)).map(move |l| (n, l))).collect();
    }
    for (n, l) in cases {
        if n + l > o {
            continue;
        }
        let room = o - n - l;
        let k = if W <= 11 { room } else { room.min(4000) };
        // Wires from the start and up to the end of what the field admits.
        for from in [0, room - k] {
            let wires: Vec<u32> = (from as u32..(from + k) as u32).collect();
            let w: Vec<GF<W>> = PackedSharing::<W>::wire_to_pos(n as u32, l as u32, wires.iter().cloned()).collect();
            let one: Vec<bool> = wires
                .iter()
                .step_by(7)
                .map(|x| PackedSharing::<W>::wire_to_pos(n as u32, l as u32, vec![*x].into_iter()).next() == Some(w[(*x as usize) - from]))
                .collect();
            log.push(json!({"e": "positions", "n": n, "l": l, "k": k,
                "parties": us(PackedSharing::<W>::share_pos(n as u32).iter()),
                "slots": us(PackedSharing::<W>::default_pos(n as u32, l as u32).iter()), "wires": us(w.iter()), "same": one}));
            if room == k {
                break;
            }
        }
    }
    a.out.write(&format!("w{}", W), &log);
}

pub fn s02(mut a: Args) {
    for w in WS {
        by_few_w!(w, s02_of(&mut a));
    }
}

fn checked_event<const W: u8>(log: &Log, c: &Conf<W>, sh: &[u32]) {
    let v = Array1::from_vec(els::<W>(sh));
    match guarded(|| c.pss.recon(v.view())) {
        Ok(x) => {
            let (res, s) = res_text(&x);
            log.push(json!({"e": "checked", "shares": sh, "res": res, "secrets": s}));
        }
        Err(x) => log.push(json!({"e": "panic", "shares": sh, "text": x})),
    }
}

fn many<const W: u8>(log: &Log, c: &Conf<W>, all: &[Vec<u32>]) {
    for ch in all.chunks(256) {
        let mut res = Vec::new();
        let mut sec = Vec::new();
        for sh in ch {
            let v = Array1::from_vec(els::<W>(sh));
            match guarded(|| c.pss.recon(v.view())) {
                Ok(x) => {
                    let (t, s) = res_text(&x);
                    res.push(t.to_string());
                    sec.push(s);
                }
                Err(x) => {
                    res.push(x);
                    sec.push(vec![]);
                }
            }
        }
        log.push(json!({"e": "many", "shares": ch, "res": res, "secrets": sec}));
    }
}

fn s03_of<const W: u8>(a: &mut Args) {
    let mut r = rng(a.seed, 1200 + W as u64);
    let log = Log::new();
    head::<W>(&log);
    let o = 1usize << W;
    let limit = if a.thorough { 40000 } else { 4096 };
    for (n, l, d) in shapes::<W>(&mut r, a.thorough) {
        let pos = positions::<W>(&mut r, n, l);
        let c = conf::<W>(&log, n, d, &pos, &[d]);
        let whole = (o as f64).powi(n as i32);
        if W <= 3 && whole <= limit as f64 && (whole <= 600.0 || l <= 2) {
            // Every vector of shares.
            let all: Vec<Vec<u32>> =
                (0..o.pow(n as u32)).map(|k| (0..n).map(|i| (k / o.pow(i as u32) % o) as u32).collect()).collect();
            many(&log, &c, &all);
        } else {
            let s = secrets::<W>(&mut r, l);
            let base = us(deal(&c, 0, &els::<W>(&s), &mut r).iter());
            let mut all = vec![base.clone()];
            // A change at every position, in every bit of one of them, of any number of shares.
            for p in 0..n {
                let mut x = base.clone();
                x[p] ^= 1 + r.gen_range(0..(o as u32 - 1));
                all.push(x);
            }
            for b in 0..W {
                let mut x = base.clone();
                x[r.gen_range(0..n)] ^= 1 << b;
                all.push(x);
            }
            for k in 2..=n.min(12) {
                let k = if k == 12 { n } else { k };
                let mut x = base.clone();
                for p in rand::seq::index::sample(&mut r, n, k).into_vec() {
                    x[p] ^= 1 + r.gen_range(0..(o as u32 - 1));
                }
                all.push(x);
            }
            if n > d + 1 {
                // The same difference at several positions, two swapped shares, a shifted sharing.
                for _ in 0..4 {
                    let v = 1 + r.gen_range(0..(o as u32 - 1));
                    let mut x = base.clone();
                    for p in rand::seq::index::sample(&mut r, n, 2.min(n)).into_vec() {
                        x[p] ^= v;
                    }
                    all.push(x);
                    let mut x = base.clone();
                    x.swap(r.gen_range(0..n), r.gen_range(0..n));
                    all.push(x);
                }
                let mut x = base.clone();
                x.rotate_left(1);
                all.push(x);
                // A sharing of one degree more.
                if d + 1 < n {
                    let hi = PackedSharing::<W>::new(d as u32 + 1, n as u32, &c.pos);
                    for _ in 0..3 {
                        all.push(us(hi.share(ArrayView1::from(&els::<W>(&s)), &mut r).iter()));
                    }
                }
            }
            // Valid ones again: sums of sharings, constants, sharings by other coins.
            for how in 0..3 {
                all.push(us(deal(&c, how, &els::<W>(&s), &mut r).iter()));
            }
            all.push(vec![r.gen_range(0..o as u32); n]);
            many(&log, &c, &all);
        }
        for k in [0, 1, n - 1, n + 1, 2 * n] {
            if k != n {
                let v = secrets::<W>(&mut r, k);
                checked_event(&log, &c, &v);
            }
        }
        // A valid sharing with a share too many or too few.
        let mut x = us(deal(&c, 2, &[], &mut r).iter());
        x.push(x[0]);
        checked_event(&log, &c, &x);
        x.truncate(n - 1);
        checked_event(&log, &c, &x);
    }
    a.out.write(&format!("w{}", W), &log);
}

pub fn s03(mut a: Args) {
    for w in WS {
        by_few_w!(w, s03_of(&mut a));
    }
}

/// Random generator whose words are given: every draw yields the next digit in all W-bit positions
/// an implementation could reasonably use. Unusual draws are flagged.
struct Tape {
    w: u8,
    digits: Vec<u32>,
    used: usize,
    odd: bool,
}

impl Tape {
    fn word(&mut self) -> u32 {
        let d = *self.digits.get(self.used).unwrap_or(&0);
        self.used += 1;
        // the digit in the top and in the lowest W bits, nothing in between
        d << (32 - self.w) | d
    }
}

impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.word()
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.word() as u64;
        x << 32 | x
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.odd = true;
        dest.fill(0);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn space_event<const W: u8>(log: &Log, c: &Conf<W>, how: usize, secrets: &[u32]) -> bool {
    let o = 1usize << W;
    // Is a sampled element one digit of the tape?
    for d in 0..o as u32 {
        let mut t = Tape { w: W, digits: vec![d, 0, 0], used: 0, odd: false };
        if u(GF::<W>::rand(&mut t)) != d || t.used != 1 || t.odd {
            return false;
        }
    }
    let s = els::<W>(secrets);
    let mut t = Tape { w: W, digits: vec![], used: 0, odd: false };
    deal(c, how, &s, &mut t);
    let k = t.used;
    if t.odd || (o as f64).powi(k as i32) > 5000.0 {
        return false;
    }
    let mut all = Vec::new();
    for i in 0..o.pow(k as u32) {
        let digits = (0..k).map(|j| (i / o.pow(j as u32) % o) as u32).collect();
        let mut t = Tape { w: W, digits, used: 0, odd: false };
        all.push(us(deal(c, how, &s, &mut t).iter()));
        if t.used != k || t.odd {
            return false;
        }
    }
    log.push(json!({"e": "space", "how": HOW[how], "secrets": if how == 2 { vec![] } else { secrets.to_vec() }, "shares": all}));
    true
}

fn hist(log: &Log, what: &str, cells: usize, it: impl Iterator<Item = usize>) {
    let mut c = vec![0u32; cells];
    let (mut out, mut total) = (0u32, 0u32);
    for x in it {
        total += 1;
        if x < cells {
            c[x] += 1;
        } else {
            out += 1;
        }
    }
    log.push(json!({"e": "hist", "what": what, "cells": cells, "total": total, "outside": out, "counts": c}));
}

fn s04_of<const W: u8>(a: &mut Args) {
    let mut r = rng(a.seed, 1300 + W as u64);
    let log = Log::new();
    head::<W>(&log);
    let o = 1usize << W;
    if W <= 3 {
        for n in 2..o {
            for l in 1..=(o - n).min(3) {
                for t in 0..=3usize {
                    let d = t + l - 1;
                    if d >= n || o.pow(t as u32 + l as u32) > 5000 {
                        continue;
                    }
                    let pos = positions::<W>(&mut r, n, l);
                    let c = conf::<W>(&log, n, d, &pos, &[d]);
                    let sets: Vec<Vec<u32>> = if o.pow((l + t) as u32) <= 520 {
                        (0..o.pow(l as u32)).map(|k| (0..l).map(|i| (k / o.pow(i as u32) % o) as u32).collect()).collect()
                    } else {
                        (0..3).map(|_| secrets::<W>(&mut r, l)).collect()
                    };
                    for (i, s) in sets.iter().enumerate() {
                        for how in 0..2 {
                            if i < 8 || i % 2 == how {
                                space_event(&log, &c, how, s);
                            }
                        }
                    }
                    space_event(&log, &c, 0, &sets[0][..l - 1]);
                    if o.pow(d as u32 + 1) <= 600 {
                        space_event(&log, &c, 2, &[]);
                    }
                }
            }
        }
    }
    // Larger thresholds: shares that are to be independent, within a call and in two successive ones.
    for (n, l, t) in [(7usize, 2usize, 4usize), (12, 1, 5), (20, 3, 7), (33, 4, 10)] {
        let d = t + l - 1;
        if n + l > o || (t * W as usize > 90 && !a.thorough && n != 12) {
            continue;
        }
        let pos = positions::<W>(&mut r, n, l);
        let c = conf::<W>(&log, n, d, &pos, &[]);
        for (how, given) in [(0, l), (1, l), (0, l - 1), (2, 0)] {
            let se = els::<W>(&secrets::<W>(&mut r, given));
            // Coins per call, and as many shares that reveal nothing about each other.
            let free = d + 1 - given;
            let calls = 1 + r.gen_range(0..2);
            let q = rand::seq::index::sample(&mut r, n, free).into_vec();
            let rows: Vec<Vec<u32>> = (0..free * calls * W as usize + 80)
                .map(|_| (0..calls).flat_map(|_| { let x = deal(&c, how, &se, &mut r); q.iter().map(|p| u(x[*p])).collect::<Vec<_>>() }).collect())
                .collect();
            log.push(json!({"e": "free", "how": how, "given": given, "calls": calls, "parties": q, "rows": rows}));
        }
    }
    // With a real generator: views of t parties for fixed secrets, successive calls, secrets and shares.
    let b = W.min(2);
    let cells = 1usize << b;
    let runs = if a.thorough { 3 } else { 1 };
    for _ in 0..runs {
        for (n, l, t) in [(3usize, 1usize, 1usize), (5, 2, 2), (9, 3, 3), (16, 3, 5)] {
            let d = t + l - 1;
            if n + l > o {
                continue;
            }
            let pos = positions::<W>(&mut r, n, l);
            let c = conf::<W>(&log, n, d, &pos, &[]);
            let top = |x: GF<W>| (u(x) >> (W - b)) as usize;
            let low = |x: GF<W>| (u(x) as usize) & (cells - 1);
            for how in 0..3 {
                for case in 0..2 {
                    let s = if case == 0 { vec![0; l] } else { secrets::<W>(&mut r, l) };
                    let se = els::<W>(&s);
                    let k = 4096usize * cells.pow(t.min(3) as u32) / 4;
                    let v: Vec<Vec<GF<W>>> = (0..k).map(|_| deal(&c, how, &se, &mut r)).collect();
                    let q = rand::seq::index::sample(&mut r, n, t.min(3)).into_vec();
                    let m = cells.pow(q.len() as u32);
                    hist(&log, "view high", m, v.iter().map(|x| q.iter().fold(0, |acc, p| acc * cells + top(x[*p]))));
                    hist(&log, "view low", m, v.iter().map(|x| q.iter().fold(0, |acc, p| acc * cells + low(x[*p]))));
                    let p = r.gen_range(0..n);
                    hist(&log, "calls", cells * cells, v.chunks(2).map(|x| top(x[0][p]) * cells + top(x[1][p])));
                    let p2 = r.gen_range(0..n);
                    hist(&log, "calls low", cells * cells, v.chunks(2).map(|x| low(x[0][p]) * cells + low(x[1][p2])));
                    if how == 2 {
                        let rec: Vec<usize> = v.iter().map(|x| low(c.pss.semihon_recon(ArrayView1::from(x))[l - 1])).collect();
                        hist(&log, "random secret", cells, rec.iter().cloned());
                        hist(&log, "random secret and share", cells * cells, rec.iter().zip(&v).map(|(s, x)| s * cells + low(x[p])));
                    } else {
                        // fewer secrets: the rest is random
                        let w: Vec<usize> = (0..k).map(|_| low(c.pss.semihon_recon(ArrayView1::from(&deal(&c, how, &se[..l - 1], &mut r)))[l - 1])).collect();
                        hist(&log, "unset secret", cells, w.into_iter());
                    }
                }
            }
        }
    }
    a.out.write(&format!("w{}", W), &log);
}

pub fn s04(mut a: Args) {
    for w in WS {
        by_few_w!(w, s04_of(&mut a));
    }
}
