//! Drivers for the multi-party protocols (P01-P04, R01, R02).
use crate::by_few_w;
use crate::math::{el, els, mat, poly, us};
use crate::sim::{self, Policy};
use crate::util::*;
use ndarray::{Array1, Array2};
use rand::seq::SliceRandom;
use rand::Rng;
use scalable_mpc::math::{galois::GF, super_inv_matrix, Combination};
use scalable_mpc::protocol::core::{self, RandSharingTransform, SharingTransform};
use scalable_mpc::protocol::network::Network;
use scalable_mpc::protocol::preproc::{self, RandBitContext, RandContext, ZeroContext};
use scalable_mpc::protocol::{MPCContext, ProtocolID};
use scalable_mpc::sharing::PackedSharing;
use std::collections::HashMap;
use std::sync::Arc;

/// Sharings: one vector of n shares each.
pub type Sh<const W: u8> = Vec<Vec<GF<W>>>;

pub fn contexts<const W: u8>(n: usize, t: usize, l: usize, key: usize, mssg: usize) -> Vec<MPCContext<W>> {
    GF::<W>::init().unwrap();
    let def = PackedSharing::<W>::default_pos(n as u32, l as u32);
    let pss = Arc::new(PackedSharing::<W>::new((t + l - 1) as u32, n as u32, &def));
    let pss_n = Arc::new(PackedSharing::<W>::new(n as u32 - 1, n as u32, &def));
    (0..n)
        .map(|p| MPCContext {
            id: p as u16,
            n,
            t,
            l,
            lpn_tau: 2,
            lpn_key_len: key,
            lpn_mssg_len: mssg,
            pss: pss.clone(),
            pss_n: pss_n.clone(),
        })
        .collect()
}

pub fn head<const W: u8>(log: &Log, c: &MPCContext<W>) {
    log.push(json!({"e": "init", "w": W, "poly": poly::<W>()}));
    ctx_event(log, c);
}

pub fn ctx_event<const W: u8>(log: &Log, c: &MPCContext<W>) {
    log.push(json!({"e": "ctx", "n": c.n, "t": c.t, "l": c.l, "xs": us(PackedSharing::<W>::share_pos(c.n as u32).iter()),
                    "def": us(defpos(c).iter())}));
}

pub fn any<const W: u8>(r: &mut R) -> GF<W> {
    el::<W>(r.gen_range(0..1u32 << W))
}
pub fn defpos<const W: u8>(c: &MPCContext<W>) -> Vec<GF<W>> {
    PackedSharing::<W>::default_pos(c.n as u32, c.l as u32)
}
pub fn wirepos<const W: u8>(c: &MPCContext<W>, w: &[u32]) -> Vec<GF<W>> {
    PackedSharing::<W>::wire_to_pos(c.n as u32, c.l as u32, w.iter().cloned()).collect()
}

/// Deals sharings by interpolation of its own.
#[derive(Clone)]
pub struct Dealer<const W: u8> {
    mat: Sh<W>,
    k: usize,
}

impl<const W: u8> Dealer<W> {
    pub fn new(d: usize, n: usize, pos: &[GF<W>]) -> Self {
        let xs = PackedSharing::<W>::share_pos(n as u32);
        assert!(pos.len() <= d + 1);
        let pts: Vec<GF<W>> = pos.iter().chain(xs.iter()).cloned().take(d + 1).collect();
        let mat = xs
            .iter()
            .map(|x| {
                (0..pts.len())
                    .map(|i| {
                        let mut num = GF::<W>::ONE;
                        let mut den = GF::<W>::ONE;
                        for j in 0..pts.len() {
                            if j != i {
                                num = num * (*x - pts[j]);
                                den = den * (pts[i] - pts[j]);
                            }
                        }
                        num / den
                    })
                    .collect()
            })
            .collect();
        Dealer { mat, k: pts.len() }
    }
    pub fn deal(&self, r: &mut R, secrets: &[GF<W>]) -> Vec<GF<W>> {
        let v: Vec<GF<W>> = (0..self.k).map(|i| if i < secrets.len() { secrets[i] } else { any(r) }).collect();
        self.mat
            .iter()
            .map(|row| row.iter().zip(&v).fold(GF::<W>::ZERO, |a, (x, y)| a + *x * *y))
            .collect()
    }
    pub fn many(&self, r: &mut R, num: usize, secrets: impl Fn(&mut R) -> Vec<GF<W>>) -> Sh<W> {
        (0..num)
            .map(|_| {
                let s = secrets(r);
                self.deal(r, &s)
            })
            .collect()
    }
}

pub fn col<const W: u8>(s: &Sh<W>, p: usize) -> Array1<GF<W>> {
    Array1::from_vec(s.iter().map(|v| v[p]).collect())
}
pub fn nums<const W: u8>(s: &Sh<W>) -> Value {
    json!(s.iter().map(|v| us(v.iter())).collect::<Vec<_>>())
}
/// Sharings from the vectors of the parties.
pub fn gather<const W: u8>(per: &[Vec<GF<W>>]) -> Sh<W> {
    (0..per[0].len()).map(|i| per.iter().map(|v| v[i]).collect()).collect()
}

/// One instance of a protocol with the inputs of all parties.
#[derive(Clone)]
pub enum Kind<const W: u8> {
    Reduce { x: Sh<W>, r: Sh<W>, z: Sh<W>, leader: Option<u16> },
    Mult { x: Sh<W>, y: Sh<W>, r: Sh<W>, z: Sh<W>, leader: Option<u16> },
    Trans { old: Vec<GF<W>>, new: Vec<GF<W>>, f: Vec<usize>, x: Sh<W>, r: Sh<W>, rn: Sh<W>, leader: Option<u16> },
    RandTrans { tfs: Vec<(Vec<GF<W>>, Vec<GF<W>>, Vec<usize>)>, num: usize, randoms: Sh<W>, zeros: Sh<W> },
    Gen { kind: &'static str, num: usize, m: Arc<Array2<GF<W>>> },
}

#[derive(Clone)]
pub struct Job<const W: u8> {
    pub id: ProtocolID,
    pub stage: usize,
    pub kind: Kind<W>,
}

async fn exec<const W: u8>(id: ProtocolID, kind: Kind<W>, c: MPCContext<W>, net: Network) -> Sh<W> {
    let p = c.id as usize;
    match kind {
        Kind::Reduce { x, r, z, leader } => vec![core::reduce_degree(id, col(&x, p), col(&r, p), col(&z, p), leader, c, net).await.to_vec()],
        Kind::Mult { x, y, r, z, leader } => {
            vec![core::mult(id, col(&x, p), col(&y, p), col(&r, p), col(&z, p), leader, c, net).await.to_vec()]
        }
        Kind::Trans { old, new, f, x, r, rn, leader } => {
            let tf = SharingTransform::new(old, new, Combination::new(f));
            vec![core::trans(id, col(&x, p), col(&r, p), col(&rn, p), tf, leader, c, net).await.to_vec()]
        }
        Kind::RandTrans { tfs, randoms, zeros, .. } => {
            let old: Vec<_> = tfs.iter().map(|x| x.0.clone()).collect();
            let new: Vec<_> = tfs.iter().map(|x| x.1.clone()).collect();
            let f: Vec<_> = tfs.iter().map(|x| Combination::new(x.2.clone())).collect();
            let tf = RandSharingTransform::new(&old, &new, &f, &c);
            let (a, b) = core::randtrans(id, col(&randoms, p).to_vec().into(), col(&zeros, p).to_vec().into(), tf, c, net).await;
            a.outer_iter().chain(b.outer_iter()).map(|x| x.to_vec()).collect()
        }
        Kind::Gen { kind, num, m } => vec![match kind {
            "rand" => preproc::rand(id, num, RandContext::new(m, &c), net).await,
            "zero" => preproc::zero(id, num, ZeroContext::new(m, &c), net).await,
            _ => preproc::randbit(id, num, RandBitContext::new(m, &c), net).await,
        }
        .to_vec()],
    }
}

pub type JobRun<const W: u8> = sim::Run<Vec<Sh<W>>>;

/// Runs the jobs of a stage concurrently, the stages one after another.
pub fn run_jobs<const W: u8>(ctxs: &[MPCContext<W>], jobs: &[Job<W>], policy: &Policy, r: &mut R, record: bool) -> JobRun<W> {
    sim::run(ctxs.len(), policy, r, record, |p, net| {
        let c = ctxs[p].clone();
        let jobs = jobs.to_vec();
        async move {
            let mut out: Vec<Option<Sh<W>>> = jobs.iter().map(|_| None).collect();
            let last = jobs.iter().map(|j| j.stage).max().unwrap_or(0);
            for st in 0..=last {
                let mut hs = Vec::new();
                for (k, j) in jobs.iter().enumerate() {
                    if j.stage == st {
                        hs.push((k, tokio::spawn(exec(j.id.clone(), j.kind.clone(), c.clone(), net.clone()))));
                    }
                }
                for (k, h) in hs {
                    out[k] = Some(h.await.unwrap());
                }
            }
            out.into_iter().map(|x| x.unwrap()).collect()
        }
    })
}

fn idx(f: &[usize]) -> Vec<usize> {
    f.iter().map(|x| x + 1).collect()
}

pub fn run_event<T>(log: &Log, what: &str, run: &sim::Run<T>) -> bool {
    log.push(json!({"e": "run", "what": what, "status": run.status(), "unclaimed": run.unclaimed, "inflight": run.in_flight}));
    run.ok()
}

/// Messages of an instance: (from, to) -> contents in order.
fn dealt<const W: u8>(n: usize, id: &ProtocolID, record: &[(usize, usize, ProtocolID, Vec<u8>)]) -> Vec<Sh<W>> {
    let mut m: HashMap<(usize, usize), Vec<GF<W>>> = HashMap::new();
    for (p, q, i, d) in record {
        if i == id {
            if let Ok(v) = bincode::deserialize::<Vec<GF<W>>>(d) {
                m.entry((*p, *q)).or_default().extend(v);
            }
        }
    }
    (0..n)
        .map(|p| {
            let per: Vec<Vec<GF<W>>> = (0..n).map(|q| m.get(&(p, q)).cloned().unwrap_or_default()).collect();
            let k = per.iter().map(|v| v.len()).min().unwrap();
            (0..k).map(|b| per.iter().map(|v| v[b]).collect()).collect()
        })
        .collect()
}

/// Records the outcome of a run.
pub fn events<const W: u8>(log: &Log, what: &str, jobs: &[Job<W>], run: JobRun<W>) -> Option<Vec<Vec<Sh<W>>>> {
    if !run_event(log, what, &run) {
        return None;
    }
    let n = run.out.len();
    let record = run.record.clone();
    let out = run.take(); // [party][job][row][..]
    let mut all = Vec::new();
    for (k, j) in jobs.iter().enumerate() {
        let rows = out[0][k].len();
        let g: Vec<Sh<W>> = (0..rows).map(|i| gather(&(0..n).map(|p| out[p][k][i].clone()).collect::<Vec<_>>())).collect();
        match &j.kind {
            Kind::Reduce { x, .. } => log.push(json!({"e": "reduce", "x": nums(x), "out": nums(&g[0])})),
            Kind::Mult { x, y, .. } => log.push(json!({"e": "mult", "x": nums(x), "y": nums(y), "out": nums(&g[0])})),
            Kind::Trans { old, new, f, x, .. } => {
                log.push(json!({"e": "trans", "old": us(old.iter()), "new": us(new.iter()), "f": idx(f), "x": nums(x), "out": nums(&g[0])}))
            }
            Kind::RandTrans { tfs, num, .. } => {
                let l = rows / 2;
                for (i, (o, nw, f)) in tfs.iter().enumerate() {
                    log.push(json!({"e": "pairs", "num": num, "old": us(o.iter()), "new": us(nw.iter()), "f": idx(f),
                                    "r": nums(&g[i]), "rn": nums(&g[l + i])}));
                }
            }
            Kind::Gen { kind, num, m } => log.push(json!({"e": "generated", "kind": kind, "num": num, "m": mat(&m), "fresh": W >= 16,
                "dealt": dealt::<W>(n, &j.id, &record).iter().map(nums).collect::<Vec<_>>(), "out": nums(&g[0])})),
        }
        all.push(g);
    }
    Some(all)
}

// --- inputs ---------------------------------------------------------------------
fn low<const W: u8>(c: &MPCContext<W>) -> Dealer<W> {
    Dealer::new(c.t + c.l - 1, c.n, &defpos(c))
}
fn high<const W: u8>(c: &MPCContext<W>) -> Dealer<W> {
    Dealer::new(c.n - 1, c.n, &defpos(c))
}
pub fn zeros<const W: u8>(c: &MPCContext<W>, r: &mut R, num: usize) -> Sh<W> {
    let h = high(c);
    let l = c.l;
    h.many(r, num, |_| vec![GF::<W>::ZERO; l])
}
pub fn randoms<const W: u8>(c: &MPCContext<W>, r: &mut R, num: usize) -> Sh<W> {
    low(c).many(r, num, |_| vec![])
}
fn some_secrets<const W: u8>(l: usize) -> impl Fn(&mut R) -> Vec<GF<W>> {
    move |r: &mut R| (0..l).map(|_| if r.gen_range(0..4) == 0 { GF::<W>::ZERO } else { any(r) }).collect()
}

pub fn reduce_job<const W: u8>(c: &MPCContext<W>, r: &mut R, num: usize, leader: Option<u16>) -> Kind<W> {
    let l = c.l;
    let x = if r.gen_range(0..3) == 0 { low(c).many(r, num, some_secrets(l)) } else { high(c).many(r, num, some_secrets(l)) };
    Kind::Reduce { x, r: randoms(c, r, num), z: zeros(c, r, num), leader }
}
pub fn mult_job<const W: u8>(c: &MPCContext<W>, r: &mut R, num: usize, leader: Option<u16>) -> Kind<W> {
    let l = c.l;
    let d = low(c);
    Kind::Mult { x: d.many(r, num, some_secrets(l)), y: d.many(r, num, some_secrets(l)), r: randoms(c, r, num), z: zeros(c, r, num), leader }
}
/// A transformation as garbling uses them: default slots to wires, or distinct wires to default slots.
pub fn some_transform<const W: u8>(c: &MPCContext<W>, r: &mut R) -> (Vec<GF<W>>, Vec<GF<W>>, Vec<usize>) {
    let room = (1usize << W) - c.n - c.l;
    let k = if r.gen() { c.l } else { r.gen_range(1..=c.l) };
    let def = defpos(c)[..k].to_vec();
    let mut ws: Vec<u32> = rand::seq::index::sample(r, room.min(4000), k.min(room)).into_iter().map(|x| x as u32).collect();
    if room > 4000 && r.gen() {
        ws.iter_mut().for_each(|w| *w += (room - 4000) as u32);
    }
    if ws.len() == k && r.gen() {
        return (def, wirepos(c, &ws), (0..k).collect());
    }
    // Several slots may take the same wire.
    ws.sort_unstable();
    ws.truncate(r.gen_range(1..=ws.len()));
    let mut f: Vec<usize> = (0..k).map(|_| r.gen_range(0..ws.len())).collect();
    if r.gen() && ws.len() == k {
        f = (0..k).collect();
        f.shuffle(r);
    }
    (wirepos(c, &ws), def, f)
}
pub fn trans_job<const W: u8>(c: &MPCContext<W>, r: &mut R, num: usize, leader: Option<u16>) -> Kind<W> {
    let (old, new, f) = some_transform(c, r);
    let dn = Dealer::new(c.n - 1, c.n, &old);
    let d = Dealer::new(c.t + c.l - 1, c.n, &new);
    let (mut rs, mut rns) = (Vec::new(), Vec::new());
    for _ in 0..num {
        let s: Vec<GF<W>> = old.iter().map(|_| any(r)).collect();
        rns.push(dn.deal(r, &s));
        let fs: Vec<GF<W>> = f.iter().map(|i| s[*i]).collect();
        rs.push(d.deal(r, &fs));
    }
    let k = old.len();
    let x = dn.many(r, num, some_secrets(k));
    Kind::Trans { old, new, f, x, r: rs, rn: rns, leader }
}
pub fn randtrans_job<const W: u8>(c: &MPCContext<W>, r: &mut R, num: usize, count: usize) -> Kind<W> {
    let tfs = (0..count).map(|_| some_transform(c, r)).collect();
    Kind::RandTrans { tfs, num, randoms: randoms(c, r, num * (c.n + c.t)), zeros: zeros(c, r, num * 2 * c.n) }
}
pub fn bit_matrix<const W: u8>(n: usize, t: usize) -> Array2<GF<W>> {
    // Keeps rank n - 2t (at least 1) after removal of any t columns for t <= 1; the sum of all for others.
    if t <= 1 && n >= 3 {
        Array2::from_shape_fn((n - 1, n), |(i, j)| if j == i || j == n - 1 { GF::ONE } else { GF::ZERO })
    } else {
        Array2::from_shape_fn((1, n), |_| GF::ONE)
    }
}
pub fn gen_job<const W: u8>(c: &MPCContext<W>, r: &mut R, num: usize) -> Kind<W> {
    let kind = *choose(r, &["rand", "zero", "bit"]);
    gen_of(c, kind, num)
}
pub fn gen_of<const W: u8>(c: &MPCContext<W>, kind: &'static str, num: usize) -> Kind<W> {
    let m = if kind == "bit" { bit_matrix(c.n, c.t) } else { super_inv_matrix::<W>(c.n, c.n - c.t) };
    Kind::Gen { kind, num, m: Arc::new(m) }
}

/// (W, n, t, l) for which everything fits into the field.
const SETS: [(u8, usize, usize, usize); 12] = [
    (3, 3, 1, 1),
    (2, 3, 1, 1),
    (4, 5, 1, 2),
    (4, 5, 2, 1),
    (4, 4, 0, 2),
    (5, 7, 1, 3),
    (5, 8, 2, 2),
    (8, 16, 5, 3),
    (16, 16, 3, 5),
    (18, 9, 2, 3),
    (8, 33, 8, 9),
    (3, 3, 0, 1),
];

fn some_id(r: &mut R) -> ProtocolID {
    let k = *choose(r, &[1usize, 2, 3, 5, 8, 13]);
    (0..k).map(|_| *choose(r, &[0u8, 1, 2, 255, 17])).collect()
}

pub fn script(v: &Value) -> Vec<(usize, usize)> {
    v.as_array().unwrap().iter().map(|s| (s[0].as_u64().unwrap() as usize - 1, s[1].as_u64().unwrap() as usize - 1)).collect()
}

fn p01_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 2000 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    head(&log, &ctxs[0]);
    let nums_: &[usize] = if n > 20 { &[1, 3] } else { &[1, 0, 2, 5, 17] };
    let reps = if a.thorough { 4 } else { 1 };
    let mut pols = sim::policies(n, &mut r);
    let mut leaders: Vec<Option<u16>> = (0..n as u16).map(Some).collect();
    leaders.shuffle(&mut r);
    leaders.truncate(6);
    for _ in 0..4 {
        leaders.push(None);
    }
    for rep in 0..reps {
        for (k, leader) in leaders.iter().enumerate() {
            let num = nums_[(k + rep) % nums_.len()];
            let kind = if k % 2 == rep % 2 { reduce_job(&ctxs[0], &mut r, num, *leader) } else { mult_job(&ctxs[0], &mut r, num, *leader) };
            let jobs = vec![Job { id: some_id(&mut r), stage: 0, kind }];
            let pol = pols[(k + rep) % pols.len()].clone();
            let run = run_jobs(&ctxs, &jobs, &pol, &mut r, false);
            events(&log, &format!("{:?}", pol), &jobs, run);
        }
        pols.rotate_left(1);
    }
    // A result is a fresh sharing: fixed inputs, only the leader's coins vary. Bits of two results
    // of one batch together, t free shares each.
    let bits = 2 * t * W as usize;
    if t > 0 && bits <= 60 {
        for mult in [false, true] {
            let kind = if mult { mult_job(&ctxs[0], &mut r, 2, Some((n - 1) as u16)) } else { reduce_job(&ctxs[0], &mut r, 2, None) };
            let mut rows = Vec::new();
            for _ in 0..bits + 50 {
                let jobs = vec![Job { id: vec![7], stage: 0, kind: kind.clone() }];
                let run = run_jobs(&ctxs, &jobs, &Policy::Fifo, &mut r, false);
                if !run.ok() {
                    run_event(&log, "fresh", &run);
                    break;
                }
                let out = run.take();
                rows.push(out.iter().flat_map(|o| us(o[0][0].iter())).collect::<Vec<u32>>());
            }
            log.push(json!({"e": "rank", "dim": bits, "rows": rows}));
        }
    }
    // Uniform, for a small field.
    if W <= 3 && t == 1 && l == 1 {
        let kind = match mult_job(&ctxs[0], &mut r, 1, Some(0)) {
            Kind::Mult { x, y, r, z, leader } => {
                let big = |s: Sh<W>| -> Sh<W> { std::iter::repeat(s[0].clone()).take(6000).collect() };
                Kind::Mult { x: big(x), y: big(y), r: big(r), z: big(z), leader }
            }
            k => k,
        };
        let jobs = vec![Job { id: vec![9, 9], stage: 0, kind }];
        let run = run_jobs(&ctxs, &jobs, &Policy::Fifo, &mut r, false);
        if run_event(&log, "uniform", &run) {
            let out = run.take();
            let o = 1usize << W;
            for p in 0..n {
                let v = us(out[p][0][0].iter());
                let mut h = vec![0usize; o];
                let mut h2 = vec![0usize; o * o];
                v.iter().for_each(|x| h[*x as usize] += 1);
                v.chunks(2).for_each(|x| h2[x[0] as usize * o + x[1] as usize] += 1);
                log.push(json!({"e": "hist", "cells": o, "total": v.len(), "outside": 0, "counts": h}));
                log.push(json!({"e": "hist", "cells": o * o, "total": v.len() / 2, "outside": 0, "counts": h2}));
            }
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

pub fn p01(mut a: Args) {
    for (w, n, t, l) in SETS {
        by_few_w!(w, p01_of(&mut a, n, t, l));
    }
}

fn p02_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 2100 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    let c = ctxs[0].clone();
    head(&log, &c);
    if (1usize << W) <= n + l {
        return; // no wires
    }
    let pols = sim::policies(n, &mut r);
    let many = if a.thorough { 4 } else { 1 } * if n > 20 { 3 } else { 8 };
    for k in 0..many {
        let num = [1, 3, 0, 7][k % 4];
        let leader = if k % 3 == 2 { None } else { Some((k * 7 % n) as u16) };
        let jobs = vec![Job { id: some_id(&mut r), stage: 0, kind: trans_job(&c, &mut r, num, leader) }];
        let run = run_jobs(&ctxs, &jobs, &pols[k % pols.len()], &mut r, false);
        events(&log, "trans", &jobs, run);
        let count = if k % 2 == 0 { l } else { r.gen_range(1..=l) };
        let num = [1, 2, 5, 3][k % 4];
        let jobs = vec![Job { id: some_id(&mut r), stage: 0, kind: randtrans_job(&c, &mut r, num, count) }];
        let run = run_jobs(&ctxs, &jobs, &pols[(k + 1) % pols.len()], &mut r, false);
        if let Some(out) = events(&log, "randtrans", &jobs, run) {
            // The generated pairs used for a transformation.
            if let Kind::RandTrans { tfs, num, .. } = &jobs[0].kind {
                let i = r.gen_range(0..tfs.len());
                let (old, new, f) = tfs[i].clone();
                let x = Dealer::new(c.n - 1, c.n, &old).many(&mut r, *num, some_secrets(old.len()));
                let kind = Kind::Trans { old, new, f, x, r: out[0][i].clone(), rn: out[0][l + i].clone(), leader: None };
                let jobs = vec![Job { id: some_id(&mut r), stage: 0, kind }];
                let run = run_jobs(&ctxs, &jobs, &pols[(k + 2) % pols.len()], &mut r, false);
                events(&log, "both", &jobs, run);
            }
        }
    }
    // The sharings of each degree are uniform, over all transformations of a batch.
    let distinct = |f: &Vec<usize>| f.iter().collect::<std::collections::HashSet<_>>().len();
    for count in [1, l] {
        let tfs: Vec<_> = (0..count).map(|_| some_transform(&c, &mut r)).collect();
        let dims = [
            tfs.iter().map(|x| (distinct(&x.2) + t + l - x.1.len()) * W as usize).sum::<usize>(),
            count * n * W as usize,
        ];
        if dims[1] > 300 {
            continue;
        }
        let num = dims[1] + 50;
        let kind = Kind::RandTrans { tfs: tfs.clone(), num, randoms: randoms(&c, &mut r, num * (n + t)), zeros: zeros(&c, &mut r, num * 2 * n) };
        let jobs = vec![Job { id: vec![3, 1], stage: 0, kind }];
        let run = run_jobs(&ctxs, &jobs, &Policy::Random, &mut r, false);
        if run_event(&log, "pairs", &run) {
            let out = run.take();
            for (half, dim) in dims.iter().enumerate() {
                let rows: Vec<Vec<u32>> = (0..num)
                    .map(|k| us((0..count).flat_map(|i| out.iter().map(move |o| o[0][half * l + i][k])).collect::<Vec<_>>().iter()))
                    .collect();
                log.push(json!({"e": "rank", "dim": dim, "rows": rows}));
            }
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

pub fn p02(mut a: Args) {
    for (w, n, t, l) in SETS {
        by_few_w!(w, p02_of(&mut a, n, t, l));
    }
}

// --- views (P03) ---------------------------------------------------------------------
/// Everything a party receives, in an order that does not depend on the schedule.
pub fn view(record: &[(usize, usize, ProtocolID, Vec<u8>)], p: usize) -> Vec<u8> {
    let mut v: Vec<(&ProtocolID, usize, usize, &Vec<u8>)> =
        record.iter().enumerate().filter(|(_, m)| m.1 == p).map(|(k, m)| (&m.2, m.0, k, &m.3)).collect();
    v.sort();
    v.iter().flat_map(|x| x.3.iter().cloned()).collect()
}

/// Messages that parties of a coalition receive from outside.
pub fn joint_view(record: &[(usize, usize, ProtocolID, Vec<u8>)], coalition: &[usize]) -> Vec<u8> {
    let mut v: Vec<_> = record
        .iter()
        .enumerate()
        .filter(|(_, m)| coalition.contains(&m.1) && !coalition.contains(&m.0))
        .map(|(k, m)| (&m.2, m.0, m.1, k, &m.3))
        .collect();
    v.sort();
    v.iter().flat_map(|x| x.4.iter().cloned()).collect()
}

/// What the parties of a coalition hold before the protocol begins.
fn held<const W: u8>(kind: &Kind<W>, coalition: &[usize]) -> Vec<u8> {
    let all: Vec<&Sh<W>> = match kind {
        Kind::Reduce { x, r, z, .. } => vec![x, r, z],
        Kind::Mult { x, y, r, z, .. } => vec![x, y, r, z],
        Kind::Trans { x, r, rn, .. } => vec![x, r, rn],
        Kind::RandTrans { randoms, zeros, .. } => vec![randoms, zeros],
        Kind::Gen { .. } => vec![],
    };
    all.iter().flat_map(|s| s.iter()).flat_map(|s| coalition.iter().flat_map(|p| bytes(&s[*p..*p + 1])).collect::<Vec<_>>()).collect()
}

/// Who is watched: single parties and what they receive, or coalitions of t parties and everything they hold and receive.
fn watched(n: usize, t: usize, leader: Option<u16>, joint: bool, r: &mut R) -> Vec<Vec<usize>> {
    if !joint {
        return match leader {
            Some(x) => vec![vec![x as usize], vec![(x as usize + 1) % n]],
            None => (0..n).map(|p| vec![p]).collect(),
        };
    }
    let mut all: Vec<usize> = (0..n).collect();
    all.shuffle(r);
    let some = leader.map(|x| x as usize).unwrap_or(all[0]);
    all.retain(|p| *p != some);
    let without = all[..t].to_vec();
    all.insert(0, some);
    vec![all[..t].to_vec(), without]
}

/// Packs observations into words of 30 bits, leaving out bits that never change.
pub fn pack_bits(sets: &[&Vec<Vec<u8>>]) -> Vec<Vec<Vec<u32>>> {
    let len = sets.iter().flat_map(|s| s.iter().map(|x| x.len())).max().unwrap_or(0);
    let bit = |x: &Vec<u8>, i: usize| x.get(i / 8).map(|b| b >> (i % 8) & 1).unwrap_or(0);
    let base = sets[0][0].clone();
    let vary: Vec<usize> = (0..8 * len).filter(|i| sets.iter().any(|s| s.iter().any(|x| bit(x, *i) != bit(&base, *i)))).collect();
    sets.iter()
        .map(|s| s.iter().map(|x| vary.chunks(30).map(|c| c.iter().enumerate().map(|(k, i)| (bit(x, *i) as u32) << k).sum()).collect()).collect())
        .collect()
}

/// Rank over GF(2) of the differences (only to know how many observations are needed).
pub fn affine_rank(rows: &[Vec<u8>]) -> usize {
    let mut basis: Vec<(usize, Vec<u8>)> = Vec::new();
    for x in rows.iter().skip(1) {
        let mut v: Vec<u8> = x.iter().zip(&rows[0]).map(|(a, b)| a ^ b).collect();
        for (i, b) in &basis {
            if v[*i / 8] >> (*i % 8) & 1 == 1 {
                v.iter_mut().zip(b).for_each(|(a, b)| *a ^= b);
            }
        }
        if let Some(k) = v.iter().position(|b| *b != 0) {
            let i = k * 8 + v[k].trailing_zeros() as usize;
            basis.push((i, v));
        }
    }
    basis.len()
}

/// Observes an experiment until no new direction has shown up for a while.
pub fn saturate(mut f: impl FnMut() -> Option<Vec<u8>>, max: usize) -> Vec<Vec<u8>> {
    let mut rows: Vec<Vec<u8>> = Vec::new();
    let mut basis: Vec<(usize, Vec<u8>)> = Vec::new();
    let mut quiet = 0;
    while quiet < 50 && rows.len() < max {
        let x = match f() {
            Some(x) => x,
            None => break,
        };
        if rows.is_empty() {
            rows.push(x);
            continue;
        }
        if x.len() != rows[0].len() {
            rows.push(x);
            break;
        }
        let mut v: Vec<u8> = x.iter().zip(&rows[0]).map(|(a, b)| a ^ b).collect();
        for (i, b) in &basis {
            if v[*i / 8] >> (*i % 8) & 1 == 1 {
                v.iter_mut().zip(b).for_each(|(a, b)| *a ^= b);
            }
        }
        quiet += 1;
        if let Some(k) = v.iter().position(|b| *b != 0) {
            basis.push((k * 8 + v[k].trailing_zeros() as usize, v));
            quiet = 0;
        }
        rows.push(x);
    }
    rows
}

fn p03_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, joint: bool) {
    let mut r = rng(a.seed, 2200 + W as u64 * 64 + n as u64);
    let seen = |record: &[(usize, usize, ProtocolID, Vec<u8>)], p: &Vec<usize>, own: Vec<u8>| -> Vec<u8> {
        if joint {
            own.into_iter().chain(joint_view(record, p)).collect()
        } else {
            view(record, p[0])
        }
    };
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    let c = ctxs[0].clone();
    head(&log, &c);
    let wires = (1usize << W) > n + l;
    let (lo, num) = (low(&c), 2);
    let max = 2000;
    for what in ["reduce", "mult", "trans"] {
        if what == "trans" && !wires {
            continue;
        }
        let tf = if wires { Some(some_transform(&c, &mut r)) } else { None };
        for leader in [Some(r.gen_range(0..n) as u16), None] {
            let seen_by = watched(n, t, leader, joint, &mut r);
            // Secrets of two inputs: zero, and others.
            let sec = |r: &mut R, zero: bool, k: usize| -> Sh<W> { (0..2 * num).map(|_| (0..k).map(|_| if zero { GF::ZERO } else { any(r) }).collect()).collect() };
            let k = if what == "trans" { tf.as_ref().unwrap().0.len() } else { l };
            let sets: Vec<Sh<W>> = vec![sec(&mut r, true, k), sec(&mut r, false, k)];
            for p in seen_by {
                let mut obs: Vec<Vec<Vec<u8>>> = Vec::new();
                for s in &sets {
                    let mut r2 = rng(a.seed, r.gen());
                    let mut bad = false;
                    let rows = saturate(
                        || {
                            let r = &mut r2;
                            let kind = match what {
                                "reduce" => {
                                    let x = (0..num).map(|i| lo.deal(r, &s[i])).collect();
                                    Kind::Reduce { x, r: randoms(&c, r, num), z: zeros(&c, r, num), leader }
                                }
                                "mult" => {
                                    let x = (0..num).map(|i| lo.deal(r, &s[i])).collect();
                                    let y = (0..num).map(|i| lo.deal(r, &s[num + i])).collect();
                                    Kind::Mult { x, y, r: randoms(&c, r, num), z: zeros(&c, r, num), leader }
                                }
                                "trans" => {
                                    let (old, new, f) = tf.clone().unwrap();
                                    let (dn, d) = (Dealer::new(n - 1, n, &old), Dealer::new(t + l - 1, n, &new));
                                    let dx = Dealer::new(t + l - 1, n, &old);
                                    let x = (0..num).map(|i| dx.deal(r, &s[i])).collect();
                                    let (mut rs, mut rns) = (Vec::new(), Vec::new());
                                    for _ in 0..num {
                                        let s: Vec<GF<W>> = old.iter().map(|_| any(r)).collect();
                                        rns.push(dn.deal(r, &s));
                                        rs.push(d.deal(r, &f.iter().map(|i| s[*i]).collect::<Vec<_>>()));
                                    }
                                    Kind::Trans { old, new, f, x, r: rs, rn: rns, leader }
                                }
                                _ => unreachable!(),
                            };
                            let own = held(&kind, &p);
                            let jobs = vec![Job { id: vec![5, 5], stage: 0, kind }];
                            let run = run_jobs(&ctxs, &jobs, &Policy::Fifo, r, true);
                            if !run.ok() {
                                run_event(&log, "view", &run);
                                bad = true;
                                return None;
                            }
                            Some(seen(&run.record, &p, own))
                        },
                        max,
                    );
                    if bad {
                        break;
                    }
                    obs.push(rows);
                }
                if obs.len() == 2 {
                    let v = pack_bits(&[&obs[0], &obs[1]]);
                    log.push(json!({"e": "views", "what": what, "party": p, "leader": format!("{:?}", leader), "a": v[0], "b": v[1]}));
                }
            }
        }
    }
    // Pairs for transformations: their secrets are free given what a party receives.
    for k in 0..if wires { 3 } else { 0 } {
        let tfs: Vec<_> = (0..l).map(|_| some_transform(&c, &mut r)).collect();
        let mats: Vec<Sh<W>> = tfs.iter().map(|x| interp(&PackedSharing::<W>::share_pos(n as u32), &x.0)).collect();
        let dim = num * W as usize * tfs.iter().map(|x| x.0.len()).sum::<usize>();
        let p = if joint { watched(n, t, None, joint, &mut r).remove(0) } else { vec![(k * 2 + r.gen_range(0..2)) % n] };
        let mut r2 = rng(a.seed, r.gen());
        let (mut views, mut bad) = (Vec::new(), false);
        let joint = saturate(
            || {
                let r = &mut r2;
                let kind = Kind::RandTrans { tfs: tfs.clone(), num, randoms: randoms(&c, r, num * (n + t)), zeros: zeros(&c, r, num * 2 * n) };
                let own = held(&kind, &p);
                let run = run_jobs(&ctxs, &[Job { id: vec![5, 5], stage: 0, kind }], &Policy::Fifo, r, true);
                if !run.ok() {
                    run_event(&log, "view", &run);
                    bad = true;
                    return None;
                }
                let mut v = seen(&run.record, &p, own);
                views.push(v.clone());
                let out = run.take();
                for (i, m) in mats.iter().enumerate() {
                    let rn = gather(&(0..n).map(|q| out[q][0][tfs.len() + i].clone()).collect::<Vec<_>>());
                    rn.iter().for_each(|s| v.extend(bytes(&apply(m, s))));
                }
                Some(v)
            },
            3000,
        );
        if !bad {
            log.push(json!({"e": "given", "what": "randtrans", "party": p, "dim": dim, "joint": pack_bits(&[&joint])[0], "view": pack_bits(&[&views])[0]}));
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

/// Matrix from the values of a polynomial at some points to those at others.
pub fn interp<const W: u8>(xs: &[GF<W>], to: &[GF<W>]) -> Sh<W> {
    to.iter()
        .map(|x| {
            (0..xs.len())
                .map(|i| {
                    let f = |a: GF<W>| (0..xs.len()).filter(|j| *j != i).fold(GF::<W>::ONE, |acc, j| acc * (a - xs[j]));
                    f(*x) / f(xs[i])
                })
                .collect()
        })
        .collect()
}
pub fn apply<const W: u8>(m: &Sh<W>, v: &[GF<W>]) -> Vec<GF<W>> {
    m.iter().map(|row| row.iter().zip(v).fold(GF::<W>::ZERO, |a, (x, y)| a + *x * *y)).collect()
}

pub fn p03(mut a: Args) {
    let sets: &[(u8, usize, usize, usize)] = if a.thorough { &[(3, 3, 1, 1), (2, 3, 1, 1), (4, 5, 1, 2), (4, 5, 2, 1), (5, 7, 1, 3), (5, 8, 2, 2)] } else { &[(3, 3, 1, 1), (2, 3, 1, 1), (4, 5, 1, 2), (4, 5, 2, 1)] };
    for &(w, n, t, l) in sets {
        by_few_w!(w, p03_of(&mut a, n, t, l, false));
    }
}

pub fn p05(mut a: Args) {
    let mut sets = vec![(3u8, 3usize, 1usize, 1usize), (4, 5, 1, 2), (4, 5, 2, 1)];
    if a.thorough {
        sets.extend([(4, 7, 3, 1), (5, 7, 2, 2), (5, 8, 2, 2)]);
    }
    for (w, n, t, l) in sets {
        by_few_w!(w, p03_of(&mut a, n, t, l, true));
    }
}

// --- completion and isolation (P04) -----------------------------------------------------
fn p04_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 2300 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    let c = ctxs[0].clone();
    head(&log, &c);
    let wires = (1usize << W) > n + l;
    // Concurrent and consecutive instances; identifiers that extend each other.
    let rounds = if a.thorough { 40 } else { 12 } / if n > 20 { 4 } else { 1 };
    for k in 0..rounds {
        let count = r.gen_range(2..=if n > 20 { 4 } else { 9 });
        let mut ids: Vec<ProtocolID> = vec![vec![1], vec![1, 0], vec![1, 1], vec![1, 0, 0], vec![0, 1], vec![2], vec![], vec![255], vec![1, 255], vec![0]];
        ids.shuffle(&mut r);
        let mut jobs = Vec::new();
        for id in ids.into_iter().take(count) {
            let num = r.gen_range(0..4);
            let leader = match r.gen_range(0..3) {
                0 => None,
                1 => Some(0),
                _ => Some(r.gen_range(0..n) as u16),
            };
            let kind = match r.gen_range(0..if wires { 5 } else { 3 }) {
                0 => reduce_job(&c, &mut r, num, leader),
                1 => mult_job(&c, &mut r, num, leader),
                2 => gen_job(&c, &mut r, num),
                3 => trans_job(&c, &mut r, num, leader),
                _ => randtrans_job(&c, &mut r, num, l),
            };
            jobs.push(Job { id, stage: if k % 2 == 0 { 0 } else { r.gen_range(0..3) }, kind });
        }
        let pols = sim::policies(n, &mut r);
        let pol = pols[k % pols.len()].clone();
        let run = run_jobs(&ctxs, &jobs, &pol, &mut r, true);
        events(&log, &format!("{:?}", pol), &jobs, run);
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

/// Schedules of the specification: a degree reduction and a transformation, concurrently or consecutively.
fn p04_scripts(a: &mut Args) {
    let mut r = rng(a.seed, 2350);
    let log = Log::new();
    let ctxs = contexts::<3>(3, 1, 1, 1, 1);
    head(&log, &ctxs[0]);
    for b in a.inputs() {
        let ld = |k: usize| Some(b["leaders"][k].as_u64().unwrap() as u16 - 1);
        let jobs = vec![
            Job { id: vec![1], stage: 0, kind: reduce_job(&ctxs[0], &mut r, 1, ld(0)) },
            Job { id: vec![2], stage: b["after"].as_u64().unwrap() as usize, kind: trans_job(&ctxs[0], &mut r, 1, ld(1)) },
        ];
        let pol = Policy::Script(script(&b["steps"]));
        let run = run_jobs(&ctxs, &jobs, &pol, &mut r, false);
        events(&log, "script", &jobs, run);
    }
    a.out.write("scripts", &log);
}

pub fn p04(mut a: Args) {
    if a.input.is_some() {
        return p04_scripts(&mut a);
    }
    for (w, n, t, l) in SETS {
        by_few_w!(w, p04_of(&mut a, n, t, l));
    }
}

// --- joint generation (R01, R02) ----------------------------------------------------------
fn r01_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 2400 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    let c = ctxs[0].clone();
    head(&log, &c);
    let pols = sim::policies(n, &mut r);
    let reps = if a.thorough { 4 } else { 1 };
    let mut k = 0;
    for _ in 0..reps {
        for kind in ["rand", "zero", "bit"] {
            let b = n - t;
            for num in [1, b, b + 1, 3 * b - 1, 0, 2] {
                if n > 20 && num > b {
                    continue;
                }
                let mut job = gen_of(&c, kind, num);
                // The shipped binary matrices and other matrices.
                if let Kind::Gen { m, .. } = &mut job {
                    if kind == "bit" && n == 16 && W == 8 {
                        *m = Arc::new(scalable_mpc::math::binary_super_inv_matrix::<W>(std::path::Path::new("/repo/data/binsup_mat/n16_t5.txt")));
                    } else if kind != "bit" && num == 2 {
                        *m = Arc::new(Array2::from_shape_fn((r.gen_range(1..=n), n), |_| any::<W>(&mut r)));
                    }
                }
                let jobs = vec![Job { id: some_id(&mut r), stage: 0, kind: job }];
                let run = run_jobs(&ctxs, &jobs, &pols[k % pols.len()], &mut r, true);
                events(&log, kind, &jobs, run);
                k += 1;
            }
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

pub fn r01(mut a: Args) {
    for (w, n, t, l) in SETS {
        by_few_w!(w, r01_of(&mut a, n, t, l));
    }
}

pub fn bytes<const W: u8>(v: &[GF<W>]) -> Vec<u8> {
    v.iter().flat_map(|x| u32::from(*x).to_le_bytes()).collect()
}

fn r02_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 2500 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    let c = ctxs[0].clone();
    head(&log, &c);
    for kind in ["rand", "bit", "zero"] {
        // Two calls; one of them of more than one batch.
        let m = match gen_of(&c, kind, 1) {
            Kind::Gen { m, .. } => m,
            _ => unreachable!(),
        };
        let per = m.shape()[0];
        let nums_ = [per + 1, 1];
        let outs = 3 * per;
        let mut coalition: Vec<usize> = (0..n).collect();
        coalition.shuffle(&mut r);
        coalition.truncate(t);
        let free = match kind {
            "rand" => outs * l * W as usize,
            "bit" => outs * l,
            // The non-secret part of zero sharings: n - l points, of which the coalition knows t.
            _ => outs * (n - l - t) * W as usize,
        };
        let mut pos = 0;
        let rows = saturate(
            || {
                let jobs: Vec<Job<W>> = (0..2)
                    .map(|k| Job { id: vec![4, k as u8], stage: k, kind: Kind::Gen { kind, num: nums_[k], m: m.clone() } })
                    .collect();
                let run = run_jobs(&ctxs, &jobs, &Policy::Fifo, &mut r, true);
                if !run.ok() {
                    run_event(&log, kind, &run);
                    return None;
                }
                // View of the coalition: what it dealt and received; then all outputs.
                let mut v = Vec::new();
                let mut msgs: Vec<_> = run.record.iter().filter(|m| coalition.contains(&m.0) || coalition.contains(&m.1)).cloned().collect();
                msgs.sort();
                for (_, _, _, d) in msgs {
                    v.extend(d);
                }
                pos = v.len();
                let out = run.take();
                for o in &out {
                    for j in o {
                        v.extend(bytes(&j[0]));
                    }
                }
                Some(v)
            },
            4000,
        );
        let views: Vec<Vec<u8>> = rows.iter().map(|x| x[..pos].to_vec()).collect();
        if !rows.is_empty() {
            log.push(json!({"e": "given", "kind": kind, "coalition": coalition, "dim": free,
                            "joint": pack_bits(&[&rows])[0], "view": pack_bits(&[&views])[0]}));
        }
        // Single results are uniform (one slot of one sharing, successive pairs).
        if W <= 3 && kind != "zero" {
            let o = if kind == "bit" { 2usize } else { 1 << W };
            let num = 4000;
            let jobs = vec![Job { id: vec![6], stage: 0, kind: Kind::Gen { kind, num, m: m.clone() } }];
            let run = run_jobs(&ctxs, &jobs, &Policy::Fifo, &mut r, false);
            if run_event(&log, kind, &run) {
                let out = run.take();
                let sh = gather(&out.iter().map(|o| o[0][0].clone()).collect::<Vec<_>>());
                let rec = |s: &Vec<GF<W>>| c.pss.semihon_recon(Array1::from_vec(s.clone()).view());
                let secs: Vec<u32> = sh.iter().map(|s| u32::from(rec(s)[0])).collect();
                let mut h = vec![0usize; o];
                let mut h2 = vec![0usize; o * o];
                let mut outside = 0;
                secs.iter().for_each(|x| if (*x as usize) < o { h[*x as usize] += 1 } else { outside += 1 });
                secs.chunks(2).for_each(|x| if x.len() == 2 && (x[0] as usize) < o && (x[1] as usize) < o { h2[x[0] as usize * o + x[1] as usize] += 1 });
                log.push(json!({"e": "hist", "cells": o, "total": secs.len(), "outside": outside, "counts": h}));
                log.push(json!({"e": "hist", "cells": o * o, "total": secs.len() / 2, "outside": 0, "counts": h2}));
                let first: Vec<u32> = sh.iter().map(|s| u32::from(s[n - 1])).collect();
                let mut h = vec![0usize; 1 << W];
                first.iter().for_each(|x| h[*x as usize] += 1);
                log.push(json!({"e": "hist", "cells": 1 << W, "total": first.len(), "outside": 0, "counts": h}));
            }
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

/// Slots of the results are independent also where sharings have many of them.
fn r02_slots<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 2600 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    head(&log, &ctxs[0]);
    let rec = interp(&PackedSharing::<W>::share_pos(n as u32), &defpos(&ctxs[0]));
    for (kind, num) in [("rand", 2), ("bit", 7)] {
        let w = if kind == "bit" { 1 } else { W as usize };
        let rows = saturate(
            || {
                let jobs = vec![Job { id: vec![5], stage: 0, kind: gen_of(&ctxs[0], kind, num) }];
                let run = run_jobs(&ctxs, &jobs, &Policy::Fifo, &mut r, false);
                if !run.ok() {
                    run_event(&log, kind, &run);
                    return None;
                }
                let sh = gather(&run.take().iter().map(|o| o[0][0].clone()).collect::<Vec<_>>());
                Some(sh.iter().take(num).flat_map(|s| bytes(&apply(&rec, s))).collect())
            },
            2000,
        );
        if !rows.is_empty() {
            log.push(json!({"e": "rank", "what": kind, "rows": pack_bits(&[&rows])[0], "dim": num * l * w}));
        }
    }
    a.out.write(&format!("slots-w{}n{}", W, n), &log);
}

/// No sharing is dealt twice in a long course of generation; the field is large enough that this does not happen by chance.
fn r02_fresh<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 2700 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    head(&log, &ctxs[0]);
    let batches = if a.thorough { 15_000 } else { 1500 };
    for kind in ["rand", "bit", "zero"] {
        let m = match gen_of(&ctxs[0], kind, 1) {
            Kind::Gen { m, .. } => m,
            _ => unreachable!(),
        };
        // Two calls at the same time, one after them.
        let num = batches / 3 * m.shape()[0];
        let jobs: Vec<Job<W>> =
            (0..3).map(|k| Job { id: vec![5, k as u8], stage: k / 2, kind: Kind::Gen { kind, num, m: m.clone() } }).collect();
        let run = run_jobs(&ctxs, &jobs, &Policy::Fifo, &mut r, true);
        if run_event(&log, kind, &run) {
            let all: Vec<_> = jobs.iter().flat_map(|j| dealt::<W>(n, &j.id, &run.record)).flatten().collect();
            log.push(json!({"e": "once", "kind": kind, "shares": nums(&all)}));
        }
    }
    a.out.write(&format!("fresh-w{}n{}", W, n), &log);
}

pub fn r02(mut a: Args) {
    let mut sets = vec![(3u8, 3usize, 1usize, 1usize), (2, 3, 1, 1), (4, 5, 1, 2), (4, 5, 2, 1)];
    let mut slots = vec![(5u8, 11usize, 1usize, 5usize), (8, 24, 2, 11)];
    if a.thorough {
        sets.extend([(5, 7, 1, 3), (5, 8, 2, 2)]);
        slots.extend([(8, 40, 3, 18), (16, 16, 3, 5)]);
    }
    for (w, n, t, l) in sets {
        by_few_w!(w, r02_of(&mut a, n, t, l));
    }
    for (w, n, t, l) in slots {
        by_few_w!(w, r02_slots(&mut a, n, t, l));
    }
    r02_fresh::<16>(&mut a, 9, 4, 1);
    let _ = els::<2>(&[]);
}
