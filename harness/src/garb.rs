//! Drivers for preprocessing and garbling (R03, R04, G01-G03, and parts of P03, P04, M02).
use crate::by_few_w;
use crate::circ;
use crate::math::us;
use crate::proto::*;
use crate::sim::{self, Policy};
use crate::util::*;
use ndarray::{Array1, Array2, Array3};
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use scalable_mpc::circuit::{Circuit, PackedCircuit};
use scalable_mpc::math::{galois::GF, rs_gen_mat, super_inv_matrix};
use scalable_mpc::protocol::garble::{self, GarbleContext};
use scalable_mpc::protocol::preproc::{self, PreProc, PreProcCount, RandBitContext, RandContext, ZeroContext};
use scalable_mpc::protocol::{MPCContext, ProtocolID};
use std::sync::Arc;

/// Secrets of the material: [block][slot], [bit][symbol][block][slot], [index][slot].
#[derive(Clone)]
pub struct Secrets<const W: u8> {
    pub masks: Sh<W>,
    pub keys: Vec<Vec<Sh<W>>>,
    pub errors: Sh<W>,
}

/// Material of all parties.
#[derive(Clone)]
pub struct Material<const W: u8> {
    pub masks: Sh<W>,
    pub keys: Sh<W>,
    pub shape: (usize, usize, usize),
    pub randoms: Sh<W>,
    pub zeros: Sh<W>,
    pub errors: Sh<W>,
}

impl<const W: u8> Material<W> {
    pub fn of(&self, p: usize) -> PreProc<W> {
        PreProc {
            masks: col(&self.masks, p),
            keys: Array3::from_shape_vec(self.shape, col(&self.keys, p).to_vec()).unwrap(),
            randoms: col(&self.randoms, p).to_vec().into(),
            zeros: col(&self.zeros, p).to_vec().into(),
            errors: col(&self.errors, p).to_vec().into(),
        }
    }
}

fn bit<const W: u8>(b: bool) -> GF<W> {
    if b {
        GF::ONE
    } else {
        GF::ZERO
    }
}

/// A circuit prepared for all parties.
pub struct Setup<const W: u8> {
    pub json: Value,
    pub packed: PackedCircuit,
    pub ctxs: Vec<MPCContext<W>>,
    pub gctx: Vec<Arc<GarbleContext<W>>>,
    pub counts: PreProcCount,
    pub gates: Vec<(String, Vec<Vec<u32>>, Vec<u32>)>,
    pub blocks: Vec<Vec<u32>>,
}

pub fn load(c: &Value, path: &str) -> Circuit {
    std::fs::write(path, circ::bristol(c)).unwrap();
    Circuit::from_bristol_fashion(std::path::Path::new(path))
}

impl<const W: u8> Setup<W> {
    pub fn new(a: &Args, json: &Value, ctxs: &[MPCContext<W>]) -> Self {
        let l = ctxs[0].l as u32;
        let packed = load(json, &format!("{}/c.txt", a.scratch)).pack(l);
        let gates: Vec<_> = packed
            .gates()
            .iter()
            .map(|g| {
                let v = circ::packed_gate(g);
                (
                    v["t"].as_str().unwrap().to_string(),
                    serde_json::from_value(v["i"].clone()).unwrap(),
                    serde_json::from_value::<Vec<u32>>(v["o"].clone()).unwrap(),
                )
            })
            .collect();
        let blocks = packed.inputs().iter().cloned().chain(gates.iter().map(|g| g.2.clone())).collect();
        Setup {
            json: json.clone(),
            gctx: ctxs.iter().map(|c| Arc::new(GarbleContext::new(packed.clone(), c.clone()))).collect(),
            counts: PreProc::describe(&packed, &ctxs[0]),
            ctxs: ctxs.to_vec(),
            packed,
            gates,
            blocks,
        }
    }
    fn c(&self) -> &MPCContext<W> {
        &self.ctxs[0]
    }
    fn key(&self) -> usize {
        self.c().lpn_key_len
    }
    pub fn secrets(&self, r: &mut R) -> Secrets<W> {
        let (l, nb) = (self.c().l, self.blocks.len());
        Secrets {
            masks: (0..nb).map(|_| (0..l).map(|_| bit(r.gen())).collect()).collect(),
            keys: (0..2).map(|_| (0..self.key()).map(|_| (0..nb).map(|_| (0..l).map(|_| any(r)).collect()).collect()).collect()).collect(),
            errors: (0..self.counts.errors).map(|_| vec![GF::ZERO; l]).collect(),
        }
    }
    pub fn noisy(&self, r: &mut R, s: &Secrets<W>) -> Secrets<W> {
        let l = self.c().l;
        let mut seen = std::collections::HashSet::new();
        let mut s = s.clone();
        for e in s.errors.iter_mut() {
            // Distinct already in the first slot, so that each can be recognized in incomplete blocks too.
            loop {
                *e = (0..l).map(|_| any(r)).collect();
                if seen.insert(us(e[..1].iter())) {
                    break;
                }
            }
        }
        s
    }
    pub fn material(&self, r: &mut R, s: &Secrets<W>) -> Material<W> {
        let c = self.c();
        let d = Dealer::new(c.t + c.l - 1, c.n, &defpos(c));
        let flat: Vec<&Vec<GF<W>>> = s.keys.iter().flatten().flatten().collect();
        Material {
            masks: s.masks.iter().map(|v| d.deal(r, v)).collect(),
            keys: flat.into_iter().map(|v| d.deal(r, v)).collect(),
            shape: self.counts.keys,
            randoms: randoms(c, r, self.counts.randoms),
            zeros: zeros(c, r, self.counts.zeros),
            errors: s.errors.iter().map(|v| d.deal(r, v)).collect(),
        }
    }
    pub fn describe_event(&self) -> Value {
        let k = self.counts;
        json!({"e": "describe", "gates": self.packed.gates().iter().map(circ::packed_gate).collect::<Vec<_>>(), "inputs": self.packed.inputs(),
               "key": self.key(), "mssg": self.c().lpn_mssg_len,
               "got": {"masks": k.masks, "keys": [k.keys.0, k.keys.1, k.keys.2], "randoms": k.randoms, "zeros": k.zeros, "errors": k.errors}})
    }
}

/// Tables of all parties: [gate][row][symbol] -> n shares.
pub type Tables<const W: u8> = Vec<Vec<Sh<W>>>;

fn join<const W: u8>(per: &[Vec<Array2<GF<W>>>]) -> Tables<W> {
    (0..per[0].len())
        .map(|g| {
            (0..per[0][g].shape()[0])
                .map(|row| (0..per[0][g].shape()[1]).map(|y| per.iter().map(|t| t[g][[row, y]]).collect()).collect())
                .collect()
        })
        .collect()
}
fn tables_json<const W: u8>(t: &Tables<W>) -> Value {
    json!(t.iter().map(|g| g.iter().map(nums).collect::<Vec<_>>()).collect::<Vec<_>>())
}

/// One garbling of several: identifier, stage, material.
pub type Task<const W: u8> = (ProtocolID, usize, Vec<PreProc<W>>);

/// Runs garblings, those of a stage concurrently.
pub fn run_garble<const W: u8>(s: &Setup<W>, tasks: Vec<Task<W>>, policy: &Policy, r: &mut R, record: bool) -> sim::Run<Vec<Vec<Array2<GF<W>>>>> {
    let last = tasks.iter().map(|t| t.1).max().unwrap_or(0);
    let mut per: Vec<Vec<(ProtocolID, usize, PreProc<W>)>> = s.ctxs.iter().map(|_| Vec::new()).collect();
    for (id, stage, m) in tasks {
        for (p, m) in m.into_iter().enumerate() {
            per[p].push((id.clone(), stage, m));
        }
    }
    let per: Vec<std::cell::RefCell<Option<_>>> = per.into_iter().map(|x| std::cell::RefCell::new(Some(x))).collect();
    sim::run(s.ctxs.len(), policy, r, record, |p, net| {
        let g = s.gctx[p].clone();
        let tasks = per[p].borrow_mut().take().unwrap();
        async move {
            let mut out: Vec<Option<Vec<Array2<GF<W>>>>> = tasks.iter().map(|_| None).collect();
            let mut tasks: Vec<Option<_>> = tasks.into_iter().map(Some).collect();
            for st in 0..=last {
                let mut hs = Vec::new();
                for k in 0..tasks.len() {
                    if tasks[k].as_ref().map(|t| t.1 == st).unwrap_or(false) {
                        let (id, _, m) = tasks[k].take().unwrap();
                        hs.push((k, tokio::spawn(garble::garble(id, m, g.clone(), net.clone()))));
                    }
                }
                for (k, h) in hs {
                    out[k] = Some(h.await.unwrap().gates);
                }
            }
            out.into_iter().map(|x| x.unwrap()).collect()
        }
    })
}

fn parties<const W: u8>(s: &Setup<W>, m: &Material<W>) -> Vec<PreProc<W>> {
    (0..s.ctxs.len()).map(|p| m.of(p)).collect()
}

/// One garbling; the outcome is logged.
fn once<const W: u8>(log: &Log, s: &Setup<W>, m: &Material<W>, policy: &Policy, r: &mut R) -> Option<Tables<W>> {
    let id = choose(r, &[vec![], vec![0u8], vec![1, 2, 3], vec![255]]).clone();
    let run = run_garble(s, vec![(id, 0, parties(s, m))], policy, r, false);
    if !run_event(log, &format!("garble {:?}", policy), &run) {
        return None;
    }
    Some(join(&run.take().into_iter().map(|mut x| x.remove(0)).collect::<Vec<_>>()))
}

/// Inverse of a square matrix, None if singular.
fn invert<const W: u8>(m: &Sh<W>) -> Option<Sh<W>> {
    let k = m.len();
    let mut a: Sh<W> = m.iter().enumerate().map(|(i, row)| row.iter().cloned().chain((0..k).map(|j| bit(i == j))).collect()).collect();
    for i in 0..k {
        let p = (i..k).find(|p| a[*p][i] != GF::ZERO)?;
        a.swap(i, p);
        let x = a[i][i];
        a[i].iter_mut().for_each(|v| *v = *v / x);
        for j in 0..k {
            if j != i && a[j][i] != GF::ZERO {
                let f = a[j][i];
                for c in 0..2 * k {
                    let d = f * a[i][c];
                    a[j][c] = a[j][c] - d;
                }
            }
        }
    }
    Some(a.into_iter().map(|row| row[k..].to_vec()).collect())
}

/// Runs with their secrets and reconstructed tables, from which the public matrices are derived.
struct Known<'a, const W: u8> {
    s: &'a Setup<W>,
    enc: Sh<W>,
    rec: Sh<W>,
    place: std::collections::HashMap<u32, (usize, usize)>,
    runs: Vec<(Secrets<W>, Tables<W>)>,
}

impl<'a, const W: u8> Known<'a, W> {
    fn new(s: &'a Setup<W>) -> Self {
        let c = s.c();
        let e = rs_gen_mat::<W>(c.lpn_key_len + 1, c.lpn_mssg_len);
        let mut place = std::collections::HashMap::new();
        for (b, ws) in s.blocks.iter().enumerate() {
            for (k, w) in ws.iter().enumerate() {
                place.insert(*w, (b, k));
            }
        }
        Known {
            s,
            enc: e.outer_iter().map(|x| x.to_vec()).collect(),
            rec: interp(&scalable_mpc::sharing::PackedSharing::<W>::share_pos(c.n as u32), &defpos(c)),
            place,
            runs: Vec::new(),
        }
    }
    /// Symbols slot by slot instead of shares.
    fn open(&self, t: &Tables<W>) -> Tables<W> {
        t.iter().map(|g| g.iter().map(|row| row.iter().map(|s| apply(&self.rec, s)).collect()).collect()).collect()
    }
    fn keys(&self, sec: &Secrets<W>, w: u32, v: usize) -> Vec<GF<W>> {
        let (b, s) = self.place[&w];
        (0..self.s.key()).map(|k| sec.keys[v][k][b][s]).collect()
    }
    fn mask(&self, sec: &Secrets<W>, w: u32) -> usize {
        let (b, s) = self.place[&w];
        (sec.masks[b][s] != GF::ZERO) as usize
    }
    /// Matrices [gate][row][slot]; empty if the keys of the row always cancel or the runs do not suffice.
    fn matrices(&self) -> Vec<Vec<Vec<Sh<W>>>> {
        let k = self.s.key();
        self.s
            .gates
            .iter()
            .enumerate()
            .map(|(gi, (t, ins, outs))| {
                (0..if t == "INV" { 2 } else { 4 })
                    .map(|row| {
                        (0..outs.len())
                            .map(|slot| {
                                let v: Vec<usize> = if t == "INV" { vec![row] } else { vec![row / 2, row % 2] };
                                let mut pairs: Vec<(Vec<GF<W>>, Vec<GF<W>>)> = Vec::new();
                                for (sec, tab) in &self.runs {
                                    let x: Vec<usize> = (0..v.len()).map(|i| v[i] ^ self.mask(sec, ins[i][slot])).collect();
                                    let f = match t.as_str() {
                                        "AND" => x[0] & x[1],
                                        "XOR" => x[0] ^ x[1],
                                        _ => 1 - x[0],
                                    };
                                    let chi = f ^ self.mask(sec, outs[slot]);
                                    let mut sum = vec![GF::<W>::ZERO; k];
                                    for i in 0..v.len() {
                                        for (a, b) in sum.iter_mut().zip(self.keys(sec, ins[i][slot], v[i])) {
                                            *a = *a + b;
                                        }
                                    }
                                    let mut m = self.keys(sec, outs[slot], chi);
                                    m.push(bit(chi == 1));
                                    let e = apply(&self.enc, &m);
                                    let y = match tab.get(gi).and_then(|g| g.get(row)) {
                                        Some(y) => y.iter().zip(&e).map(|(y, e)| y[slot] - *e).collect(),
                                        None => return Vec::new(),
                                    };
                                    pairs.push((sum, y));
                                }
                                // The first runs with independent sums.
                                let mut chosen: Vec<usize> = Vec::new();
                                for q in 0..pairs.len() {
                                    let mut rows: Sh<W> = chosen.iter().map(|i| pairs[*i].0.clone()).collect();
                                    rows.push(pairs[q].0.clone());
                                    if independent(&rows) {
                                        chosen.push(q);
                                    }
                                    if chosen.len() == k {
                                        break;
                                    }
                                }
                                if chosen.len() < k {
                                    return Vec::new();
                                }
                                // A * S = Y with the sums as columns.
                                let inv = invert(&chosen.iter().map(|q| pairs[*q].0.clone()).collect()).unwrap();
                                (0..pairs[0].1.len())
                                    .map(|y| {
                                        (0..k)
                                            .map(|j| (0..k).fold(GF::<W>::ZERO, |a, q| a + inv[j][q] * pairs[chosen[q]].1[y]))
                                            .collect()
                                    })
                                    .collect()
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect()
    }
    /// Whether the sums of keys of all rows (other than those that always cancel) determine the matrices.
    fn enough(&self) -> bool {
        let m = self.matrices();
        self.s.gates.iter().enumerate().all(|(g, (t, ins, outs))| {
            m[g].iter().enumerate().all(|(row, slots)| {
                (0..outs.len()).all(|s| !slots[s].is_empty() || (t != "INV" && ins[0][s] == ins[1][s] && row / 2 == row % 2))
            })
        })
    }
    fn circ_event(&self) -> Value {
        let k = self.s.key();
        let dec = invert(&self.enc[..k + 1].to_vec()).unwrap_or_default();
        json!({"e": "circ", "circ": self.s.json, "gates": self.s.packed.gates().iter().map(circ::packed_gate).collect::<Vec<_>>(),
               "inputs": self.s.packed.inputs(), "outputs": self.s.packed.outputs(), "key": k, "mssg": self.s.c().lpn_mssg_len,
               "enc": nums(&self.enc), "dec": nums(&dec),
               "mats": self.matrices().iter().map(|g| g.iter().map(|r| r.iter().map(nums).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()})
    }
}

fn independent<const W: u8>(rows: &Sh<W>) -> bool {
    let mut a = rows.clone();
    let (n, k) = (a.len(), a[0].len());
    let mut at = 0;
    for c in 0..k {
        if let Some(p) = (at..n).find(|p| a[*p][c] != GF::ZERO) {
            a.swap(at, p);
            for j in at + 1..n {
                let f = a[j][c] / a[at][c];
                for x in 0..k {
                    let d = f * a[at][x];
                    a[j][x] = a[j][x] - d;
                }
            }
            at += 1;
            if at == n {
                return true;
            }
        }
    }
    false
}

fn some_inputs(r: &mut R, c: &Value, all: usize) -> Vec<Value> {
    let ws: Vec<usize> = c["inw"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let total: usize = ws.iter().sum();
    let xs: Vec<Vec<u8>> = if total < 10 && 1usize << total <= all {
        (0..1usize << total).map(|x| (0..total).map(|j| (x >> j & 1) as u8).collect()).collect()
    } else {
        (0..all).map(|_| (0..total).map(|_| r.gen_range(0..2)).collect()).collect()
    };
    xs.into_iter()
        .map(|x| {
            let mut at = 0;
            json!(ws
                .iter()
                .map(|w| {
                    at += w;
                    x[at - w..at].to_vec()
                })
                .collect::<Vec<_>>())
        })
        .collect()
}

fn table_event<const W: u8>(sec: &Secrets<W>, t: &Tables<W>, inputs: Vec<Value>, rows: bool) -> Value {
    json!({"e": "table", "masks": nums(&sec.masks), "keys": sec.keys.iter().map(|k| k.iter().map(nums).collect::<Vec<_>>()).collect::<Vec<_>>(),
           "t": tables_json(t), "inputs": inputs, "rows": rows})
}

/// What to record of a circuit.
#[derive(Clone, Copy)]
pub struct What {
    rows: bool,
    inputs: usize,
    noise: bool,
    distinct: bool,
    extra_runs: usize,
}

/// Garbles a circuit with several materials. Returns false if a run failed.
fn study<const W: u8>(a: &Args, log: &Log, json: &Value, ctxs: &[MPCContext<W>], what: What, r: &mut R) -> bool {
    let s = Setup::new(a, json, ctxs);
    let n = ctxs.len();
    let mut known = Known::new(&s);
    let mut events = Vec::new();
    let mut k = 0;
    let need = s.key() + what.extra_runs;
    while k < need || (!known.enough() && k < need + 12) {
        let sec = s.secrets(r);
        let pols = sim::policies(n, r);
        let pol = pols[r.gen_range(0..pols.len())].clone();
        let m = s.material(r, &sec);
        let t = match once(log, &s, &m, &pol, r) {
            Some(t) => t,
            None => return false,
        };
        let inputs = some_inputs(r, json, what.inputs);
        events.push(table_event(&sec, &t, inputs, what.rows));
        let open = known.open(&t);
        known.runs.push((sec, open));
        k += 1;
    }
    log.push(known.circ_event());
    if what.distinct {
        log.push(json!({"e": "distinct"}));
        return true;
    }
    for e in events {
        log.push(e);
    }
    let enough_noise = s.counts.errors < 1 << W;
    if what.noise && enough_noise {
        let sec = s.secrets(r);
        let noisy = s.noisy(r, &sec);
        let m = s.material(r, &sec);
        let t0 = once(log, &s, &m, &Policy::Random, r);
        let m = s.material(r, &noisy);
        let t1 = once(log, &s, &m, &Policy::Random, r);
        match (t0, t1) {
            (Some(t0), Some(t1)) => log.push(json!({"e": "noise", "t0": tables_json(&t0), "t1": tables_json(&t1), "errors": nums(&noisy.errors)})),
            _ => return false,
        }
    }
    true
}

/// (W, n, t, l, key, mssg)
const GSETS: [(u8, usize, usize, usize, usize, usize); 10] = [
    (5, 3, 1, 1, 1, 2),
    (5, 5, 1, 2, 2, 4),
    (8, 5, 2, 1, 1, 3),
    (8, 7, 1, 3, 2, 3),
    (8, 8, 2, 2, 3, 5),
    (8, 4, 0, 2, 1, 2),
    (8, 16, 4, 3, 1, 3),
    (9, 9, 1, 4, 2, 5),
    (16, 6, 1, 2, 2, 4),
    (11, 12, 2, 4, 1, 2),
];

/// Circuits for a set: special shapes, then random ones.
fn circuits(r: &mut R, room: usize, l: usize, k: usize) -> Vec<Value> {
    let g = |t: &str, i: &[usize], o: usize| json!({"t": t, "i": i, "o": o});
    let mut v = vec![
        // A wire used twice by one gate, and by several gates.
        json!({"nw": 8, "inw": [2], "outw": [3], "gates": [g("AND", &[0, 0], 2), g("XOR", &[1, 1], 3), g("AND", &[2, 2], 4), g("INV", &[2], 5), g("XOR", &[4, 0], 6), g("AND", &[0, 1], 7)]}),
        // One gate of each type only.
        json!({"nw": 2, "inw": [1], "outw": [1], "gates": [g("INV", &[0], 1)]}),
        json!({"nw": 3, "inw": [1, 1], "outw": [1], "gates": [g("AND", &[0, 1], 2)]}),
        json!({"nw": 3, "inw": [1, 1], "outw": [1], "gates": [g("XOR", &[1, 0], 2)]}),
    ];
    // Wires that recur within a block, not next to each other.
    let fixed = if l >= 3 {
        let (hot, t) = (r.gen_range(0..3), *choose(r, &["AND", "XOR"]));
        let cold: Vec<usize> = (0..3).filter(|w| *w != hot).collect();
        let left = r.gen_range(0..2);
        let gs: Vec<Value> = (0..l + 2).map(|k| if left == 0 { g(t, &[hot, cold[k % 2]], 3 + k) } else { g(t, &[cold[k % 2], hot], 3 + k) }).collect();
        v.push(json!({"nw": 5 + l, "inw": [3], "outw": [2], "gates": gs}));
        5
    } else {
        4
    };
    v.retain(|c| (c["nw"].as_u64().unwrap() as usize) < room);
    while v.len() < fixed + k {
        let gates = *choose(r, &[1, 2, l, l + 1, 2 * l + 1, 3 * l + 2]);
        let c = circ::random(r, 1 + l.min(4), gates);
        if (c["nw"].as_u64().unwrap() as usize) < room {
            v.push(c);
        } else if room < 12 {
            let c = circ::random(r, 1, 2);
            if (c["nw"].as_u64().unwrap() as usize) < room {
                v.push(c);
            }
        }
    }
    v
}

fn garb_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, key: usize, mssg: usize, what: What, name: &str) {
    let mut r = rng(a.seed, 3000 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    head(&log, &ctxs[0]);
    let room = (1usize << W) - n - l;
    let k = if a.thorough { 14 } else { 3 };
    for c in circuits(&mut r, room, l, k) {
        if !study(a, &log, &c, &ctxs, what, &mut r) {
            break;
        }
    }
    a.out.write(name, &log);
}

fn sets(a: &mut Args, what: What) {
    for (w, n, t, l, key, mssg) in GSETS {
        let name = format!("w{}n{}l{}", w, n, l);
        by_few_w!(w, garb_of(a, n, t, l, key, mssg, what, &name));
    }
}

/// Circuits generated by the specification, in small sets of parties.
fn generated_of<const W: u8>(a: &mut Args, cs: &[Value], n: usize, t: usize, l: usize, key: usize, mssg: usize, what: What, k: usize) {
    let mut r = rng(a.seed, 3500 + k as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    head(&log, &ctxs[0]);
    for c in cs {
        let mut c = c.clone();
        c.as_object_mut().unwrap().remove("steps");
        if !study(a, &log, &c, &ctxs, what, &mut r) {
            break;
        }
    }
    a.out.write(&format!("gen{}", k), &log);
}

fn generated(a: &mut Args, what: What) {
    let cs = a.inputs();
    let per = (cs.len() + 5) / 6;
    for (k, chunk) in cs.chunks(per.max(1)).enumerate() {
        match k % 3 {
            0 => generated_of::<5>(a, chunk, 3, 1, 1, 1, 2, what, k),
            1 => generated_of::<5>(a, chunk, 5, 1, 2, 1, 2, what, k),
            _ => generated_of::<5>(a, chunk, 4, 1, 1, 2, 3, what, k),
        }
    }
}

/// Many blocks: more than fit into one byte.
fn large(a: &mut Args, gates: usize, what: What) {
    let mut r = rng(a.seed, 3600);
    let log = Log::new();
    let ctxs = contexts::<11>(3, 1, 1, 1, 2);
    head(&log, &ctxs[0]);
    let c = circ::random(&mut r, 3, gates);
    study(a, &log, &c, &ctxs, what, &mut r);
    a.out.write("large", &log);
}

pub fn g01(mut a: Args) {
    let what = What { rows: false, inputs: if a.thorough { 16 } else { 4 }, noise: false, distinct: false, extra_runs: if a.thorough { 4 } else { 2 } };
    if a.input.is_some() {
        return generated(&mut a, What { inputs: 4, ..what });
    }
    sets(&mut a, what);
    large(&mut a, 300, What { inputs: 1, extra_runs: 1, ..what });
}

pub fn g02(mut a: Args) {
    let what = What { rows: true, inputs: 0, noise: true, distinct: false, extra_runs: if a.thorough { 4 } else { 2 } };
    if a.input.is_some() {
        return generated(&mut a, what);
    }
    sets(&mut a, what);
    large(&mut a, 300, What { extra_runs: 1, ..what });
}

fn g03_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, key: usize, mssg: usize) {
    let mut r = rng(a.seed, 3700 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    head(&log, &ctxs[0]);
    let what = What { rows: false, inputs: 0, noise: false, distinct: true, extra_runs: 1 };
    let mut cs = circuits(&mut r, 1 << W, l, if a.thorough { 20 } else { 6 });
    for gates in if a.thorough { vec![40, 60, 90, 150] } else { vec![40, 60] } {
        cs.push(circ::random(&mut r, 2, gates));
        cs.push(reuse(&mut r, gates, l));
    }
    for slot in 0..if l > 1 { l } else { 0 } {
        cs.push(skewed(&mut r, l, slot));
    }
    for c in cs {
        if !study(a, &log, &c, &ctxs, what, &mut r) {
            break;
        }
    }
    a.out.write(&format!("w{}n{}l{}", W, n, l), &log);
}

/// Gates on few wires: the same pairs and wires again and again, in all positions and types.
fn reuse(r: &mut R, gates: usize, l: usize) -> Value {
    let nin = r.gen_range(2..=3 * l + 1);
    let gs: Vec<Value> = (0..gates)
        .map(|k| {
            let (x, y) = (r.gen_range(0..nin), r.gen_range(0..nin));
            match r.gen_range(0..3) {
                0 => json!({"t": "INV", "i": [x], "o": nin + k}),
                1 => json!({"t": "AND", "i": [x, y], "o": nin + k}),
                _ => json!({"t": "XOR", "i": [x, y], "o": nin + k}),
            }
        })
        .collect();
    json!({"nw": nin + gates, "inw": [nin], "outw": [1], "gates": gs})
}

/// Blocks that have a wire in common in one slot only; wires of other slots are fresh or shared by few blocks. The gates of a
/// block have another wire in common, which the order in which gates are packed depends on.
fn skewed(r: &mut R, l: usize, slot: usize) -> Value {
    let (t, left) = (*choose(r, &["AND", "XOR"]), r.gen_range(0..2));
    let nin = 1 + l * l + l;
    let gs: Vec<Value> = (0..l * l)
        .map(|k| {
            let fresh = 1 + if r.gen_range(0..6) == 0 { r.gen_range(0..l * l) } else { k };
            let x = if k % l == slot { 0 } else { fresh };
            let y = 1 + l * l + k / l;
            json!({"t": t, "i": if left == 0 { [x, y] } else { [y, x] }, "o": nin + k})
        })
        .collect();
    json!({"nw": nin + l * l, "inw": [nin], "outw": [1], "gates": gs})
}

/// Wires used more often than fits into one byte.
fn worn(a: &mut Args, gates: usize) {
    let mut r = rng(a.seed, 3690);
    let log = Log::new();
    let ctxs = contexts::<16>(3, 1, 1, 1, 2);
    head(&log, &ctxs[0]);
    let what = What { rows: false, inputs: 0, noise: false, distinct: true, extra_runs: 1 };
    let first = r.gen_range(0..2);
    let gs: Vec<Value> = (0..gates)
        .map(|k| match r.gen_range(0..8) {
            0 => json!({"t": "INV", "i": [first], "o": 2 + k}),
            1..=4 => json!({"t": "AND", "i": [0, 1], "o": 2 + k}),
            _ => json!({"t": "XOR", "i": [1, 0], "o": 2 + k}),
        })
        .collect();
    study(a, &log, &json!({"nw": 2 + gates, "inw": [2], "outw": [1], "gates": gs}), &ctxs, what, &mut r);
    a.out.write("worn", &log);
}

pub fn g03(mut a: Args) {
    let gates = if a.thorough { 560 } else { 290 };
    worn(&mut a, gates);
    g03_of::<16>(&mut a, 3, 1, 1, 2, 4);
    g03_of::<16>(&mut a, 5, 1, 2, 2, 4);
    g03_of::<18>(&mut a, 7, 1, 3, 1, 5);
    g03_of::<16>(&mut a, 9, 1, 4, 1, 5);
    if a.thorough {
        g03_of::<18>(&mut a, 12, 1, 5, 2, 3);
    }
}

// --- amounts (R04) ----------------------------------------------------------------------
fn r04_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, key: usize, mssg: usize) {
    let mut r = rng(a.seed, 3800 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    head(&log, &ctxs[0]);
    let room = (1usize << W) - n - l;
    for c in circuits(&mut r, room, l, if a.thorough { 20 } else { 4 }) {
        let s = Setup::new(a, &c, &ctxs);
        log.push(s.describe_event());
        let seed = r.gen();
        let dummy = |s: &Setup<W>, counts: PreProcCount| -> Vec<PreProc<W>> { s.ctxs.par_iter().map(|c| PreProc::dummy(seed, counts, c)).collect() };
        // Described amounts suffice, for dealt and for dummy material.
        let sec = s.secrets(&mut r);
        let m = s.material(&mut r, &sec);
        once(&log, &s, &m, &Policy::Random, &mut r);
        let d = dummy(&s, s.counts);
        dummy_event(&log, &s.counts, &d, &mut r, 40);
        let run = run_garble(&s, vec![(vec![4], 0, d)], &Policy::Lifo, &mut r, false);
        run_event(&log, "dummy", &run);
        // One less does not.
        for what in ["randoms", "zeros", "errors"] {
            let mut m = m.clone();
            match what {
                "randoms" => m.randoms.pop(),
                "zeros" => m.zeros.pop(),
                _ => m.errors.pop(),
            };
            let run = run_garble(&s, vec![(vec![5], 0, parties(&s, &m))], &Policy::Random, &mut r, false);
            log.push(json!({"e": "short", "what": what, "status": run.status()}));
        }
    }
    a.out.write(&format!("w{}n{}l{}", W, n, l), &log);
}

fn dummy_event<const W: u8>(log: &Log, k: &PreProcCount, d: &[PreProc<W>], r: &mut R, some: usize) {
    let got: Vec<Value> = d
        .iter()
        .map(|p| json!([p.masks.len(), p.keys.shape(), p.randoms.len(), p.zeros.len(), p.errors.len()]))
        .collect();
    let mut part = |kind: &str, len: usize, get: &dyn Fn(&PreProc<W>, usize) -> GF<W>| {
        // All of them, or a selection with both ends and the neighbourhood of the pool size.
        let mut at: Vec<usize> = (0..len).collect();
        if len > some {
            at.shuffle(r);
            at.truncate(some);
            at.extend([0, 1, len - 2, len - 1]);
            at.extend((99_995..100_010).filter(|i| *i < len));
            at.extend((199_995..200_005).filter(|i| *i < len));
        }
        let sh: Sh<W> = at.iter().map(|i| d.iter().map(|p| get(p, *i)).collect()).collect();
        json!({"kind": kind, "shares": nums(&sh)})
    };
    let min = |f: &dyn Fn(&PreProc<W>) -> usize| d.iter().map(|p| f(p)).min().unwrap();
    let parts = vec![
        part("bit", min(&|p| p.masks.len()), &|p, i| p.masks[i]),
        part("rand", min(&|p| p.keys.len()), &|p, i| *p.keys.iter().nth(i).unwrap()),
        part("rand", min(&|p| p.randoms.len()), &|p, i| p.randoms[i]),
        part("zero", min(&|p| p.zeros.len()), &|p, i| p.zeros[i]),
        part("rand", min(&|p| p.errors.len()), &|p, i| p.errors[i]),
    ];
    log.push(json!({"e": "dummy", "got": got, "want": [k.masks, [k.keys.0, k.keys.1, k.keys.2], k.randoms, k.zeros, k.errors], "parts": parts}));
}

/// Dummy material of given amounts, beyond the pool from which it is taken.
fn dummy_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 3850 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 2, 3);
    head(&log, &ctxs[0]);
    for (m, k, x, z, e) in [(0, 0, 0, 0, 0), (1, 1, 1, 1, 1), (7, 7, 5, 100_003, 0), (100_002, 1, 99_990, 0, 3), (3, 26_000, 3, 5, 200_007)] {
        let counts = PreProcCount { masks: m, keys: (2, 2, k), randoms: x, zeros: z, errors: e };
        let seed = r.gen();
        let d: Vec<PreProc<W>> = ctxs.par_iter().map(|c| PreProc::dummy(seed, counts, c)).collect();
        dummy_event(&log, &counts, &d, &mut r, 60);
    }
    a.out.write(&format!("dummy-w{}n{}", W, n), &log);
}

pub fn r04(mut a: Args) {
    for (w, n, t, l, key, mssg) in GSETS {
        by_few_w!(w, r04_of(&mut a, n, t, l, key, mssg));
    }
    dummy_of::<8>(&mut a, 5, 1, 2);
    dummy_of::<18>(&mut a, 3, 1, 1);
    dummy_of::<9>(&mut a, 7, 2, 2);
}

// --- preprocessing (R03) -------------------------------------------------------------------
struct Gen<const W: u8> {
    field: Arc<Array2<GF<W>>>,
    bits: Arc<Array2<GF<W>>>,
}

impl<const W: u8> Gen<W> {
    fn new(c: &MPCContext<W>) -> Self {
        Gen { field: Arc::new(super_inv_matrix(c.n, c.n - c.t)), bits: Arc::new(bit_matrix::<W>(c.n, c.t)) }
    }
}

fn run_preproc<const W: u8>(ctxs: &[MPCContext<W>], g: &Gen<W>, tasks: &[(ProtocolID, usize, PreProcCount)], policy: &Policy, r: &mut R) -> sim::Run<Vec<PreProc<W>>> {
    run_preproc_of(ctxs, g, tasks, policy, r, false)
}

fn run_preproc_of<const W: u8>(ctxs: &[MPCContext<W>], g: &Gen<W>, tasks: &[(ProtocolID, usize, PreProcCount)], policy: &Policy, r: &mut R, record: bool) -> sim::Run<Vec<PreProc<W>>> {
    let last = tasks.iter().map(|t| t.1).max().unwrap_or(0);
    sim::run(ctxs.len(), policy, r, record, |p, net| {
        let c = ctxs[p].clone();
        let tasks = tasks.to_vec();
        let (f, b) = (g.field.clone(), g.bits.clone());
        async move {
            let mut out: Vec<Option<PreProc<W>>> = tasks.iter().map(|_| None).collect();
            for st in 0..=last {
                let mut hs = Vec::new();
                for (k, (id, stage, desc)) in tasks.iter().enumerate() {
                    if *stage == st {
                        hs.push((
                            k,
                            tokio::spawn(preproc::preproc(
                                id.clone(),
                                *desc,
                                c.clone(),
                                RandContext::new(f.clone(), &c),
                                ZeroContext::new(f.clone(), &c),
                                RandBitContext::new(b.clone(), &c),
                                net.clone(),
                            )),
                        ));
                    }
                }
                for (k, h) in hs {
                    out[k] = Some(h.await.unwrap());
                }
            }
            out.into_iter().map(|x| x.unwrap()).collect()
        }
    })
}

/// Sharings of all parties.
fn collect<const W: u8>(per: &[&PreProc<W>]) -> Material<W> {
    let g = |f: &dyn Fn(&PreProc<W>) -> Vec<GF<W>>| -> Sh<W> {
        let v: Vec<Vec<GF<W>>> = per.iter().map(|p| f(p)).collect();
        let k = v.iter().map(|x| x.len()).min().unwrap();
        (0..k).map(|i| v.iter().map(|x| x[i]).collect()).collect()
    };
    let s = per[0].keys.shape();
    Material {
        masks: g(&|p| p.masks.to_vec()),
        keys: g(&|p| p.keys.iter().cloned().collect()),
        shape: (s[0], s[1], s[2]),
        randoms: g(&|p| p.randoms.iter().cloned().collect()),
        zeros: g(&|p| p.zeros.iter().cloned().collect()),
        errors: g(&|p| p.errors.iter().cloned().collect()),
    }
}

fn material_events<const W: u8>(log: &Log, d: &PreProcCount, per: &[&PreProc<W>]) -> Material<W> {
    let got: Vec<Value> = per
        .iter()
        .map(|p| json!([p.masks.len(), p.keys.shape()[0], p.keys.shape()[1], p.keys.shape()[2], p.randoms.len(), p.zeros.len(), p.errors.len()]))
        .collect();
    log.push(json!({"e": "amounts", "exact": false, "got": got, "want": [d.masks, d.keys.0, d.keys.1, d.keys.2, d.randoms, d.zeros, d.errors]}));
    let m = collect(per);
    for (what, kind, sh, want) in [
        ("masks", "bit", &m.masks, d.masks),
        ("keys", "rand", &m.keys, d.keys.0 * d.keys.1 * d.keys.2),
        ("randoms", "rand", &m.randoms, d.randoms),
        ("zeros", "zero", &m.zeros, d.zeros),
        ("errors", "rand", &m.errors, d.errors),
    ] {
        log.push(json!({"e": "part", "what": what, "kind": kind, "exact": false, "want": want, "shares": nums(sh)}));
    }
    m
}

fn r03_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 3900 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 2, 3);
    head(&log, &ctxs[0]);
    let g = Gen::new(&ctxs[0]);
    let mut descs: Vec<PreProcCount> = vec![
        PreProcCount { masks: 1, keys: (2, 1, 1), randoms: 0, zeros: 0, errors: 0 },
        PreProcCount { masks: 3, keys: (2, 2, 3), randoms: 1, zeros: 1, errors: n - 1 },
        PreProcCount { masks: 4, keys: (2, 1, 4), randoms: n, zeros: 2 * n, errors: n },
        PreProcCount { masks: 2, keys: (2, 3, 2), randoms: 5, zeros: 3, errors: 2 * n + 1 },
        PreProcCount { masks: 0, keys: (2, 1, 0), randoms: 2, zeros: 3, errors: 1 },
    ];
    for _ in 0..if a.thorough { 12 } else { 2 } {
        let b = r.gen_range(1..6);
        descs.push(PreProcCount {
            masks: b,
            keys: (2, r.gen_range(1..4), b),
            randoms: r.gen_range(0..3 * n),
            zeros: r.gen_range(0..3 * n),
            errors: r.gen_range(0..4 * n),
        });
    }
    // Statements about a circuit: described amounts.
    for (k, d) in descs.iter().enumerate() {
        let pols = sim::policies(n, &mut r);
        let pol = pols[k % pols.len()].clone();
        let run = run_preproc(&ctxs, &g, &[(vec![3, k as u8], 0, *d)], &pol, &mut r);
        if !run_event(&log, &format!("preproc {:?}", pol), &run) {
            continue;
        }
        let out = run.take();
        let m = material_events(&log, d, &out.iter().map(|x| &x[0]).collect::<Vec<_>>());
        if W >= 16 {
            let all: Sh<W> = m.keys.iter().chain(&m.randoms).chain(&m.zeros).chain(&m.masks).chain(&m.errors).cloned().collect();
            log.push(json!({"e": "once", "shares": nums(&all)}));
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

const ROWS: usize = 1200;

/// Shares sent to the leaders of reductions, by identifier and sender.
fn openings<const W: u8>(n: usize, record: &[(usize, usize, ProtocolID, Vec<u8>)]) -> Vec<GF<W>> {
    let mut by: std::collections::BTreeMap<&ProtocolID, Vec<(usize, usize, &Vec<u8>)>> = Default::default();
    record.iter().for_each(|(from, to, id, data)| by.entry(id).or_default().push((*from, *to, data)));
    let mut out = Vec::new();
    for v in by.values() {
        // Not those where everyone sends to everyone.
        let leader = (0..n).find(|p| v.iter().filter(|x| x.1 == *p).count() >= n);
        if v.len() != 2 * n {
            continue;
        }
        for p in 0..n {
            if let Some(x) = v.iter().find(|x| x.0 == p && Some(x.1) == leader) {
                out.extend(bincode::deserialize::<Vec<GF<W>>>(x.2).unwrap_or_default());
            }
        }
    }
    out
}

/// Distribution of noise, and independence of the parts, in small fields.
fn r03_noise<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 3950 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    head(&log, &ctxs[0]);
    let g = Gen::new(&ctxs[0]);
    let errors = n * if a.thorough { 1500 } else { 500 } + 1;
    let d = PreProcCount { masks: 0, keys: (2, 1, 0), randoms: 0, zeros: 0, errors };
    let run = run_preproc(&ctxs, &g, &[(vec![9], 0, d)], &Policy::Random, &mut r);
    if run_event(&log, "noise", &run) {
        let out = run.take();
        let m = collect(&out.iter().map(|x| &x[0]).collect::<Vec<_>>());
        log.push(json!({"e": "noise", "batch": errors / n, "shares": nums(&m.errors)}));
    }
    // Many small runs: secrets of masks, keys, random values and noise together.
    let d = PreProcCount { masks: 3, keys: (2, 1, 3), randoms: 3, zeros: 2, errors: n + 1 };
    let runs = if a.thorough { 6000 } else { 2000 };
    let rec = interp(&scalable_mpc::sharing::PackedSharing::<W>::share_pos(n as u32), &defpos(&ctxs[0]));
    let (mut bits, mut vals, mut errs, mut failed) = (Vec::new(), Vec::new(), Vec::new(), false);
    let mut rows: Vec<Vec<u8>> = Vec::new();
    let (mut more, mut opened): (Vec<Vec<u8>>, Vec<usize>) = (Vec::new(), Vec::new());
    for k in 0..runs {
        let run = run_preproc_of(&ctxs, &g, &[(vec![9, 1], 0, d)], &Policy::Fifo, &mut r, k < ROWS);
        let seen = openings::<W>(n, &run.record);
        if !run.ok() {
            run_event(&log, "noise", &run);
            failed = true;
            break;
        }
        let out = run.take();
        let m = collect(&out.iter().map(|x| &x[0]).collect::<Vec<_>>());
        if m.masks.len() < d.masks || m.keys.len() < 6 || m.randoms.len() < d.randoms || m.errors.len() < d.errors || m.zeros.len() < d.zeros {
            material_events(&log, &d, &out.iter().map(|x| &x[0]).collect::<Vec<_>>());
            failed = true;
            break;
        }
        let open = |s: &[Vec<GF<W>>]| -> Vec<GF<W>> { s.iter().flat_map(|x| apply(&rec, x)).collect() };
        bits.push(us(open(&m.masks[..d.masks]).iter()));
        let mut v = open(&m.keys[..6]);
        v.extend(open(&m.randoms[..d.randoms]));
        vals.push(us(v.iter()));
        errs.push(us(open(&m.errors[..d.errors]).iter()));
        if k < ROWS {
            let all: Vec<GF<W>> = m.masks[..d.masks].iter().chain(&m.keys[..6]).chain(&m.randoms[..d.randoms]).chain(&m.zeros[..d.zeros]).chain(&m.errors[..d.errors]).flatten().cloned().collect();
            rows.push(bytes(&all));
            more.push(bytes(&all.iter().chain(&seen).cloned().collect::<Vec<_>>()));
            opened.push(seen.len());
        }
    }
    if !failed {
        log.push(json!({"e": "indep", "bits": bits, "vals": vals, "errs": errs}));
        // Free bits of all sharings together.
        let w = W as usize;
        let dim = d.masks * (l + t * w) + (6 + d.randoms + d.errors) * (t + l) * w + d.zeros * (n - l) * w;
        let add = |what: &str, rows: &[Vec<u8>], dim: usize| {
            // Enough observations to span everything, not more.
            let (mut used, mut rank) = (0, 0);
            while used < rows.len() && rank < dim {
                used = (used + 50).min(rows.len());
                rank = affine_rank(&rows[..used]);
            }
            let some = rows[..used].to_vec();
            log.push(json!({"e": "rank", "what": what, "rows": pack_bits(&[&some])[0], "dim": dim}));
        };
        add("material", &rows, dim);
        // With the shares that are opened for the noise, two products for each.
        let k = 2 * d.errors * n;
        if opened.iter().all(|x| *x == k) {
            add("material and openings", &more, dim + k * w);
        }
    }
    a.out.write(&format!("noise-w{}n{}", W, n), &log);
}

pub fn r03(mut a: Args) {
    for (w, n, t, l) in [(3, 3, 1, 1), (4, 5, 1, 2), (5, 8, 2, 2), (8, 7, 1, 3), (8, 16, 4, 3), (9, 4, 0, 2), (16, 9, 2, 3), (18, 6, 2, 1), (8, 3, 1, 1)] {
        by_few_w!(w, r03_of(&mut a, n, t, l));
    }
    for (w, n, t, l) in [(3, 3, 1, 1), (2, 3, 1, 1), (4, 5, 1, 2), (3, 5, 1, 1)] {
        by_few_w!(w, r03_noise(&mut a, n, t, l));
    }
}

// --- preprocessing and garbling under schedules, together (P04) ------------------------------
fn p04g_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, key: usize, mssg: usize) {
    let mut r = rng(a.seed, 4000 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    head(&log, &ctxs[0]);
    let room = (1usize << W) - n - l;
    for c in circuits(&mut r, room, l, if a.thorough { 8 } else { 1 }) {
        let s = Setup::new(a, &c, &ctxs);
        // In isolation, to know the matrices.
        let mut known = Known::new(&s);
        for _ in 0..key + 6 {
            let sec = s.secrets(&mut r);
            let m = s.material(&mut r, &sec);
            match once(&log, &s, &m, &Policy::Fifo, &mut r) {
                Some(t) => {
                    let o = known.open(&t);
                    known.runs.push((sec, o));
                }
                None => break,
            }
            if known.runs.len() >= key && known.enough() {
                break;
            }
        }
        if !known.enough() {
            continue;
        }
        log.push(known.circ_event());
        // Several at once and one after another.
        for pol in sim::policies(n, &mut r) {
            let k = r.gen_range(2..4);
            let stages: Vec<usize> = (0..k).map(|_| r.gen_range(0..2)).collect();
            let mut ids: Vec<ProtocolID> = vec![vec![7], vec![7, 0], vec![], vec![8, 1], vec![0, 7]];
            // Identifiers of one must not extend those of another: children are derived from them.
            ids.retain(|i| i.len() == if r.gen_range(0..2) == 0 { 1 } else { 2 });
            let mut ids: Vec<ProtocolID> = if ids.len() < k { vec![vec![7], vec![8], vec![9]] } else { ids };
            if ids.iter().any(|x| ids.iter().any(|y| x != y && y.starts_with(x))) {
                ids = vec![vec![0, 0], vec![0, 1], vec![1, 0]];
            }
            let secs: Vec<Secrets<W>> = (0..k).map(|_| s.secrets(&mut r)).collect();
            let tasks: Vec<Task<W>> = secs
                .iter()
                .enumerate()
                .map(|(i, sec)| {
                    let m = s.material(&mut r, sec);
                    (ids[i].clone(), stages[i], parties(&s, &m))
                })
                .collect();
            let run = run_garble(&s, tasks, &pol, &mut r, false);
            if run_event(&log, &format!("together {:?}", pol), &run) {
                let out = run.take();
                for (i, sec) in secs.iter().enumerate() {
                    let t = join(&out.iter().map(|x| x[i].clone()).collect::<Vec<_>>());
                    log.push(table_event(sec, &t, vec![], true));
                }
            }
        }
    }
    a.out.write(&format!("w{}n{}l{}", W, n, l), &log);
}

fn p04p_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 4050 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    head(&log, &ctxs[0]);
    let g = Gen::new(&ctxs[0]);
    for k in 0..if a.thorough { 12 } else { 6 } {
        let pols = sim::policies(n, &mut r);
        let tasks: Vec<_> = (0..r.gen_range(1..4))
            .map(|i| {
                let b = r.gen_range(1..4);
                let d = PreProcCount { masks: b, keys: (2, 1, b), randoms: r.gen_range(0..5), zeros: r.gen_range(0..5), errors: r.gen_range(0..2 * n) };
                (vec![2, i as u8], r.gen_range(0..2), d)
            })
            .collect();
        let run = run_preproc(&ctxs, &g, &tasks, &pols[k % pols.len()].clone(), &mut r);
        if run_event(&log, "preproc", &run) {
            let out = run.take();
            for (i, t) in tasks.iter().enumerate() {
                material_events(&log, &t.2, &out.iter().map(|x| &x[i]).collect::<Vec<_>>());
            }
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

/// Numbers of blocks around those at which identifiers get another byte.
fn borders(a: &mut Args) {
    let mut r = rng(a.seed, 4040);
    let log = Log::new();
    let ctxs = contexts::<11>(3, 1, 1, 1, 1);
    head(&log, &ctxs[0]);
    let step = if a.thorough { 1 } else { 2 };
    let off = r.gen_range(0..step);
    let mut cs = Vec::new();
    // Blocks of gates, and of inputs of gates; the inputs of the circuit add to the former.
    for gates in (245..260).skip(off).step_by(step).chain([252, 255, 256, 513]) {
        cs.push((1, gates, 0));
    }
    for gates in (122..131).skip(off).step_by(step).chain([126, 128]) {
        cs.push((2, gates, 1));
        cs.push((255 - gates, gates, 2));
    }
    for (nin, gates, kind) in cs {
        let gs: Vec<Value> = (0..gates)
            .map(|k| match kind {
                0 => json!({"t": "INV", "i": [r.gen_range(0..nin + k)], "o": nin + k}),
                1 => json!({"t": "AND", "i": [r.gen_range(0..nin + k), r.gen_range(0..nin + k)], "o": nin + k}),
                _ => json!({"t": "XOR", "i": [r.gen_range(0..nin + k), r.gen_range(0..nin + k)], "o": nin + k}),
            })
            .collect();
        let s = Setup::new(a, &json!({"nw": nin + gates, "inw": [nin], "outw": [1], "gates": gs}), &ctxs);
        let sec = s.secrets(&mut r);
        let m = s.material(&mut r, &sec);
        let pols = sim::policies(3, &mut r);
        let pol = choose(&mut r, &pols).clone();
        if once(&log, &s, &m, &pol, &mut r).is_none() {
            break;
        }
    }
    a.out.write("borders", &log);
}

pub fn p04g(mut a: Args) {
    borders(&mut a);
    for (w, n, t, l, key, mssg) in [(5, 3, 1, 1, 1, 2), (5, 5, 1, 2, 2, 4), (8, 8, 2, 2, 1, 2), (8, 7, 1, 3, 1, 3)] {
        by_few_w!(w, p04g_of(&mut a, n, t, l, key, mssg));
    }
}
pub fn p04p(mut a: Args) {
    for (w, n, t, l) in [(3, 3, 1, 1), (4, 5, 1, 2), (5, 8, 2, 2), (8, 16, 4, 3)] {
        by_few_w!(w, p04p_of(&mut a, n, t, l));
    }
    // So many parties that the identifiers of the noise generation need another byte.
    let log = Log::new();
    let n = if a.thorough { 129 } else { 127 };
    let ctxs = contexts::<9>(n, 1, 1, 1, 1);
    head(&log, &ctxs[0]);
    let g = Gen::new(&ctxs[0]);
    let mut r = rng(a.seed, 4060);
    let d = PreProcCount { masks: 1, keys: (2, 1, 1), randoms: 1, zeros: 1, errors: 2 };
    let run = run_preproc(&ctxs, &g, &[(vec![2], 0, d)], &Policy::Random, &mut r);
    run_event(&log, "preproc", &run);
    a.out.write("many", &log);
}

// --- views of a garbling (P03) ---------------------------------------------------------------
fn p03g_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, gates: &[&str], joint: bool) {
    let mut r = rng(a.seed, 4100 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    head(&log, &ctxs[0]);
    for name in gates {
        let ar = if *name == "INV" { 1 } else { 2 };
        let c = json!({"nw": ar + 1, "inw": [ar], "outw": [1], "gates": [{"t": name, "i": (0..ar).collect::<Vec<_>>(), "o": ar}]});
        let s = Setup::new(a, &c, &ctxs);
        // All masks, keys and noise zero; and some others.
        let mut sets = vec![s.secrets(&mut r), s.secrets(&mut r)];
        sets[0].masks.iter_mut().flatten().for_each(|x| *x = GF::ZERO);
        sets[0].keys.iter_mut().flatten().flatten().flatten().for_each(|x| *x = GF::ZERO);
        sets[1] = s.noisy_any(&mut r, &sets[1]);
        // Views of all parties of one run are recorded together, the parties are judged one by one.
        let mut obs: Vec<Vec<Vec<Vec<u8>>>> = Vec::new(); // [set][watched][run]
        let who: Vec<Vec<usize>> = if joint { (0..if n == 3 { 2 } else { 1 }).map(|_| rand::seq::index::sample(&mut r, n, t).into_vec()).collect() } else { (0..n).map(|p| vec![p]).collect() };
        let mut failed = false;
        for sec in &sets {
            let mut per: Vec<Vec<Vec<u8>>> = vec![Vec::new(); who.len()];
            let (mut quiet, mut rank) = (0, vec![0; who.len()]);
            while quiet < 2 && per[0].len() < 6000 {
                for _ in 0..60 {
                    let m = s.material(&mut r, sec);
                    let run = run_garble(&s, vec![(vec![6], 0, parties(&s, &m))], &Policy::Fifo, &mut r, true);
                    if !run.ok() {
                        run_event(&log, "view", &run);
                        failed = true;
                        break;
                    }
                    for (p, v) in who.iter().zip(per.iter_mut()) {
                        if joint {
                            let mut own: Vec<u8> = p.iter().flat_map(|p| bincode::serialize(&m.of(*p)).unwrap()).collect();
                            own.extend(joint_view(&run.record, p));
                            v.push(own);
                        } else {
                            v.push(view(&run.record, p[0]));
                        }
                    }
                }
                if failed {
                    break;
                }
                let now: Vec<usize> = per.iter().map(|v| affine_rank(v)).collect();
                quiet = if now == rank { quiet + 1 } else { 0 };
                rank = now;
            }
            if failed {
                break;
            }
            obs.push(per);
        }
        if failed {
            break;
        }
        for (p, who) in who.iter().enumerate() {
            let v = pack_bits(&[&obs[0][p], &obs[1][p]]);
            log.push(json!({"e": "views", "what": format!("garble {}", name), "party": who, "leader": "", "a": v[0], "b": v[1]}));
        }
    }
    a.out.write(&format!("w{}n{}", W, n), &log);
}

impl<const W: u8> Setup<W> {
    /// The same with some noise, not necessarily distinct.
    fn noisy_any(&self, r: &mut R, s: &Secrets<W>) -> Secrets<W> {
        let mut s = s.clone();
        s.errors.iter_mut().flatten().for_each(|x| *x = any(r));
        s
    }
}

/// Views of the generation of noise, by the noise that resulted.
fn p03p_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize) {
    let mut r = rng(a.seed, 4150 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, 1, 1);
    head(&log, &ctxs[0]);
    let g = Gen::new(&ctxs[0]);
    // One noise sharing per leader.
    let d = PreProcCount { masks: 0, keys: (2, 1, 0), randoms: 0, zeros: 0, errors: n };
    let rec = interp(&scalable_mpc::sharing::PackedSharing::<W>::share_pos(n as u32), &defpos(&ctxs[0]));
    let mut runs: Vec<(Vec<Vec<u8>>, Vec<usize>)> = Vec::new(); // views, noise
    let (mut quiet, mut rank) = (0, Vec::new());
    while quiet < 2 && runs.len() < 20_000 {
        for _ in 0..400 {
            let run = run_preproc_of(&ctxs, &g, &[(vec![3], 0, d)], &Policy::Fifo, &mut r, true);
            if !run.ok() {
                run_event(&log, "noise", &run);
                a.out.write(&format!("noise-w{}n{}", W, n), &log);
                return;
            }
            let views = (0..n).map(|p| view(&run.record, p)).collect();
            let out = run.take();
            let noise = (0..n)
                .map(|k| {
                    let sh: Vec<GF<W>> = out.iter().map(|x| x[0].errors[k]).collect();
                    apply(&rec, &sh).iter().fold(0, |s, x| s << W | u32::from(*x) as usize)
                })
                .collect();
            runs.push((views, noise));
        }
        let now: Vec<usize> = (0..n).flat_map(|k| (0..2).map(|z| affine_rank(&part_of(&runs, k, z))).collect::<Vec<_>>()).collect();
        quiet = if now == rank { quiet + 1 } else { 0 };
        rank = now;
    }
    for k in 0..n {
        let (mut x, y) = (part_of(&runs, k, 0), part_of(&runs, k, 1));
        x.truncate(2 * rank[2 * k] + 200);
        let v = pack_bits(&[&x, &y]);
        log.push(json!({"e": "views", "what": "noise", "party": k, "leader": k, "a": v[0], "b": v[1]}));
    }
    a.out.write(&format!("noise-w{}n{}", W, n), &log);
}

/// Views of leader k in the runs in which its noise is zero (z = 0), or some other constant.
fn part_of(runs: &[(Vec<Vec<u8>>, Vec<usize>)], k: usize, z: usize) -> Vec<Vec<u8>> {
    runs.iter().filter(|x| x.1[k] == z).map(|x| x.0[k].clone()).collect()
}

pub fn p03g(mut a: Args) {
    p03p_of::<2>(&mut a, 3, 1, 1);
    if a.thorough {
        p03p_of::<3>(&mut a, 3, 1, 1);
        p03p_of::<3>(&mut a, 5, 1, 1);
    }
    let gates: &[&str] = if a.thorough { &["AND", "XOR", "INV"] } else { &["AND", "INV"] };
    p03g_of::<3>(&mut a, 3, 1, 1, gates, false);
    if a.thorough {
        p03g_of::<4>(&mut a, 5, 1, 2, &["XOR"], false);
    }
}

pub fn p05g(mut a: Args) {
    p03g_of::<3>(&mut a, 3, 1, 1, &["AND"], true);
    if a.thorough {
        p03g_of::<4>(&mut a, 5, 2, 1, &["INV"], true);
    }
}

// --- stored material (M02) ----------------------------------------------------------------------
fn store_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, key: usize, mssg: usize) {
    let mut r = rng(a.seed, 4200 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    log.push(json!({"e": "init"}));
    let room = (1usize << W) - n - l;
    let flat = |p: &PreProc<W>| -> Value {
        json!({"masks": us(p.masks.iter()), "keys": us(p.keys.iter()), "randoms": us(p.randoms.iter()), "zeros": us(p.zeros.iter()),
               "errors": us(p.errors.iter()), "shape": p.keys.shape()})
    };
    for c in circuits(&mut r, room, l, if a.thorough { 8 } else { 2 }) {
        let s = Setup::new(a, &c, &ctxs);
        let sec = s.secrets(&mut r);
        let sec = s.noisy_any(&mut r, &sec);
        let m = s.material(&mut r, &sec);
        let mut back = Vec::new();
        for p in 0..n {
            let before = m.of(p);
            let res = guarded(|| {
                let enc = bincode::serialize(&before).unwrap();
                let none = PreProc::<W> { masks: Array1::from_vec(vec![]), keys: Array3::from_shape_vec((2, key, 0), vec![]).unwrap(), randoms: vec![].into(), zeros: vec![].into(), errors: vec![].into() };
                (bincode::deserialize::<PreProc<W>>(&enc).unwrap(), enc.len() - bincode::serialize(&none).unwrap().len())
            });
            match res {
                Ok((x, size)) => {
                    log.push(json!({"e": "material", "w": W, "keylen": key, "before": flat(&m.of(p)), "after": flat(&x), "size": size}));
                    back.push(x);
                }
                Err(e) => log.push(json!({"e": "failed", "why": e})),
            }
        }
        if back.len() < n {
            continue;
        }
        let known = Known::new(&s);
        let t0 = once(&log_none(), &s, &m, &Policy::Random, &mut r);
        let run = run_garble(&s, vec![(vec![1], 0, back)], &Policy::Random, &mut r, false);
        let status = if t0.is_none() { "original failed".to_string() } else { run.status() };
        if status == "done" {
            let t1 = join(&run.take().into_iter().map(|mut x| x.remove(0)).collect::<Vec<_>>());
            log.push(json!({"e": "tables", "status": status, "original": tables_json(&used(&s, known.open(&t0.unwrap()))), "decoded": tables_json(&used(&s, known.open(&t1)))}));
        } else {
            log.push(json!({"e": "tables", "status": status, "original": [], "decoded": []}));
        }
    }
    a.out.write(&format!("w{}n{}l{}", W, n, l), &log);
}

/// The slots that hold gates; the others are arbitrary.
fn used<const W: u8>(s: &Setup<W>, mut t: Tables<W>) -> Tables<W> {
    for (g, (_, _, outs)) in s.gates.iter().enumerate() {
        t[g].iter_mut().flatten().for_each(|x| x.truncate(outs.len()));
    }
    t
}

fn log_none() -> Log {
    Log::new()
}

pub fn store(mut a: Args) {
    for (w, n, t, l, key, mssg) in GSETS {
        by_few_w!(w, store_of(&mut a, n, t, l, key, mssg));
    }
}

// --- from the generation of the material to the tables (G04) --------------------------------------
/// Each task generates the described material, stores it if wished, and garbles with it.
fn run_chain<const W: u8>(s: &Setup<W>, g: &Gen<W>, tasks: &[(ProtocolID, ProtocolID, bool)], policy: &Policy, r: &mut R) -> sim::Run<Vec<(PreProc<W>, Vec<Array2<GF<W>>>)>> {
    sim::run(s.ctxs.len(), policy, r, false, |p, net| {
        let (c, gc, d) = (s.ctxs[p].clone(), s.gctx[p].clone(), s.counts);
        let tasks = tasks.to_vec();
        let (f, b) = (g.field.clone(), g.bits.clone());
        async move {
            let hs: Vec<_> = tasks
                .into_iter()
                .map(|(id, id2, store)| {
                    let (c, gc, net, f, b) = (c.clone(), gc.clone(), net.clone(), f.clone(), b.clone());
                    tokio::spawn(async move {
                        let m = preproc::preproc(
                            id,
                            d,
                            c.clone(),
                            RandContext::new(f.clone(), &c),
                            ZeroContext::new(f.clone(), &c),
                            RandBitContext::new(b.clone(), &c),
                            net.clone(),
                        )
                        .await;
                        let kept = copy(&m);
                        let m = if store { bincode::deserialize(&bincode::serialize(&m).unwrap()).unwrap() } else { m };
                        (kept, garble::garble(id2, m, gc, net).await.gates)
                    })
                })
                .collect();
            let mut out = Vec::new();
            for h in hs {
                out.push(h.await.unwrap());
            }
            out
        }
    })
}

fn copy<const W: u8>(m: &PreProc<W>) -> PreProc<W> {
    PreProc { masks: m.masks.clone(), keys: m.keys.clone(), randoms: m.randoms.clone(), zeros: m.zeros.clone(), errors: m.errors.clone() }
}

fn g04_of<const W: u8>(a: &mut Args, n: usize, t: usize, l: usize, key: usize, mssg: usize) {
    let mut r = rng(a.seed, 4300 + W as u64 * 64 + n as u64);
    let log = Log::new();
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    head(&log, &ctxs[0]);
    let room = (1usize << W) - n - l;
    let gen = Gen::new(&ctxs[0]);
    'all: for c in circuits(&mut r, room, l, if a.thorough { 8 } else { 2 }) {
        let s = Setup::new(a, &c, &ctxs);
        let mut known = Known::new(&s);
        let mut k = 0;
        // The public matrices, from garblings with dealt material without noise.
        while k < key + 1 || (!known.enough() && k < key + 12) {
            let sec = s.secrets(&mut r);
            let m = s.material(&mut r, &sec);
            match once(&log, &s, &m, &Policy::Random, &mut r) {
                Some(t) => {
                    let open = known.open(&t);
                    known.runs.push((sec, open));
                }
                None => break 'all,
            }
            k += 1;
        }
        log.push(known.circ_event());
        let pols = sim::policies(n, &mut r);
        for i in 0..if a.thorough { 3 } else { 2 } {
            let pol = pols[r.gen_range(0..pols.len())].clone();
            let tasks: Vec<(ProtocolID, ProtocolID, bool)> = match i {
                0 => vec![(vec![1], vec![2], false)],
                1 => vec![(vec![0], vec![0, 0], true), (vec![3], vec![4], false)],
                _ => vec![(vec![7, 7], vec![], true)],
            };
            let run = run_chain(&s, &gen, &tasks, &pol, &mut r);
            if !run_event(&log, &format!("preprocessing and garbling {:?}", pol), &run) {
                break 'all;
            }
            let out = run.take();
            for k in 0..tasks.len() {
                let m = collect(&out.iter().map(|x| &x[k].0).collect::<Vec<_>>());
                let t = join(&out.iter().map(|x| x[k].1.clone()).collect::<Vec<_>>());
                let (kl, nb) = (m.shape.1, m.shape.2);
                let keys: Vec<Vec<Value>> = (0..m.shape.0).map(|v| (0..kl).map(|j| nums(&m.keys[(v * kl + j) * nb..(v * kl + j + 1) * nb].to_vec())).collect()).collect();
                log.push(json!({"e": "chain", "masks": nums(&m.masks), "keys": keys, "errors": nums(&m.errors), "t": tables_json(&t)}));
            }
        }
    }
    a.out.write(&format!("w{}n{}l{}", W, n, l), &log);
}

pub fn g04(mut a: Args) {
    for (w, n, t, l, key, mssg) in [(8, 3, 1, 1, 1, 3), (16, 3, 1, 1, 1, 7), (16, 5, 1, 2, 2, 4), (16, 4, 0, 2, 1, 5), (16, 7, 1, 3, 1, 3), (16, 5, 2, 1, 2, 3), (8, 9, 1, 4, 1, 2)] {
        by_few_w!(w, g04_of(&mut a, n, t, l, key, mssg));
    }
    if a.thorough {
        g04_of::<18>(&mut a, 8, 2, 2, 1, 5);
        g04_of::<11>(&mut a, 12, 2, 4, 1, 2);
        g04_of::<8>(&mut a, 16, 4, 3, 1, 2);
    }
}

/// Field elements in all messages of a run.
fn elements<const W: u8, T>(run: &sim::Run<T>) -> usize {
    let size = (W as usize + 7) / 8;
    run.record
        .iter()
        .map(|(_, _, _, data)| match bincode::deserialize::<Vec<GF<W>>>(data) {
            Ok(v) if bincode::serialized_size(&v).unwrap() as usize == data.len() => v.len(),
            _ => data.len() / size,
        })
        .sum()
}

fn e01_of<const W: u8>(a: &mut Args, log: &Log, n: usize, t: usize, l: usize, key: usize, mssg: usize) {
    let mut r = rng(a.seed, 4500 + W as u64 * 64 + n as u64);
    let ctxs = contexts::<W>(n, t, l, key, mssg);
    let gen = Gen::new(&ctxs[0]);
    let dim = gen.bits.nrows();
    let mut cs = circuits(&mut r, (1usize << W) - n - l, l, if a.thorough { 10 } else { 4 });
    // Gates on inputs only, in full batches.
    let g = |t: &str, i: &[usize], o: usize| json!({"t": t, "i": i, "o": o});
    for half in [true, false] {
        let (ins, k) = (l * l, if half { l * l } else { 2 * l * l });
        let gates: Vec<Value> = (0..k).map(|i| g(if half || i % 2 == 0 { "AND" } else { "XOR" }, &[i % ins, (i + 1) % ins], ins + i)).collect();
        if ins + k + n + l < 1usize << W {
            cs.push(json!({"nw": ins + k, "inw": [ins], "outw": [1], "gates": gates}));
        }
    }
    for c in cs {
        let s = Setup::new(a, &c, &ctxs);
        let pol = choose(&mut r, &[Policy::Fifo, Policy::Random]).clone();
        let pre = run_preproc_of(&ctxs, &gen, &[(vec![5], 0, s.counts)], &pol, &mut r, true);
        let m = s.material(&mut r, &s.secrets(&mut rng(a.seed, 4501)));
        let gar = sim::run(n, &pol, &mut r, true, |p, net| {
            let (m, gc) = (m.of(p), s.gctx[p].clone());
            async move {
                garble::garble(vec![6], m, gc, net).await;
            }
        });
        let of = |t: &str| s.gates.iter().filter(|g| g.0 == t).count();
        let (eg, ep) = (if gar.ok() { elements::<W, _>(&gar) as i64 } else { -1 }, if pre.ok() { elements::<W, _>(&pre) as i64 } else { -1 });
        log.push(json!({"e": "traffic", "x": {"n": n, "t": t, "l": l, "key": key, "mssg": mssg, "dim": dim},
                        "b": {"nin": s.packed.inputs().len(), "na": of("AND"), "nx": of("XOR"), "ni": of("INV")}, "garble": eg, "preproc": ep}));
    }
}

/// What the estimate script prints.
fn estimate(a: &Args, x: &Value, c: &Value, bits: u8, given: bool) -> Value {
    let mut m = std::process::Command::new("python3");
    m.arg("-B").arg("/repo/scripts/communication_estimates.py");
    for k in ["inputs", "ands", "xors"] {
        m.arg(c[k].to_string());
    }
    for (o, k) in [("-n", "n"), ("-t", "t"), ("-l", "l"), ("--binsup-dim", "dim")] {
        m.arg(o).arg(x[k].to_string());
    }
    m.arg("--semi-honest");
    if given {
        m.arg("--field-bits").arg(bits.to_string()).arg("--lpn-key-len").arg(x["key"].to_string()).arg("--lpn-ctx-len").arg(x["mssg"].to_string());
    }
    let out = m.current_dir(&a.scratch).output().expect("python3 starts");
    let (mut phase, mut lines) = (String::new(), Vec::new());
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        if let Some(p) = line.strip_prefix("--- ") {
            phase = p.split_whitespace().next().unwrap_or("").to_string();
        } else if let Some((label, v)) = line.rsplit_once(": ") {
            let w: Vec<&str> = v.split_whitespace().collect();
            let unit = w.get(1).and_then(|u| ["B", "KB", "MB"].iter().position(|k| k == u));
            let value = w.first().and_then(|v| v.parse::<f64>().ok());
            if let (Some(u), Some(v)) = (unit, value) {
                lines.push(json!([phase, label, (v * 1000.0).round() as u64, u]));
            }
        }
    }
    json!({"e": "estimate", "x": x, "c": c, "size": (bits as usize + 7) / 8, "ok": out.status.success(), "lines": lines})
}

pub fn e01(mut a: Args) {
    let log = Log::new();
    log.push(json!({"e": "init"}));
    for (w, n, t, l, key, mssg) in [(8, 3, 1, 1, 1, 3), (16, 5, 1, 2, 2, 4), (18, 4, 0, 2, 3, 5), (16, 7, 1, 3, 1, 3), (9, 5, 2, 1, 2, 3), (11, 9, 1, 4, 1, 2), (18, 8, 2, 2, 2, 7)] {
        by_few_w!(w, e01_of(&mut a, &log, n, t, l, key, mssg));
    }
    if a.thorough {
        e01_of::<16>(&mut a, &log, 16, 4, 3, 2, 5);
        e01_of::<18>(&mut a, &log, 12, 2, 4, 4, 9);
        e01_of::<18>(&mut a, &log, 3, 1, 1, 20, 50);
        e01_of::<9>(&mut a, &log, 13, 2, 5, 1, 3);
    }
    a.out.write("traffic", &log);
    let mut r = rng(a.seed, 4502);
    let log = Log::new();
    log.push(json!({"e": "init"}));
    let mut cases = Vec::new();
    for k in 0..if a.thorough { 400 } else { 80 } {
        let (n, t, l) = *choose(&mut r, &[(3, 1, 1), (5, 1, 2), (5, 2, 1), (7, 1, 3), (8, 2, 2), (16, 5, 3), (16, 3, 5), (4, 0, 2), (33, 8, 9), (64, 10, 20)]);
        let given = k % 8 != 0;
        let (key, mssg, bits) = if given { (r.gen_range(1..20), r.gen_range(1..30), *choose(&mut r, &[2u8, 8, 9, 16, 17, 18])) } else { (127, 555, 18) };
        let top = if !given { 3 } else { *choose(&mut r, &[2, 2 * l + 1, 40]) };
        let c = json!({"inputs": r.gen_range(1..=top), "ands": r.gen_range(0..=top), "xors": r.gen_range(0..=top)});
        cases.push((json!({"n": n, "t": t, "l": l, "key": key, "mssg": mssg, "dim": r.gen_range(1..=n)}), c, bits, given));
    }
    let events: Vec<Value> = cases.par_iter().map(|(x, c, bits, given)| estimate(&a, x, c, *bits, *given)).collect();
    events.into_iter().for_each(|e| log.push(e));
    a.out.write("estimates", &log);
}
