//! Runs the repository's programs (B01, B02). The directory of the executables is the extra argument.
use crate::circ;
use crate::net::{free_ports, proxy};
use crate::proto::contexts;
use crate::sim::{self, Policy};
use crate::util::*;
use ndarray::{Array1, Array3};
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use scalable_mpc::circuit::Circuit;
use scalable_mpc::math::{binary_super_inv_matrix, galois::GF, super_inv_matrix};
use scalable_mpc::protocol::garble::{self, GarbleContext};
use scalable_mpc::protocol::network;
use scalable_mpc::protocol::preproc::{self, PreProc, RandBitContext, RandContext, ZeroContext};
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

const W: u8 = 18;

#[derive(Clone, Debug)]
struct Case {
    prog: &'static str,
    n: usize,
    t: usize,
    l: usize,
    key: usize,
    mssg: usize,
    tau: usize,
    reps: usize,
    threads: usize,
    save: bool,
    /// Start of each party in ms; the parties to suspend for a while, with the time.
    starts: Vec<u64>,
    stops: Vec<(usize, u64)>,
    /// Connections through proxies that delay and fragment.
    style: Option<u8>,
    defaults: bool,
    circ: String,
    mat: String,
}

fn stop(c: &Child, sig: &str) {
    let _ = Command::new("kill").arg(sig).arg(c.id().to_string()).stdout(Stdio::null()).stderr(Stdio::null()).status();
}

fn run_case(dir: &str, scratch: &str, k: usize, c: &Case, seed: u64) -> Value {
    let pairs = if c.style.is_some() { c.n * (c.n - 1) / 2 } else { 0 };
    let ports = free_ports(c.n + pairs);
    let rt = runtime_mt(1);
    let mut at = c.n;
    let mut files = Vec::new();
    for i in 0..c.n {
        let mut list: Vec<String> = ports[..c.n].iter().map(|p| format!("127.0.0.1:{}", p)).collect();
        if let Some(style) = c.style {
            for j in 0..i {
                rt.spawn(proxy(ports[at], ports[j], seed + at as u64 * 17, style, 0));
                list[j] = format!("127.0.0.1:{}", ports[at]);
                at += 1;
            }
        }
        let f = format!("{}/net-{}-{}.txt", scratch, k, i);
        std::fs::write(&f, list.join("\n") + "\n").unwrap();
        files.push(f);
    }
    let report = format!("{}/report-{}.json", scratch, k);
    let spawn = |i: usize| -> Child {
        let mut m = Command::new(format!("{}/{}", dir, c.prog));
        m.arg("--id").arg(i.to_string()).arg("--net").arg(&files[i]).arg("--circ").arg(&c.circ);
        m.arg("--threshold").arg(c.t.to_string()).arg("--packing-param").arg(c.l.to_string());
        if !c.defaults {
            m.arg("--lpn-key-len").arg(c.key.to_string()).arg("--lpn-mssg-len").arg(c.mssg.to_string());
            m.arg("--lpn-error-bias").arg(c.tau.to_string());
            m.arg("--reps").arg(c.reps.to_string()).arg("--threads").arg(c.threads.to_string());
        }
        if c.prog == "preproc" {
            m.arg("--binsup-mat").arg(&c.mat);
        }
        if c.save {
            m.arg("--save").arg(&report);
        }
        m.current_dir(scratch).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("program starts")
    };
    let begin = Instant::now();
    let ms = || begin.elapsed().as_millis() as u64;
    let mut kids: Vec<Option<Child>> = (0..c.n).map(|_| None).collect();
    let mut ends: Vec<String> = vec![String::new(); c.n];
    let mut stops: Vec<(usize, u64, u8)> = c.stops.iter().map(|(p, t)| (*p, *t, 0)).collect();
    let limit = Duration::from_secs(if c.defaults { 240 } else { 100 });
    while ends.iter().any(|e| e.is_empty()) && begin.elapsed() < limit {
        for i in 0..c.n {
            if kids[i].is_none() && ends[i].is_empty() && ms() >= c.starts[i] {
                kids[i] = Some(spawn(i));
            }
            if let (Some(kid), true) = (&mut kids[i], ends[i].is_empty()) {
                if let Ok(Some(st)) = kid.try_wait() {
                    ends[i] = if st.success() { "ok".into() } else { format!("{}", st) };
                }
            }
        }
        for (p, t, state) in stops.iter_mut() {
            if let (Some(kid), true) = (&kids[*p], ends[*p].is_empty()) {
                if *state == 0 && ms() >= *t {
                    stop(kid, "-STOP");
                    *state = 1;
                } else if *state == 1 && ms() >= *t + 400 {
                    stop(kid, "-CONT");
                    *state = 2;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut printed = Vec::new();
    for i in 0..c.n {
        let mut text = String::new();
        if let Some(kid) = &mut kids[i] {
            if ends[i].is_empty() {
                stop(kid, "-CONT");
                let _ = kid.kill();
                let _ = kid.wait();
                ends[i] = "does not end".into();
            }
            let _ = kid.stdout.take().unwrap().read_to_string(&mut text);
        }
        let num = |l: &str| -> Option<u64> { l.split_whitespace().find_map(|w| w.parse().ok()) };
        let of = |w: &str| -> Vec<u64> { text.lines().filter(|l| l.starts_with(w)).filter_map(|l| num(l)).collect() };
        let (ts, cs) = (of("Runtime:"), of("Communication:"));
        printed.push(json!(if ts.len() == cs.len() { ts.into_iter().zip(cs).map(|(x, y)| json!([x, y])).collect() } else { Vec::new() }));
    }
    rt.shutdown_background();
    let found = std::fs::read_to_string(&report).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
    json!({"e": "run", "prog": c.prog, "starts": c.starts, "stops": c.stops.len(), "proxies": c.style.is_some(),
           "opts": {"n": c.n, "t": c.t, "l": c.l, "circ": c.circ, "lpn_tau": c.tau, "lpn_key_len": c.key, "lpn_mssg_len": c.mssg, "reps": c.reps, "threads": c.threads},
           "traffic": [], "sync": [0, 0], "save": c.save, "saved": found.is_some(), "exits": ends, "printed": printed, "report": found.unwrap_or(json!({}))})
}

/// Bytes that each party receives from each party in one repetition, [receiver][sender], without and with identifiers:
/// those of the same protocol run in the controlled network.
fn traffic(c: &Case, r: &mut R) -> Value {
    let ctxs = contexts::<W>(c.n, c.t, c.l, c.key, c.mssg);
    let packed = Circuit::from_bristol_fashion(std::path::Path::new(&c.circ)).pack(c.l as u32);
    let d = PreProc::describe(&packed, &ctxs[0]);
    let record = if c.prog == "garble" {
        let gs: Vec<_> = ctxs.iter().map(|x| Arc::new(GarbleContext::new(packed.clone(), x.clone()))).collect();
        sim::run(c.n, &Policy::Fifo, r, true, |p, net| {
            let (m, g) = (PreProc::dummy(200, d, &ctxs[p]), gs[p].clone());
            async move {
                garble::garble(vec![], m, g, net).await;
            }
        })
        .record
    } else {
        let f = Arc::new(super_inv_matrix(c.n, c.n - c.t));
        let b = Arc::new(binary_super_inv_matrix(std::path::Path::new(&c.mat)));
        sim::run(c.n, &Policy::Fifo, r, true, |p, net| {
            let x = ctxs[p].clone();
            let (rc, zc, bc) = (RandContext::new(f.clone(), &x), ZeroContext::new(f.clone(), &x), RandBitContext::new(b.clone(), &x));
            async move {
                preproc::preproc(vec![], d, x, rc, zc, bc, net).await;
            }
        })
        .record
    };
    let mut t = vec![vec![(0, 0); c.n]; c.n];
    for (from, to, id, data) in record {
        t[to][from].0 += data.len();
        t[to][from].1 += data.len() + id.len();
    }
    json!(t)
}

/// Bytes that a party receives from another in a synchronization, without and with identifiers.
fn sync_bytes(n: usize, r: &mut R) -> Value {
    let id = b"benchmark communication protocol".to_vec();
    let run = sim::run(n, &Policy::Fifo, r, true, |_, net| {
        let id = id.clone();
        async move { network::sync(id, &net, n).await }
    });
    let of = |f: &dyn Fn(&Vec<u8>, &Vec<u8>) -> usize| run.record.iter().filter(|x| x.0 == 0 && x.1 == 1).map(|x| f(&x.2, &x.3)).sum::<usize>();
    json!([of(&|_, d| d.len()), of(&|i, d| i.len() + d.len())])
}

fn circuit_file(a: &Args, name: &str, c: &Value) -> String {
    let f = format!("{}/{}.txt", a.scratch, name);
    std::fs::write(&f, circ::bristol(c)).unwrap();
    f
}

fn matrix_file(a: &Args, n: usize) -> String {
    // Sums of two parties' bits; one line for each party.
    let f = format!("{}/mat-{}.txt", a.scratch, n);
    let lines: Vec<String> =
        (0..n).map(|j| (0..n - 1).map(|i| if j == i || j == n - 1 { "1" } else { "0" }).collect::<Vec<_>>().join(" ")).collect();
    std::fs::write(&f, lines.join("\n") + "\n").unwrap();
    f
}

pub fn b01(mut a: Args) {
    let mut r = rng(a.seed, 5001);
    let dir = a.extra[0].clone();
    let mut cases = Vec::new();
    let orders3: Vec<Vec<u64>> = vec![vec![0, 300, 600], vec![0, 600, 300], vec![300, 0, 600], vec![600, 0, 300], vec![300, 600, 0], vec![600, 300, 0], vec![0, 0, 0]];
    let circs: Vec<String> = (0..3).map(|k| circuit_file(&a, &format!("c{}", k), &circ::random(&mut r, 2, 2 + 3 * k))).collect();
    let mut add = |r: &mut R, prog: &'static str, n: usize, t: usize, l: usize, reps: usize, save: bool, starts: Vec<u64>, style: Option<u8>, stops: usize| {
        let key = r.gen_range(1..4);
        cases.push(Case {
            prog,
            n,
            t,
            l,
            key,
            mssg: key + r.gen_range(1..4),
            tau: if prog == "garble" { r.gen_range(1..5) } else { 2 },
            reps,
            threads: r.gen_range(1..4),
            save,
            starts,
            stops: (0..stops).map(|_| (r.gen_range(0..n), r.gen_range(0..1800))).collect(),
            style,
            defaults: false,
            circ: choose(r, &circs).clone(),
            mat: matrix_file(&a, n),
        });
    };
    let rounds = if a.thorough { 4 } else { 1 };
    for round in 0..rounds {
        for prog in ["garble", "preproc"] {
            for (k, o) in orders3.iter().enumerate() {
                // Orders with and without saving and different numbers of repetitions.
                add(&mut r, prog, 3, 1, 1, [1, 2, 3, 1, 4, 2, 6][(k + round) % 7], (k + round) % 2 == 0, o.clone(), None, 0);
            }
            add(&mut r, prog, 3, 1, 1, 0, true, vec![0, 0, 0], None, 0);
            add(&mut r, prog, 3, 1, 1, 2, true, vec![0, 0, 0], Some(round as u8 % 3), 1);
            add(&mut r, prog, 3, 1, 1, 2, false, vec![0, 0, 0], Some(1), 0);
            add(&mut r, prog, 3, 1, 1, 3, true, vec![0, 0, 0], None, 3);
            for save in [true, false] {
                let mut starts: Vec<u64> = (0..5).map(|i| i * 120).collect();
                starts.shuffle(&mut r);
                add(&mut r, prog, 5, 1, 2, 2, save, starts, None, 2);
            }
            let mut starts: Vec<u64> = (0..8).map(|i| i * 60).collect();
            starts.shuffle(&mut r);
            add(&mut r, prog, 8, 1, 3, 1, true, starts, if round % 2 == 0 { Some(2) } else { None }, 1);
        }
    }
    // Few leaders, and amounts of noise that are not multiples of n: the traffic of the senders differs.
    let few = circuit_file(&a, "few", &json!({"nw": 2, "inw": [1], "outw": [1], "gates": [{"t": "INV", "i": [0], "o": 1}]}));
    for prog in ["garble", "preproc"] {
        for (n, t, l) in [(5, 1, 2), (8, 1, 3)] {
            cases.push(Case {
                prog,
                n,
                t,
                l,
                key: r.gen_range(20..40),
                mssg: 47,
                tau: 2,
                reps: 2,
                threads: 1,
                save: true,
                starts: vec![0; n],
                stops: vec![],
                style: None,
                defaults: false,
                circ: few.clone(),
                mat: matrix_file(&a, n),
            });
        }
    }
    // Options not given.
    let tiny = circuit_file(&a, "tiny", &json!({"nw": 3, "inw": [1, 1], "outw": [1], "gates": [{"t": "AND", "i": [0, 1], "o": 2}]}));
    for prog in ["garble", "preproc"] {
        if prog == "garble" || a.thorough {
            cases.push(Case {
                prog,
                n: 3,
                t: 1,
                l: 1,
                key: 127,
                mssg: 555,
                tau: 2,
                reps: 1,
                threads: 1,
                save: true,
                starts: vec![0, 0, 0],
                stops: vec![],
                style: None,
                defaults: true,
                circ: tiny.clone(),
                mat: matrix_file(&a, 3),
            });
        }
    }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(6).build().unwrap();
    let mut events: Vec<(usize, Value)> =
        pool.install(|| cases.par_iter().enumerate().map(|(k, c)| (k, run_case(&dir, &a.scratch, k, c, a.seed * 1000 + k as u64))).collect());
    events.sort_by_key(|x| x.0);
    for (k, e) in events.iter_mut() {
        if cases[*k].save && !cases[*k].defaults {
            e["traffic"] = traffic(&cases[*k], &mut r);
            e["sync"] = sync_bytes(cases[*k].n, &mut r);
        }
    }
    for prog in ["garble", "preproc"] {
        let log = Log::new();
        log.push(json!({"e": "init"}));
        for (_, e) in events.iter().filter(|x| x.1["prog"] == prog) {
            log.push(e.clone());
        }
        a.out.write(prog, &log);
    }
}

pub fn b02(mut a: Args) {
    let mut r = rng(a.seed, 5002);
    let dir = a.extra[0].clone();
    let mut cases: Vec<(usize, usize, usize, usize, usize, Value)> = Vec::new();
    let sets = [(3, 1, 1), (5, 1, 2), (5, 2, 1), (7, 1, 3), (8, 2, 2), (16, 5, 3), (16, 3, 5), (4, 0, 2), (33, 8, 9)];
    for k in 0..if a.thorough { 120 } else { 30 } {
        let (n, t, l) = sets[k % sets.len()];
        let key = *choose(&mut r, &[1, 2, 3, 7]);
        let mssg = key + r.gen_range(1..6);
        let gates = *choose(&mut r, &[1, 2, l, 2 * l + 1, 40]);
        cases.push((n, t, l, key, mssg, circ::random(&mut r, 1 + l, gates)));
    }
    let g = |t: &str, i: &[usize], o: usize| json!({"t": t, "i": i, "o": o});
    cases.push((3, 1, 1, 127, 555, json!({"nw": 3, "inw": [1, 1], "outw": [1], "gates": [g("AND", &[0, 1], 2)]})));
    cases.push((16, 5, 3, 127, 555, json!({"nw": 2, "inw": [1], "outw": [1], "gates": [g("INV", &[0], 1)]})));
    let log = Log::new();
    log.push(json!({"e": "init"}));
    GF::<W>::init().unwrap();
    let events: Vec<Value> = cases
        .par_iter()
        .enumerate()
        .map(|(k, (n, t, l, key, mssg, c))| {
            let f = circuit_file(&a, &format!("s{}", k), c);
            let mut m = Command::new(format!("{}/preproc_size", dir));
            m.arg("--circ").arg(&f).arg("--num-parties").arg(n.to_string()).arg("--threshold").arg(t.to_string());
            m.arg("--packing-param").arg(l.to_string());
            if *key != 127 {
                m.arg("--lpn-key-len").arg(key.to_string()).arg("--lpn-mssg-len").arg(mssg.to_string());
            }
            let out = m.current_dir(&a.scratch).stdin(Stdio::null()).output().expect("program starts");
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let (first, second) = match text.find("generation") {
                Some(i) => (text[..i].to_string(), text[i..].to_string()),
                None => (text.clone(), String::new()),
            };
            let num = |s: &str, w: &str| -> i64 {
                s.lines().find(|l| l.trim().starts_with(w)).and_then(|l| l.split_whitespace().find_map(|x| x.parse().ok())).unwrap_or(-1)
            };
            let ctx = contexts::<W>(*n, *t, *l, *key, *mssg).remove(0);
            let packed = Circuit::from_bristol_fashion(std::path::Path::new(&f)).pack(*l as u32);
            let d = PreProc::describe(&packed, &ctx);
            let z = |k: usize| -> Vec<GF<W>> { vec![GF::ONE; k] };
            let m = PreProc::<W> {
                masks: Array1::from_vec(z(d.masks)),
                keys: Array3::from_shape_vec(d.keys, z(d.keys.0 * d.keys.1 * d.keys.2)).unwrap(),
                randoms: z(d.randoms).into(),
                zeros: z(d.zeros).into(),
                errors: z(d.errors).into(),
            };
            json!({"e": "size", "status": if out.status.success() { "ok".to_string() } else { format!("{}", out.status) }, "circ": c,
                   "gates": packed.gates().iter().map(circ::packed_gate).collect::<Vec<_>>(), "inputs": packed.inputs(), "outputs": packed.outputs(),
                   "opts": {"n": n, "t": t, "l": l, "key": key, "mssg": mssg}, "bytes": bincode::serialize(&m).unwrap().len(),
                   "printed": {"masks": num(&first, "Mask shares"), "keys": num(&first, "Key shares"), "randoms": num(&first, "Random shares"),
                               "zeros": num(&first, "Random zeros"), "errors": num(&first, "Random errors"), "bytes": num(&first, "Total"),
                               "rand": num(&second, "Random shares"), "zero": num(&second, "Zero shares"), "bit": num(&second, "Bit shares")}})
        })
        .collect();
    for e in events {
        log.push(e);
    }
    a.out.write("size", &log);
}
