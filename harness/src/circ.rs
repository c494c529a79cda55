//! Circuit loading, evaluation and packing (K01, K02).
use crate::util::*;
use rand::Rng;
use scalable_mpc::circuit::{Circuit, Gate, PackedCircuit, PackedGate};

/// The text of a circuit file.
pub fn bristol(c: &Value) -> String {
    let list = |v: &Value| v.as_array().unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let len = |v: &Value| v.as_array().unwrap().len();
    let mut s = format!("{} {}\n{} {}\n{} {}\n\n", len(&c["gates"]), c["nw"], len(&c["inw"]), list(&c["inw"]), len(&c["outw"]), list(&c["outw"]));
    for g in c["gates"].as_array().unwrap() {
        s += &format!("{} 1 {} {} {}\n", len(&g["i"]), list(&g["i"]), g["o"], g["t"].as_str().unwrap());
    }
    s
}

/// The description of a circuit file, read independently of the code under test.
pub fn parse(text: &str) -> Value {
    let mut ls = text.lines().filter(|l| !l.trim().is_empty());
    let nums = |l: &str| l.split_whitespace().map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>();
    let h = nums(ls.next().unwrap());
    let i = nums(ls.next().unwrap());
    let o = nums(ls.next().unwrap());
    let gates: Vec<Value> = ls
        .map(|l| {
            let w: Vec<&str> = l.split_whitespace().collect();
            let fi: usize = w[0].parse().unwrap();
            let x: Vec<usize> = w[2..w.len() - 1].iter().map(|x| x.parse().unwrap()).collect();
            json!({"t": w[w.len() - 1], "i": x[..fi], "o": x[fi]})
        })
        .collect();
    json!({"nw": h[1], "inw": i[1..], "outw": o[1..], "gates": gates})
}

pub fn gate(g: &Gate) -> Value {
    match g {
        Gate::And(x) => json!({"t": "AND", "i": x.inp.to_vec(), "o": x.out}),
        Gate::Xor(x) => json!({"t": "XOR", "i": x.inp.to_vec(), "o": x.out}),
        Gate::Inv(x) => json!({"t": "INV", "i": x.inp.to_vec(), "o": x.out}),
    }
}

pub fn packed_gate(g: &PackedGate) -> Value {
    match g {
        PackedGate::And(x) => json!({"t": "AND", "i": x.inp.to_vec(), "o": x.out}),
        PackedGate::Xor(x) => json!({"t": "XOR", "i": x.inp.to_vec(), "o": x.out}),
        PackedGate::Inv(x) => json!({"t": "INV", "i": x.inp.to_vec(), "o": x.out}),
    }
}

fn packed(k: usize, p: &PackedCircuit) -> Value {
    let (a, x, i) = p.get_gate_counts();
    json!({"e": "pack", "k": k, "gates": p.gates().iter().map(packed_gate).collect::<Vec<_>>(), "inputs": p.inputs(), "outputs": p.outputs(),
           "wires": p.num_wires(), "perblock": p.gates_per_block(), "counts": [a, x, i]})
}

fn bits(v: &[Vec<bool>]) -> Value {
    json!(v.iter().map(|g| g.iter().map(|b| *b as u8).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn load(c: &Value, path: &str) -> Result<Circuit, String> {
    std::fs::write(path, bristol(c)).unwrap();
    guarded(|| Circuit::from_bristol_fashion(std::path::Path::new(path)))
}

fn widths(c: &Value) -> Vec<usize> {
    c["inw"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

fn evaluate(log: &Log, c: &Value, circ: &Circuit, all: usize, r: &mut R) {
    let ws = widths(c);
    let total: usize = ws.iter().sum();
    let inputs: Vec<Vec<bool>> = if total < 20 && 1usize << total <= all {
        (0..1usize << total).map(|x| (0..total).map(|j| x >> j & 1 == 1).collect()).collect()
    } else {
        (0..all).map(|k| (0..total).map(|_| if k == 0 { false } else if k == 1 { true } else { r.gen() }).collect()).collect()
    };
    let (mut inp, mut out) = (Vec::new(), Vec::new());
    for x in inputs {
        let mut at = 0;
        let v: Vec<Vec<bool>> = ws
            .iter()
            .map(|w| {
                at += w;
                x[at - w..at].to_vec()
            })
            .collect();
        inp.push(bits(&v));
        out.push(match guarded(|| circ.eval(&v)) {
            Ok(o) => bits(&o),
            Err(e) => json!(e),
        });
    }
    log.push(json!({"e": "eval", "inp": inp, "out": out}));
}

/// A random circuit; wires of the gates in a random order, with shared and repeated inputs.
pub fn random(r: &mut R, max_in: usize, gates: usize) -> Value {
    let groups = r.gen_range(1..=4);
    let inw: Vec<usize> = (0..groups).map(|_| r.gen_range(1..=max_in)).collect();
    let nin: usize = inw.iter().sum();
    let nw = nin + gates;
    let mut names: Vec<usize> = (nin..nw).collect();
    if r.gen() {
        for i in (1..names.len()).rev() {
            names.swap(i, r.gen_range(0..=i));
        }
    }
    let mut ready: Vec<usize> = (0..nin).collect();
    let bias = r.gen_range(0..4);
    let mut gs = Vec::new();
    for &o in &names {
        // Sometimes prefer recent wires (deep circuits) or the first wire (large fan-out).
        let pick = |r: &mut R| match bias {
            0 => ready[r.gen_range(ready.len().saturating_sub(4)..ready.len())],
            1 if r.gen() => ready[0],
            _ => ready[r.gen_range(0..ready.len())],
        };
        let (a, b) = (pick(r), pick(r));
        gs.push(match r.gen_range(0..5) {
            0 => json!({"t": "INV", "i": [a], "o": o}),
            1 | 2 => json!({"t": "AND", "i": [a, b], "o": o}),
            _ => json!({"t": "XOR", "i": [a, b], "o": o}),
        });
        ready.push(o);
    }
    let mut left = r.gen_range(1..=nw);
    let mut outw = Vec::new();
    while left > 0 {
        let w = if outw.len() == 3 { left } else { r.gen_range(1..=left) };
        outw.push(w);
        left -= w;
    }
    json!({"nw": nw, "inw": inw, "outw": outw, "gates": gs})
}

fn start(log: &Log, c: &Value) {
    let mut v = c.clone();
    v["e"] = json!("init");
    v.as_object_mut().unwrap().remove("steps");
    log.push(v);
}

fn shipped(a: &Args) -> Vec<(String, Value)> {
    let names: &[&str] = if a.thorough { &["sub64", "aes_128"] } else { &["sub64"] };
    names
        .iter()
        .map(|n| {
            let f = format!("/repo/data/circ/{}.txt", n);
            let c = parse(&std::fs::read_to_string(&f).unwrap());
            (f, c)
        })
        .collect()
}

/// Few gates on so many inputs that wire numbers take more than two bytes.
fn wide(r: &mut R) -> Value {
    let nin = 65_000 + r.gen_range(500..2000);
    let first = r.gen_range(1..nin);
    let gs: Vec<Value> = (0..40)
        .map(|k| {
            let mut pick = || match r.gen_range(0..3) {
                0 => r.gen_range(65_500..65_580.min(nin + k)),
                1 => r.gen_range(0..nin + k),
                _ => nin + k - 1 - r.gen_range(0..=k),
            };
            let (x, y) = (pick(), pick());
            match k % 3 {
                0 => json!({"t": "XOR", "i": [x, y], "o": nin + k}),
                1 => json!({"t": "AND", "i": [x, y], "o": nin + k}),
                _ => json!({"t": "INV", "i": [x], "o": nin + k}),
            }
        })
        .collect();
    json!({"nw": nin + 40, "inw": [first, nin - first], "outw": [30, 10], "gates": gs})
}

pub fn k01(mut a: Args) {
    let mut r = rng(a.seed, 70);
    let file = format!("{}/c.txt", a.scratch);
    let mut log = Log::new();
    let one = |log: &Log, c: &Value, n: usize, r: &mut R, path: Option<&str>| {
        start(log, c);
        let circ = match path {
            Some(p) => guarded(|| Circuit::from_bristol_fashion(std::path::Path::new(p))),
            None => load(c, &file),
        };
        match circ {
            Ok(circ) => {
                log.push(json!({"e": "loaded", "gates": circ.gates().iter().map(gate).collect::<Vec<_>>(), "inputs": circ.inputs(),
                                "outputs": circ.outputs(), "wires": circ.num_wires()}));
                evaluate(log, c, &circ, n, r);
            }
            Err(e) => log.push(json!({"e": "panic", "what": e})),
        }
    };
    for c in a.inputs() {
        one(&log, &c, 64, &mut r, None);
        if log.len() > 6000 {
            a.out.write("gen", &log);
            log = Log::new();
        }
    }
    if log.len() > 0 {
        a.out.write("gen", &log);
    }
    let log = Log::new();
    for k in 0..if a.thorough { 120 } else { 30 } {
        let g = [1, 2, 3, 9, 30, 120, 300][k % 7];
        let c = random(&mut r, 1 + k % 9, g);
        one(&log, &c, 12, &mut r, None);
    }
    a.out.write("random", &log);
    let log = Log::new();
    let c = wide(&mut r);
    one(&log, &c, 2, &mut r, None);
    a.out.write("wide", &log);
    for (f, c) in shipped(&a) {
        let log = Log::new();
        one(&log, &c, if c["nw"].as_u64().unwrap() > 5000 { 1 } else { 4 }, &mut r, Some(&f));
        a.out.write("shipped", &log);
    }
}

pub fn k02(mut a: Args) {
    let mut r = rng(a.seed, 71);
    let file = format!("{}/c.txt", a.scratch);
    let mut log = Log::new();
    let one = |log: &Log, c: &Value, sizes: &[usize]| {
        start(log, c);
        for &k in sizes {
            // Packing consumes the circuit.
            log.push(match load(c, &file).and_then(|circ| guarded(|| circ.pack(k as u32))) {
                Ok(p) => packed(k, &p),
                Err(e) => json!({"e": "panic", "k": k, "what": e}),
            });
        }
    };
    for c in a.inputs() {
        one(&log, &c, &[1, 2, 3, 5]);
        if log.len() > 8000 {
            a.out.write("gen", &log);
            log = Log::new();
        }
    }
    if log.len() > 0 {
        a.out.write("gen", &log);
    }
    let log = Log::new();
    for k in 0..if a.thorough { 140 } else { 35 } {
        let g = [0, 1, 7, 16, 30, 64, 120][k % 7];
        let c = random(&mut r, 1 + k % 12, g);
        let x = r.gen_range(1..20);
        one(&log, &c, &[1, 4, x, 2 * x + 1, 8, 16, 1000]);
    }
    a.out.write("random", &log);
    let log = Log::new();
    let c = wide(&mut r);
    one(&log, &c, &[700, 65_536, 100_000]);
    a.out.write("wide", &log);
    for (_, c) in shipped(&a) {
        let log = Log::new();
        one(&log, &c, if a.thorough { &[11, 64, 5000] } else { &[3, 11, 64, 5000] });
        a.out.write("shipped", &log);
    }
}
