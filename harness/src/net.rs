//! Drivers for the message layer (N01-N06): they issue calls on the public API of the networks and
//! log calls and results; spec/TraceNet.tla etc. decide.
use crate::sim::{Policy, Sim};
use crate::util::*;
use rand::seq::SliceRandom;
use rand::Rng;
use scalable_mpc::protocol::network::{self, Network, Recipient, SendMessage, Stats};
use scalable_mpc::protocol::{ProtocolID, ProtocolIDBuilder};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

/// Ports outside the range the system takes for outgoing connections (a retried connection to a port
/// in that range may connect to itself), each given out once in this process.
pub fn free_ports(k: usize) -> Vec<u16> {
    static NEXT: Mutex<u32> = Mutex::new(0);
    let mut next = NEXT.lock().unwrap();
    if *next == 0 {
        *next = 1 + std::process::id().wrapping_mul(7919) % 20000;
    }
    let mut out = Vec::new();
    while out.len() < k {
        let p = 11000 + (*next % 20000) as u16;
        *next += 1;
        if std::net::TcpListener::bind(("0.0.0.0", p)).is_ok() {
            out.push(p);
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Op {
    Send { p: usize, to: Option<usize>, id: Vec<u8>, data: Vec<u8> },
    Recv { q: usize, id: Vec<u8> },
    Stat { q: usize, p: usize },
    Mark { q: usize },
    Drop { p: usize },
    Settle,
    Yield,
}

struct Expect {
    sent: HashMap<(usize, Vec<u8>), usize>,      // messages addressed to (party, id)
    asked: HashMap<(usize, Vec<u8>), usize>,     // receives issued at (party, id)
    bytes: Vec<Vec<(u64, u64)>>,                 // [from][to]
}

/// Proxy that forwards both directions of one connection, splitting and delaying bytes at random.
async fn pipe(mut rd: tokio::net::tcp::OwnedReadHalf, mut wr: tokio::net::tcp::OwnedWriteHalf, seed: u64, style: u8) {
    let mut r = rng(seed, 7);
    let mut buf = vec![0u8; 1 << 16];
    let mut slow = if style < 2 { 6 } else { 0 };
    loop {
        let want = match style {
            _ if slow > 0 => 1,
            0 => 1 + r.gen_range(0..3),
            1 => *choose(&mut r, &[1usize, 2, 3, 7, 127, 128, 1000, 1 << 16]),
            _ => 1 << 16,
        };
        let k = match rd.read(&mut buf[..want]).await {
            Ok(0) | Err(_) => break,
            Ok(k) => k,
        };
        if wr.write_all(&buf[..k]).await.is_err() {
            break;
        }
        // The announcement of the party and the start of the first frame arrive byte by byte.
        if slow > 0 {
            slow -= 1;
            tokio::time::sleep(Duration::from_millis(30)).await;
        }
        match r.gen_range(0..20) {
            0 => tokio::time::sleep(Duration::from_millis(1)).await,
            1..=6 => tokio::task::yield_now().await,
            _ => {}
        }
    }
    let _ = wr.shutdown().await;
}

/// Listens on `port` and forwards each connection to 127.0.0.1:`target`, optionally delaying the
/// first bytes of the connecting side.
pub async fn proxy(port: u16, target: u16, seed: u64, style: u8, hold: u64) {
    let l = match TcpListener::bind(("127.0.0.1", port)).await {
        Ok(l) => l,
        Err(_) => return,
    };
    while let Ok((a, _)) = l.accept().await {
        // Connect only when the real party listens: until then the connecting party sees a
        // connection that is accepted but silent.
        let b = loop {
            match TcpStream::connect(("127.0.0.1", target)).await {
                Ok(b) => break b,
                Err(_) => tokio::time::sleep(Duration::from_millis(20)).await,
            }
        };
        let _ = a.set_nodelay(true);
        let _ = b.set_nodelay(true);
        let (ar, aw) = a.into_split();
        let (br, bw) = b.into_split();
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(hold)).await;
            pipe(ar, bw, seed, style).await
        });
        tokio::spawn(pipe(br, aw, seed + 1, style));
    }
}

/// Sets up a TCP network of n parties; each party is given its own address list. `style`: None for
/// direct connections, Some(s) for fragmenting proxies. `starts`: delay of each party in ms.
async fn tcp(n: usize, style: Option<u8>, starts: &[u64], holds: &[u64], seed: u64) -> Option<Vec<(Stats, Network)>> {
    let pairs = if style.is_some() { n * (n - 1) / 2 } else { 0 };
    let ports = free_ports(n + pairs);
    let real: Vec<u16> = ports[..n].to_vec();
    let mut k = n;
    let mut lists = Vec::new();
    for i in 0..n {
        let mut list: Vec<String> = real.iter().map(|p| format!("127.0.0.1:{}", p)).collect();
        if let Some(style) = style {
            for j in 0..i {
                tokio::spawn(proxy(ports[k], real[j], seed.wrapping_add(k as u64 * 17), style, holds[i % holds.len()]));
                list[j] = format!("127.0.0.1:{}", ports[k]);
                k += 1;
            }
        }
        lists.push(list);
    }
    let mut hs = Vec::new();
    for (i, list) in lists.into_iter().enumerate() {
        let d = starts[i % starts.len()];
        hs.push(tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(d)).await;
            network::setup_tcp_network(i as u16, &list).await
        }));
    }
    let mut res = Vec::new();
    let late = starts.iter().max().unwrap_or(&0) + holds.iter().max().unwrap_or(&0);
    for h in hs {
        match tokio::time::timeout(Duration::from_millis(30_000 + late), h).await {
            Ok(Ok(x)) => res.push(x),
            _ => return None,
        }
    }
    Some(res)
}

fn log_send(log: &Log, p: usize, to: Option<usize>, id: &[u8], data: &[u8]) {
    log.push(json!({"e":"send","p":p,"to":to.unwrap_or(65535),"id":hex(id),"dig":digest(data),
        "len":data.len(),"idlen":id.len()}));
}

/// Executes a program of calls on real networks and logs calls and results.
async fn exec(nets: Vec<(Stats, Network)>, ops: Vec<Op>, log: Log, single_thread: bool) {
    let n = nets.len();
    let mut nets: Vec<(Stats, Option<Network>)> = nets.into_iter().map(|(s, x)| (s, Some(x))).collect();
    let mut ex = Expect {
        sent: HashMap::new(),
        asked: HashMap::new(),
        bytes: vec![vec![(0, 0); n]; n],
    };
    let pending: Arc<Mutex<HashSet<(usize, Vec<u8>)>>> = Arc::new(Mutex::new(HashSet::new()));
    let returned = Arc::new(Mutex::new(0usize));
    let mut k = 0usize;
    let mut slow = false;
    let mut marks: HashMap<usize, scalable_mpc::Stats> = HashMap::new();
    let mut tasks = Vec::new();

    async fn wait_quiet(nets: &[(Stats, Option<Network>)], ex: &Expect, returned: &Arc<Mutex<usize>>, limit: Duration) -> bool {
        let n = nets.len();
        let want: usize = ex
            .asked
            .iter()
            .map(|(key, a)| std::cmp::min(*a, *ex.sent.get(key).unwrap_or(&0)))
            .sum();
        let start = Instant::now();
        loop {
            let mut ok = *returned.lock().unwrap() >= want;
            for q in 0..n {
                for p in 0..n {
                    if nets[q].0.party(p as u16).await != ex.bytes[p][q] {
                        ok = false;
                    }
                }
            }
            if ok {
                return true;
            }
            if start.elapsed() > limit {
                return false;
            }
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            tokio::time::sleep(Duration::from_micros(200)).await;
        }
    }

    for op in ops {
        match op {
            Op::Send { p, to, id, data } => {
                log_send(&log, p, to, &id, &data);
                let tos: Vec<usize> = match to {
                    Some(q) => vec![q],
                    None => (0..n).collect(),
                };
                for q in tos {
                    *ex.sent.entry((q, id.clone())).or_insert(0) += 1;
                    ex.bytes[p][q].0 += data.len() as u64;
                    ex.bytes[p][q].1 += (data.len() + id.len()) as u64;
                }
                let m = SendMessage {
                    proto_id: id,
                    to: match to {
                        Some(q) => Recipient::One(q as u16),
                        None => Recipient::All,
                    },
                    data,
                };
                let net = nets[p].1.clone().unwrap();
                if let Err(e) = guarded(move || net.send(m)) {
                    log.push(json!({"e":"panic","what":e}));
                }
            }
            Op::Recv { q, id } => {
                if !pending.lock().unwrap().insert((q, id.clone())) {
                    continue; // one pending receive per party and ID
                }
                k += 1;
                *ex.asked.entry((q, id.clone())).or_insert(0) += 1;
                log.push(json!({"e":"req","q":q,"id":hex(&id),"k":k}));
                let net = nets[q].1.clone().unwrap();
                let (log, pending, returned) = (log.clone(), pending.clone(), returned.clone());
                tasks.push(tokio::spawn(async move {
                    let m = net.recv(id.clone()).await;
                    log.push(json!({"e":"ret","q":q,"k":k,"p":m.from,"id":hex(&m.proto_id),
                        "dig":digest(&m.data),"len":m.data.len()}));
                    pending.lock().unwrap().remove(&(q, id));
                    *returned.lock().unwrap() += 1;
                }));
                if single_thread {
                    tokio::task::yield_now().await;
                }
            }
            Op::Stat { q, p } => {
                let (a, b) = nets[q].0.party(p as u16).await;
                log.push(json!({"e":"stat","q":q,"p":p,"data":a,"net":b}));
            }
            Op::Drop { p } => {
                // The party has nothing more to send or receive and lets go of its network.
                nets[p].1 = None;
            }
            Op::Mark { q } => {
                if !slow && wait_quiet(&nets, &ex, &returned, Duration::from_secs(10)).await {
                    if let Some(m) = marks.remove(&q) {
                        let (_, comm) = m.elapsed(&nets[q].0).await;
                        log.push(json!({"e":"elapsed","q":q,
                            "data":comm.iter().map(|c| c.0).collect::<Vec<_>>(),"net":comm.iter().map(|c| c.1).collect::<Vec<_>>()}));
                    }
                    let m = scalable_mpc::Stats::now(&nets[q].0, n as u32).await;
                    log.push(json!({"e":"mark","q":q}));
                    marks.insert(q, m);
                }
            }
            Op::Settle => {
                if !wait_quiet(&nets, &ex, &returned, Duration::from_millis(if slow { 30 } else { 8000 })).await {
                    slow = true;
                }
            }
            Op::Yield => tokio::task::yield_now().await,
        }
    }
    wait_quiet(&nets, &ex, &returned, Duration::from_secs(if slow { 4 } else { 20 })).await;
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(3)).await;
    for q in 0..n {
        for p in 0..n {
            let (a, b) = nets[q].0.party(p as u16).await;
            log.push(json!({"e":"stat","q":q,"p":p,"data":a,"net":b}));
        }
    }
    log.push(json!({"e":"quiet"}));
    for q in 0..n {
        let (a, b) = nets[q].0.total().await;
        log.push(json!({"e":"total","q":q,"data":a,"net":b}));
    }
    for t in &tasks {
        t.abort();
    }
}

fn id_pool() -> Vec<Vec<u8>> {
    vec![
        vec![],
        vec![0],
        vec![0, 0],
        vec![1],
        vec![0, 1],
        vec![255],
        b"id".to_vec(),
        (0..255u32).map(|i| i as u8).collect(),
        vec![0; 254],
        vec![0; 255],
        vec![7; 126],
        vec![7; 127],
    ]
}

/// Random program of calls. `sizes`: payload sizes to draw from.
fn program(r: &mut R, n: usize, len: usize, ids: &[Vec<u8>], sizes: &[usize], stats: bool) -> Vec<Op> {
    let mut ops = Vec::new();
    let mut due: Vec<(usize, Vec<u8>)> = Vec::new(); // deliveries not yet asked for
    let mut uid = 0u64;
    let burst = r.gen_range(1..6);
    while ops.len() < len {
        match r.gen_range(0..100) {
            0..=39 => {
                for _ in 0..r.gen_range(1..=burst) {
                    let p = r.gen_range(0..n);
                    let to = if r.gen_range(0..4) == 0 { None } else { Some(r.gen_range(0..n)) };
                    let id = choose(r, ids).clone();
                    uid += 1;
                    let size = *choose(r, sizes);
                    let mut data = vec![0u8; size];
                    for (i, b) in data.iter_mut().enumerate().take(4000) {
                        *b = (i as u64 * 31 + uid * 7) as u8;
                    }
                    for (i, b) in uid.to_le_bytes().iter().enumerate() {
                        if i < size {
                            data[i] = *b;
                        }
                    }
                    if size > 8 {
                        data[size - 1] = (uid % 251) as u8;
                    }
                    for q in 0..n {
                        if to.is_none() || to == Some(q) {
                            due.push((q, id.clone()));
                        }
                    }
                    ops.push(Op::Send { p, to, id, data });
                }
            }
            40..=64 => {
                if !due.is_empty() {
                    let i = r.gen_range(0..due.len());
                    let (q, id) = due.swap_remove(i);
                    ops.push(Op::Recv { q, id });
                }
            }
            65..=74 => ops.push(Op::Recv { q: r.gen_range(0..n), id: choose(r, ids).clone() }),
            75..=84 => {
                if stats {
                    ops.push(Op::Stat { q: r.gen_range(0..n), p: r.gen_range(0..n) })
                }
            }
            85..=87 => {
                if stats {
                    ops.push(Op::Mark { q: r.gen_range(0..n) })
                }
            }
            88..=91 => ops.push(Op::Settle),
            _ => ops.push(Op::Yield),
        }
    }
    // Ask for most of what is left.
    due.shuffle(r);
    for (q, id) in due {
        if r.gen_range(0..8) > 0 {
            ops.push(Op::Recv { q, id });
            ops.push(Op::Settle);
        }
    }
    ops
}

fn run_program(kind: &str, n: usize, ops: Vec<Op>, seed: u64, log: &Log) {
    log.push(json!({"e":"init","n":n,"kind":kind}));
    let single = kind != "local-mt" && kind != "tcp-mt";
    let rt = if single { runtime() } else { runtime_mt(4) };
    let l = log.clone();
    let kind = kind.to_string();
    let h = rt.spawn(async move {
        let nets = match kind.as_str() {
            "local" | "local-mt" => Some(network::setup_local_network(n as u16).await),
            "tcp" | "tcp-mt" => tcp(n, None, &[0], &[0], seed).await,
            "tcp-frag" => tcp(n, Some(0), &[0], &[0], seed).await,
            _ => tcp(n, Some(1), &[0], &[0], seed).await,
        };
        match nets {
            Some(nets) => exec(nets, ops, l, single).await,
            None => l.push(json!({"e":"stuck","what":"network set-up"})),
        }
    });
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(120), h).await });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => log.push(json!({"e":"panic","what":if e.is_panic() { panic_text(e.into_panic()) } else { "cancelled".into() }})),
        Err(_) => log.push(json!({"e":"stuck","what":"program"})),
    }
    rt.shutdown_timeout(Duration::from_millis(200));
}

/// Random programs on all kinds of networks.
pub fn traffic(mut a: Args) {
    let mut r = rng(a.seed, 1);
    let small = [0usize, 1, 2, 3, 5, 8];
    let edge = [0usize, 1, 9, 62, 63, 64, 125, 126, 127, 128, 129, 254, 255, 256, 8190, 8191, 8192, 8193, 16126, 16127, 16128, 16129, 16381, 16382, 16383, 16384, 16385, 65535, 65536, 70000];
    let big = [1usize, 16, 300, 2097149, 2097151, 2097152, 2500000];
    let ids = id_pool();
    let few: Vec<Vec<u8>> = ids[..4].to_vec();
    let reps = if a.thorough { 4 } else { 1 };
    for _ in 0..reps {
        for (kind, n, len, which) in [
            ("local", 1, 60, 0),
            ("local", 2, 120, 0),
            ("local", 3, 200, 0),
            ("local", 3, 200, 1),
            ("local-mt", 4, 300, 0),
            ("local", 7, 300, 1),
            ("local-mt", 16, 300, 0),
            ("tcp", 1, 40, 1),
            ("tcp", 2, 160, 1),
            ("tcp-mt", 3, 240, 1),
            ("tcp-frag", 3, 160, 0),
            ("tcp-chunk", 3, 240, 1),
            ("tcp-chunk", 2, 30, 2),
            ("tcp", 3, 40, 2),
            ("tcp-mt", 6, 300, 0),
        ] {
            let (idp, sizes): (&[Vec<u8>], &[usize]) = match which {
                0 => (&few, &small),
                1 => (&ids, &edge),
                _ => (&few, &big),
            };
            let ops = program(&mut r, n, len, idp, sizes, true);
            let log = Log::new();
            run_program(kind, n, ops, a.seed ^ r.gen::<u32>() as u64, &log);
            a.out.write(kind, &log);
        }
    }
    // Senders that finish early: what they sent is still received by the others.
    for kind in ["local", "tcp", "tcp-mt", "local-mt"] {
        let n = 3;
        let mut ops = Vec::new();
        let mut i = 0u64;
        for p in [2usize, 0] {
            for k in 0..40 {
                i += 1;
                ops.push(Op::Send { p, to: if k % 7 == 3 { None } else { Some(1) }, id: vec![(i % 2) as u8], data: i.to_le_bytes().to_vec() });
                if k % 9 == 0 {
                    ops.push(Op::Recv { q: 1, id: vec![0] });
                }
            }
            ops.push(Op::Drop { p });
        }
        ops.push(Op::Settle);
        for k in 0..70 {
            ops.push(Op::Recv { q: 1, id: vec![k % 2] });
            ops.push(Op::Settle);
        }
        let log = Log::new();
        run_program(kind, n, ops, a.seed, &log);
        a.out.write("leave", &log);
    }
    // A long one-way burst followed by receives in another order: nothing may be lost or reordered
    // when many messages are outstanding.
    for kind in ["local", "tcp", "local-mt"] {
        let n = 3;
        let mut ops = Vec::new();
        for i in 0..900u64 {
            ops.push(Op::Send { p: (i % 2) as usize, to: if i % 5 == 0 { None } else { Some(2) }, id: vec![(i % 3) as u8], data: i.to_le_bytes().to_vec() });
        }
        for i in 0..250u64 {
            ops.push(Op::Recv { q: 2, id: vec![2 - (i % 3) as u8] });
            ops.push(Op::Settle);
        }
        for _ in 0..50 {
            ops.push(Op::Recv { q: 0, id: vec![0] });
            ops.push(Op::Settle);
        }
        let log = Log::new();
        run_program(kind, n, ops, a.seed, &log);
        a.out.write("burst", &log);
    }
}

/// Behaviours generated by TLC from the specification, stepped through the real networks.
pub fn replay(mut a: Args) {
    let (local, tcp) = (Log::new(), Log::new());
    for (i, beh) in a.inputs().into_iter().enumerate() {
        let (kind, log) = if i % 12 == 11 { ("tcp", &tcp) } else { ("local", &local) };
        let n = beh["n"].as_u64().unwrap() as usize;
        let mut ops = Vec::new();
        let mut uid = 0u64;
        for s in beh["steps"].as_array().unwrap() {
            let id = vec![s["id"].as_u64().unwrap_or(0) as u8];
            match s["a"].as_str().unwrap() {
                "send" => {
                    uid += 1;
                    let to = s["to"].as_u64().unwrap() as usize;
                    ops.push(Op::Send {
                        p: s["p"].as_u64().unwrap() as usize,
                        to: if to == 65535 { None } else { Some(to) },
                        id,
                        data: uid.to_le_bytes()[..1 + (uid % 8) as usize].to_vec(),
                    });
                }
                "recv" => ops.push(Op::Recv { q: s["q"].as_u64().unwrap() as usize, id }),
                "arrive" => {
                    ops.push(Op::Settle);
                    ops.push(Op::Stat { q: s["q"].as_u64().unwrap() as usize, p: s["p"].as_u64().unwrap() as usize });
                }
                x => panic!("unknown step {}", x),
            }
        }
        run_program(kind, n, ops, a.seed, log);
    }
    a.out.write("local", &local);
    a.out.write("tcp", &tcp);
}

/// TCP set-up in different start orders with delays and fragmentation (N02). After set-up every
/// party sends to every party (itself included) and broadcasts.
pub fn mesh(mut a: Args) {
    let mut r = rng(a.seed, 2);
    let mut cases: Vec<(usize, Option<u8>, Vec<u64>, Vec<u64>)> = Vec::new();
    // All start orders of three parties; a late listener makes the connecting party retry.
    for perm in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        cases.push((3, None, perm.iter().map(|x| x * 250).collect(), vec![0]));
    }
    cases.push((3, Some(0), vec![0, 0, 0], vec![0, 300, 10]));
    cases.push((4, Some(0), vec![300, 0, 150, 0], vec![0, 0, 400, 0]));
    cases.push((5, Some(1), vec![0], vec![0, 200, 0, 100, 50]));
    cases.push((2, Some(0), vec![400, 0], vec![0]));
    cases.push((1, None, vec![0], vec![0]));
    // A party that is very late, and announcements that are.
    cases.push((3, None, vec![if a.thorough { 40_000 } else { 12_000 }, 0, 100], vec![0]));
    cases.push((3, Some(0), vec![0], vec![0, if a.thorough { 20_000 } else { 8_000 }, 100]));
    cases.push((8, None, (0..8).map(|_| r.gen_range(0..500)).collect(), vec![0]));
    cases.push((16, None, (0..16).map(|_| r.gen_range(0..300)).collect(), vec![0]));
    if a.thorough {
        cases.push((40, None, (0..40).map(|_| r.gen_range(0..1500)).collect(), vec![0]));
        for _ in 0..6 {
            let n = r.gen_range(2..7);
            cases.push((n, Some(r.gen_range(0..2)), (0..n).map(|_| r.gen_range(0..900)).collect(), (0..n).map(|_| r.gen_range(0..500)).collect()));
        }
    }
    let logs: Vec<Log> = cases.iter().map(|_| Log::new()).collect();
    let mut threads = Vec::new();
    for (i, (n, style, starts, holds)) in cases.into_iter().enumerate() {
        let log = logs[i].clone();
        let seed = a.seed.wrapping_add(i as u64 * 1000);
        threads.push(std::thread::spawn(move || {
            let rt = runtime_mt(2);
            log.push(json!({"e":"init","n":n,"kind":"tcp","starts":starts,"holds":holds}));
            let l = log.clone();
            let h = rt.spawn(async move {
                match tcp(n, style, &starts, &holds, seed).await {
                    None => l.push(json!({"e":"stuck","what":"network set-up"})),
                    Some(nets) => {
                        let mut ops = Vec::new();
                        for p in 0..n {
                            l.push(json!({"e":"up","p":p}));
                            for q in 0..n {
                                ops.push(Op::Send { p, to: Some(q), id: vec![p as u8, 1], data: format!("from {} to {}", p, q).into_bytes() });
                            }
                            ops.push(Op::Send { p, to: None, id: vec![2], data: format!("all {}", p).into_bytes() });
                        }
                        for q in 0..n {
                            for p in 0..n {
                                ops.push(Op::Recv { q, id: vec![p as u8, 1] });
                                ops.push(Op::Recv { q, id: vec![2] });
                                ops.push(Op::Settle);
                            }
                        }
                        exec(nets, ops, l, false).await;
                    }
                }
            });
            let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(90), h).await });
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => log.push(json!({"e":"panic","what":if e.is_panic() { panic_text(e.into_panic()) } else { "cancelled".into() }})),
                Err(_) => log.push(json!({"e":"stuck","what":"program"})),
            }
            rt.shutdown_timeout(Duration::from_millis(200));
        }));
    }
    for t in threads {
        t.join().unwrap();
    }
    for log in logs {
        a.out.write("mesh", &log);
    }
}

/// Collection from every party (N03): the controlled network delivers a given arrival sequence.
/// Input: behaviours {"n":..,"arr":[[from, id], ..]}.
pub fn collect(mut a: Args) {
    let log = Log::new();
    let mut cases: Vec<(usize, Vec<(usize, u8)>)> = Vec::new();
    for v in a.inputs() {
        let n = v["n"].as_u64().unwrap() as usize;
        let arr = v["arr"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as u8)).collect();
        cases.push((n, arr));
    }
    let mut r = rng(a.seed, 3);
    for _ in 0..(if a.thorough { 200 } else { 40 }) {
        let n = *choose(&mut r, &[1usize, 2, 4, 7, 16, 33]);
        let len = r.gen_range(n..3 * n + 3);
        let mut arr: Vec<(usize, u8)> = (0..len).map(|_| (r.gen_range(0..n), if r.gen_range(0..5) == 0 { 1 } else { 0 })).collect();
        if r.gen_bool(0.7) {
            let mut all: Vec<_> = (0..n).map(|p| (p, 0)).collect();
            all.shuffle(&mut r);
            arr.extend(all);
        }
        cases.push((n, arr));
    }
    let rt = runtime();
    for (ci, (n, arr)) in cases.into_iter().enumerate() {
        // The call is made before, in the middle of, or after the arrivals.
        let at = match ci % 3 {
            0 => 0,
            1 => arr.len() / 2,
            _ => arr.len(),
        };
        // In half of the cases one message, often an early one, has no content.
        let upto = r.gen_range(0..arr.len().max(1));
        let empty = if ci % 2 == 0 || arr.is_empty() { 0 } else { r.gen_range(0..=upto) + 1 };
        let pad = *choose(&mut r, &[0, 0, 1, 300]);
        let number = move |d: &Vec<u8>| -> i64 {
            match d.len() {
                0 => empty as i64,
                k if k == 8 + pad => u64::from_le_bytes(d[..8].try_into().unwrap()) as i64,
                _ => -1,
            }
        };
        log.push(json!({"e":"init","n":n}));
        let log = log.clone();
        rt.block_on(async {
            let (mut sim, nets) = Sim::new(n.max(1));
            let q = n - 1;
            let ret: Arc<Mutex<Option<Result<Vec<Vec<u8>>, String>>>> = Arc::new(Mutex::new(None));
            let mut reported = false;
            let mut h = None;
            for i in 0..=arr.len() {
                if i == at {
                    log.push(json!({"e":"call"}));
                    let net = nets[q].clone();
                    h = Some(tokio::spawn(async move { network::message_from_each_party(vec![0], &net, n).await }));
                    sim.settle(6).await;
                }
                if !reported {
                    if let Some(hh) = h.as_ref() {
                        if hh.is_finished() {
                            let res = h.take().unwrap().await;
                            *ret.lock().unwrap() = Some(res.map_err(|_| "panic".to_string()));
                            match ret.lock().unwrap().as_ref().unwrap() {
                                Ok(v) => log.push(json!({"e":"ret","out":v.iter().map(number).collect::<Vec<_>>()})),
                                Err(e) => log.push(json!({"e":"panic","what":e})),
                            }
                            reported = true;
                        }
                    }
                }
                if i < arr.len() {
                    let (p, id) = arr[i];
                    log.push(json!({"e":"arrive","p":p,"id":id,"m":i + 1}));
                    let mut data = (i as u64 + 1).to_le_bytes().to_vec();
                    data.resize(8 + pad, 0);
                    if i + 1 == empty {
                        data.clear();
                    }
                    nets[p].send(SendMessage { proto_id: vec![id], to: Recipient::One(q as u16), data });
                    sim.pump();
                    sim.deliver(p, q);
                    sim.settle(6).await;
                }
            }
            if !reported {
                log.push(json!({"e":"waiting"}));
            }
            // What is left for later receives, per ID.
            for id in [0u8, 1] {
                let mut left: Vec<i64> = Vec::new();
                if reported || id == 1 {
                    while sim.pool[q].get(&vec![id]).map(|v| !v.is_empty()).unwrap_or(false) {
                        let net = nets[q].clone();
                        let h = tokio::spawn(async move { net.recv(vec![id]).await });
                        sim.settle(6).await;
                        let d = h.await.unwrap().data;
                        left.push(number(&d));
                    }
                    log.push(json!({"e":"left","id":id,"m":left}));
                }
            }
            if let Some(h) = h {
                h.abort();
            }
        });
    }
    a.out.write("collect", &log);
}

/// Consecutive synchronizations with one ID (N04) on controlled and real networks.
pub fn barrier(mut a: Args) {
    let mut r = rng(a.seed, 4);
    let reps = if a.thorough { 60 } else { 12 };
    for rep in 0..reps {
        for pi in 0..6 {
            let n = *choose(&mut r, &[1usize, 2, 3, 3, 4, 5, 9]);
            let rounds = r.gen_range(2..5);
            let pol = match pi {
                0 => Policy::StarveTo(r.gen_range(0..n)),
                1 => Policy::Random,
                2 => Policy::Lifo,
                3 => Policy::StarveFrom(r.gen_range(0..n)),
                4 => Policy::Rush(r.gen_range(0..n)),
                _ => Policy::Fifo,
            };
            let log = Log::new();
            log.push(json!({"e":"init","n":n,"kind":"controlled"}));
            let chatter = rep % 2 == 0;
            let res = crate::sim::run(n, &pol, &mut r, false, |p, net| {
                let log = log.clone();
                async move {
                    for k in 0..rounds {
                        if chatter {
                            // Unrelated traffic between synchronizations.
                            net.send(SendMessage { proto_id: b"other".to_vec(), to: Recipient::One(((p + 1) % n) as u16), data: vec![k as u8] });
                        }
                        log.push(json!({"e":"enter","p":p,"k":k}));
                        network::sync(b"barrier".to_vec(), &net, n).await;
                        log.push(json!({"e":"leave","p":p,"k":k}));
                        if chatter {
                            let m = net.recv(b"other".to_vec()).await;
                            log.push(json!({"e":"other","p":p,"k":k,"ok":m.data == vec![k as u8] && m.from as usize == (p + n - 1) % n}));
                        }
                    }
                }
            });
            log.push(json!({"e":"end","status":res.status(),"rounds":rounds,"left":res.unclaimed}));
            a.out.write("barrier", &log);
        }
    }
    // Schedules of the specification: when a party enters, and which message is delivered next.
    let log = Log::new();
    for v in a.inputs() {
        let n = v["n"].as_u64().unwrap() as usize;
        let rounds = v["rounds"].as_u64().unwrap() as usize;
        log.push(json!({"e":"init","n":n,"kind":"script"}));
        let rt = runtime();
        let status = rt.block_on(async {
            let (mut sim, nets) = Sim::new(n);
            let gates: Vec<Arc<tokio::sync::Semaphore>> = (0..n).map(|_| Arc::new(tokio::sync::Semaphore::new(0))).collect();
            let mut hs = Vec::new();
            for (p, net) in nets.into_iter().enumerate() {
                let (log, gate) = (log.clone(), gates[p].clone());
                hs.push(tokio::spawn(async move {
                    for k in 0..rounds {
                        gate.acquire().await.unwrap().forget();
                        log.push(json!({"e":"enter","p":p,"k":k}));
                        network::sync(b"b".to_vec(), &net, n).await;
                        log.push(json!({"e":"leave","p":p,"k":k}));
                    }
                }));
            }
            for s in v["steps"].as_array().unwrap() {
                let (p, q) = (s[0].as_u64().unwrap() as usize, s[1].as_u64().unwrap() as usize);
                if q == 65535 {
                    gates[p].add_permits(1);
                } else {
                    sim.deliver(p, q);
                }
                sim.settle(4).await;
            }
            for g in &gates {
                g.add_permits(rounds);
            }
            let t = Instant::now();
            loop {
                sim.settle(4).await;
                if let Some((p, q)) = sim.pick(&Policy::Random, &mut r) {
                    sim.deliver(p, q);
                    continue;
                }
                if hs.iter().all(|h| h.is_finished()) {
                    break;
                }
                if t.elapsed() > Duration::from_secs(5) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            let mut status = "done".to_string();
            for (p, h) in hs.into_iter().enumerate() {
                if !h.is_finished() {
                    status = format!("stuck: party {} never leaves", p);
                } else if h.await.is_err() {
                    status = format!("panic at party {}", p);
                }
            }
            (status, sim.unclaimed())
        });
        let bad = status.0 != "done";
        log.push(json!({"e":"end","status":status.0,"rounds":rounds,"left":status.1}));
        rt.shutdown_timeout(Duration::from_millis(50));
        if bad {
            break;
        }
    }
    a.out.write("script", &log);
    for kind in ["local", "local-mt", "tcp", "tcp-chunk"] {
        let n = 4;
        let rounds = 20;
        let log = Log::new();
        log.push(json!({"e":"init","n":n,"kind":kind}));
        let rt = if kind == "local" { runtime() } else { runtime_mt(4) };
        let l = log.clone();
        let seed = a.seed;
        let h = rt.spawn(async move {
            let nets = match kind {
                "local" | "local-mt" => Some(network::setup_local_network(n as u16).await),
                "tcp" => tcp(n, None, &[0], &[0], seed).await,
                _ => tcp(n, Some(1), &[0], &[0], seed).await,
            };
            let nets = match nets {
                Some(x) => x,
                None => return false,
            };
            let mut hs = Vec::new();
            for (p, (_, net)) in nets.iter().enumerate() {
                let (net, log) = (net.clone(), l.clone());
                hs.push(tokio::spawn(async move {
                    for k in 0..rounds {
                        if (p + k) % 3 == 0 {
                            tokio::time::sleep(Duration::from_millis(1)).await;
                        }
                        log.push(json!({"e":"enter","p":p,"k":k}));
                        network::sync(b"".to_vec(), &net, n).await;
                        log.push(json!({"e":"leave","p":p,"k":k}));
                    }
                }));
            }
            for h in hs {
                if h.await.is_err() {
                    return false;
                }
            }
            true
        });
        let ok = rt.block_on(async { matches!(tokio::time::timeout(Duration::from_secs(20), h).await, Ok(Ok(true))) });
        log.push(json!({"e":"end","status":if ok { "done" } else { "stuck" },"rounds":rounds,"left":0}));
        a.out.write("barrier", &log);
        rt.shutdown_timeout(Duration::from_millis(200));
    }
}

fn id_json(id: &ProtocolID) -> Value {
    json!(hex(id))
}

/// Identifier trees (N06).
pub fn ids(mut a: Args) {
    let mut r = rng(a.seed, 5);
    let take = |parent: &ProtocolID, bound: u64, want: usize| -> Result<Vec<ProtocolID>, String> {
        guarded(|| ProtocolIDBuilder::new(parent, bound).take(want).collect())
    };
    let log = Log::new();
    let mut bounds: Vec<u64> = (0..20).collect();
    bounds.extend([126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1000]);
    for _ in 0..10 {
        bounds.push(r.gen_range(1..3000));
    }
    let parents: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255, 255], b"garble".to_vec(), (0..200).collect()];
    for (i, b) in bounds.iter().enumerate() {
        let parent = &parents[i % parents.len()];
        let x = take(parent, *b, *b as usize);
        let y = take(parent, *b, *b as usize);
        match (x, y) {
            (Ok(x), Ok(y)) => log.push(json!({"e":"family","parent":id_json(parent),"bound":b,
                "ids":x.iter().map(id_json).collect::<Vec<_>>(),"again":x == y})),
            (Err(e), _) | (_, Err(e)) => log.push(json!({"e":"panic","what":e})),
        }
    }
    // Large bounds: all identifiers are compared here, the specification sees the counts.
    for b in [65534u64, 65535, 65536, 65537, 70000, 1 << 20] {
        for parent in [vec![], vec![1, 2]] {
            match take(&parent, b, b as usize) {
                Ok(x) => {
                    let set: HashSet<&ProtocolID> = x.iter().collect();
                    let pre = x.iter().filter(|i| i.starts_with(&parent) && i.len() > parent.len()).count();
                    let lens: HashSet<usize> = x.iter().map(|i| i.len()).collect();
                    log.push(json!({"e":"large","bound":b,"got":x.len(),"distinct":set.len(),"prefixed":pre,"lengths":lens.len()}));
                }
                Err(e) => log.push(json!({"e":"panic","what":e})),
            }
        }
    }
    a.out.write("families", &log);
    // Trees with different bounds at every node: identifiers of all nodes are distinct.
    for t in 0..(if a.thorough { 12 } else { 4 }) {
        let log = Log::new();
        let mut nodes: Vec<(ProtocolID, i64, usize)> = vec![(if t % 2 == 0 { vec![] } else { b"root".to_vec() }, -1, 0)];
        let mut i = 0;
        let mut failed = None;
        while i < nodes.len() && nodes.len() < 900 {
            let (id, _, depth) = nodes[i].clone();
            if depth < 3 && (i == 0 || r.gen_range(0..4) == 0) {
                let bound = *choose(&mut r, &[1u64, 2, 3, 5, 16, 100, 255, 256, 257, 300]);
                let want = std::cmp::min(bound as usize, *choose(&mut r, &[1usize, 2, 5, 260]));
                match take(&id, bound, want) {
                    Ok(x) => {
                        if x.len() < want {
                            failed = Some(json!({"e":"panic","what":format!("only {} of {} identifiers", x.len(), bound)}));
                        }
                        for c in x {
                            nodes.push((c, i as i64, depth + 1));
                        }
                    }
                    Err(e) => failed = Some(json!({"e":"panic","what":e})),
                }
            }
            i += 1;
        }
        log.push(json!({"e":"tree","ids":nodes.iter().map(|x| id_json(&x.0)).collect::<Vec<_>>(),"par":nodes.iter().map(|x| x.1 + 1).collect::<Vec<_>>()}));
        if let Some(f) = failed {
            log.push(f);
        }
        a.out.write("tree", &log);
    }
}
