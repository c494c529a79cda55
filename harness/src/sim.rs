//! A network whose delivery schedule is controlled step by step. It follows the actions of
//! spec/Network.tla: a message travels through one FIFO link per ordered pair of parties, waits in
//! a pool per protocol ID at the receiver, and is handed to the pending receive with its ID.
use crate::util::*;
use rand::Rng;
use scalable_mpc::protocol::network::{Network, ReceivedMessage, Recipient, SendMessage};
use scalable_mpc::protocol::{ProtoHandle, ProtocolID};
use std::collections::{HashMap, VecDeque};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use tokio::sync::oneshot;

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    Fifo,             // oldest message first
    Lifo,             // link with the most recently sent message first
    Random,           // any link
    StarveFrom(usize), // messages of this party last
    StarveTo(usize),   // messages to this party last
    Rush(usize),      // messages of this party first
    Script(Vec<(usize, usize)>), // these links in this order, then oldest first
}

pub fn policies(n: usize, r: &mut R) -> Vec<Policy> {
    vec![
        Policy::Random,
        Policy::Lifo,
        Policy::StarveFrom(r.gen_range(0..n)),
        Policy::StarveTo(r.gen_range(0..n)),
        Policy::Rush(r.gen_range(0..n)),
        Policy::Fifo,
    ]
}

pub struct Sim {
    pub n: usize,
    send_rx: Vec<UnboundedReceiver<SendMessage>>,
    req_rx: Vec<UnboundedReceiver<(ProtocolID, oneshot::Sender<ReceivedMessage>)>>,
    pub links: Vec<Vec<VecDeque<(u64, ReceivedMessage)>>>, // [from][to]
    pub pool: Vec<HashMap<ProtocolID, VecDeque<ReceivedMessage>>>,
    pub waiting: Vec<HashMap<ProtocolID, VecDeque<oneshot::Sender<ReceivedMessage>>>>,
    clock: u64,
    pub delivered: usize,
    pub sent: usize,
    /// All messages in sending order: (from, to, id, data), kept only if asked for.
    pub record: Option<Vec<(usize, usize, ProtocolID, Vec<u8>)>>,
}

impl Sim {
    pub fn new(n: usize) -> (Self, Vec<Network>) {
        let mut nets = Vec::new();
        let mut send_rx = Vec::new();
        let mut req_rx = Vec::new();
        for _ in 0..n {
            let (s, r) = unbounded_channel();
            let (qs, qr) = unbounded_channel();
            nets.push(ProtoHandle::new(s, qs));
            send_rx.push(r);
            req_rx.push(qr);
        }
        let sim = Sim {
            n,
            send_rx,
            req_rx,
            links: (0..n).map(|_| (0..n).map(|_| VecDeque::new()).collect()).collect(),
            pool: (0..n).map(|_| HashMap::new()).collect(),
            waiting: (0..n).map(|_| HashMap::new()).collect(),
            clock: 0,
            delivered: 0,
            sent: 0,
            record: None,
        };
        (sim, nets)
    }

    /// Takes over new sends and receive requests. Returns whether there were any.
    pub fn pump(&mut self) -> bool {
        let mut any = false;
        for p in 0..self.n {
            while let Ok(m) = self.send_rx[p].try_recv() {
                any = true;
                let tos: Vec<usize> = match m.to {
                    Recipient::One(q) => vec![q as usize],
                    Recipient::All => (0..self.n).collect(),
                };
                for q in tos {
                    self.sent += 1;
                    self.clock += 1;
                    if let Some(rec) = self.record.as_mut() {
                        rec.push((p, q, m.proto_id.clone(), m.data.clone()));
                    }
                    let rm = ReceivedMessage {
                        proto_id: m.proto_id.clone(),
                        from: p as u16,
                        data: m.data.clone(),
                    };
                    self.links[p][q].push_back((self.clock, rm));
                }
            }
            while let Ok((id, tx)) = self.req_rx[p].try_recv() {
                any = true;
                let pooled = self.pool[p].get_mut(&id).and_then(|v| v.pop_front());
                match pooled {
                    Some(m) => {
                        if self.pool[p][&id].is_empty() {
                            self.pool[p].remove(&id);
                        }
                        let _ = tx.send(m);
                    }
                    None => self.waiting[p].entry(id).or_default().push_back(tx),
                }
            }
        }
        any
    }

    /// Delivers the head of the link from p to q.
    pub fn deliver(&mut self, p: usize, q: usize) -> bool {
        let m = match self.links[p][q].pop_front() {
            Some((_, m)) => m,
            None => return false,
        };
        self.delivered += 1;
        let id = m.proto_id.clone();
        if let Some(v) = self.waiting[q].get_mut(&id) {
            let tx = v.pop_front().unwrap();
            if v.is_empty() {
                self.waiting[q].remove(&id);
            }
            let _ = tx.send(m);
        } else {
            self.pool[q].entry(id).or_default().push_back(m);
        }
        true
    }

    pub fn in_flight(&self) -> usize {
        self.links.iter().flatten().map(|l| l.len()).sum()
    }
    pub fn unclaimed(&self) -> usize {
        self.pool.iter().map(|p| p.values().map(|v| v.len()).sum::<usize>()).sum()
    }

    /// Lets all tasks run until they wait for the network.
    pub async fn settle(&mut self, idle: usize) {
        let mut quiet = 0;
        while quiet < idle {
            tokio::task::yield_now().await;
            if self.pump() {
                quiet = 0;
            } else {
                quiet += 1;
            }
        }
    }

    pub fn pick(&self, policy: &Policy, r: &mut R) -> Option<(usize, usize)> {
        let mut cand: Vec<(u64, usize, usize)> = Vec::new();
        for p in 0..self.n {
            for q in 0..self.n {
                if let Some((c, _)) = self.links[p][q].front() {
                    cand.push((*c, p, q));
                }
            }
        }
        if cand.is_empty() {
            return None;
        }
        let any = |v: &[(u64, usize, usize)], r: &mut R| {
            let c = v[r.gen_range(0..v.len())];
            Some((c.1, c.2))
        };
        match policy {
            Policy::Script(s) => match s.get(self.delivered) {
                Some(&(p, q)) if !self.links[p][q].is_empty() => Some((p, q)),
                _ => cand.iter().min().map(|c| (c.1, c.2)),
            },
            Policy::Fifo => cand.iter().min().map(|c| (c.1, c.2)),
            Policy::Lifo => cand.iter().max().map(|c| (c.1, c.2)),
            Policy::Random => any(&cand, r),
            Policy::StarveFrom(s) => {
                let v: Vec<_> = cand.iter().filter(|c| c.1 != *s).cloned().collect();
                any(if v.is_empty() { &cand } else { &v }, r)
            }
            Policy::StarveTo(s) => {
                let v: Vec<_> = cand.iter().filter(|c| c.2 != *s).cloned().collect();
                any(if v.is_empty() { &cand } else { &v }, r)
            }
            Policy::Rush(s) => {
                let v: Vec<_> = cand.iter().filter(|c| c.1 == *s).cloned().collect();
                any(if v.is_empty() { &cand } else { &v }, r)
            }
        }
    }
}

/// Outcome of running one task per party to the end under a schedule.
pub struct Run<T> {
    pub out: Vec<Option<Result<T, String>>>, // None: never finished
    pub unclaimed: usize,
    pub in_flight: usize,
    pub sent: usize,
    pub record: Vec<(usize, usize, ProtocolID, Vec<u8>)>,
}

impl<T> Run<T> {
    pub fn status(&self) -> String {
        for (p, o) in self.out.iter().enumerate() {
            match o {
                None => return format!("stuck: party {} never finishes", p),
                Some(Err(e)) => return format!("panic at party {}: {}", p, e),
                _ => {}
            }
        }
        "done".into()
    }
    pub fn ok(&self) -> bool {
        self.status() == "done"
    }
    pub fn take(self) -> Vec<T> {
        self.out.into_iter().map(|o| o.unwrap().unwrap()).collect()
    }
}

/// Runs `party(p, net)` for every party on a controlled network with the given schedule.
pub fn run<T: Send + 'static, F, Fut>(n: usize, policy: &Policy, r: &mut R, record: bool, party: F) -> Run<T>
where
    F: Fn(usize, Network) -> Fut,
    Fut: std::future::Future<Output = T> + Send + 'static,
{
    let rt = runtime();
    let res = rt.block_on(async {
        let (mut sim, nets) = Sim::new(n);
        if record {
            sim.record = Some(Vec::new());
        }
        let mut handles: Vec<Option<tokio::task::JoinHandle<T>>> = Vec::new();
        for (p, net) in nets.into_iter().enumerate() {
            handles.push(Some(tokio::spawn(party(p, net))));
        }
        let mut out: Vec<Option<Result<T, String>>> = (0..n).map(|_| None).collect();
        let mut idle_since: Option<std::time::Instant> = None;
        loop {
            sim.settle(2).await;
            let mut progress = false;
            for p in 0..n {
                if handles[p].as_ref().map(|h| h.is_finished()).unwrap_or(false) {
                    let h = handles[p].take().unwrap();
                    out[p] = Some(h.await.map_err(|e| {
                        if e.is_panic() {
                            panic_text(e.into_panic())
                        } else {
                            "cancelled".into()
                        }
                    }));
                    progress = true;
                }
            }
            if let Some((p, q)) = sim.pick(policy, r) {
                sim.deliver(p, q);
                progress = true;
            }
            if progress {
                idle_since = None;
                continue;
            }
            if handles.iter().all(|h| h.is_none()) {
                sim.settle(10).await;
                if sim.in_flight() == 0 {
                    break;
                }
                continue;
            }
            // Nothing to deliver and somebody is not done: give up after a generous while,
            // sooner if a party has already failed.
            let failed = out.iter().any(|o| matches!(o, Some(Err(_))));
            let since = *idle_since.get_or_insert_with(std::time::Instant::now);
            if since.elapsed().as_secs_f64() > if failed { 0.3 } else { 6.0 } {
                break;
            }
            tokio::time::sleep(std::time::Duration::from_millis(2)).await;
        }
        Run {
            out,
            unclaimed: sim.unclaimed(),
            in_flight: sim.in_flight(),
            sent: sim.sent,
            record: sim.record.take().unwrap_or_default(),
        }
    });
    rt.shutdown_timeout(std::time::Duration::from_millis(100));
    res
}
