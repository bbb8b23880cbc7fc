//! A protocol peer that runs in the background: answers by a script, asks queries, keeps a log.
#![allow(dead_code)]
use std::collections::HashMap;
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use tokio::sync::{mpsc, oneshot};

use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

/// What the peer does about a message: messages to send back, each after a pause.
pub type Script = dyn Fn(&Msg) -> Vec<(Duration, Msg)> + Send + Sync;

enum Cmd {
    Send(Vec<Msg>),
    Query(Vec<u8>, oneshot::Sender<Vec<u8>>),
}

pub struct Serve {
    pub me: Ident,
    pub addr: SocketAddrV4,
    /// every complete message received
    pub log: Arc<Mutex<Vec<(Instant, Msg)>>>,
    script: Arc<Mutex<Arc<Script>>>,
    tx: mpsc::UnboundedSender<Cmd>,
    task: tokio::task::JoinHandle<()>,
}

impl Drop for Serve {
    fn drop(&mut self) {
        self.task.abort();
    }
}

/// Answers queries by `f`, ignores everything else.
pub fn answering(f: impl Fn(&[u8]) -> Option<Vec<u8>> + Send + Sync + 'static) -> impl Fn(&Msg) -> Vec<(Duration, Msg)> + Send + Sync + 'static {
    move |m| match m {
        Msg::Query { id, data } => match f(data) {
            Some(a) => vec![(Duration::ZERO, Msg::Answer { id: *id, data: a })],
            None => vec![],
        },
        _ => vec![],
    }
}

pub fn split(m: Msg) -> Vec<Msg> {
    let raw = m.ser();
    if raw.len() <= 1000 {
        return vec![m];
    }
    let hash = sha256(&raw);
    raw.chunks(900)
        .enumerate()
        .map(|(i, c)| Msg::Part { hash, total: raw.len() as u32, offset: (i * 900) as u32, data: c.to_vec() })
        .collect()
}

impl Serve {
    pub async fn new(rng: &mut impl Rng, to: SocketAddrV4, to_pub: [u8; 32]) -> Self {
        let w = WirePeer::new(rng, to, to_pub).await;
        Self::over(rng, w, false)
    }
    pub async fn with_ident(me: Ident, rng: &mut impl Rng, to: SocketAddrV4, to_pub: [u8; 32]) -> Self {
        let w = WirePeer::with_ident(me, rng, to, to_pub, std::net::Ipv4Addr::LOCALHOST).await;
        Self::over(rng, w, false)
    }
    /// With `chan` the (already established) channel is used for sending.
    pub fn over(rng: &mut impl Rng, mut w: WirePeer, chan: bool) -> Self {
        let (tx, mut rx) = mpsc::unbounded_channel();
        let log: Arc<Mutex<Vec<(Instant, Msg)>>> = Default::default();
        let script: Arc<Mutex<Arc<Script>>> = Arc::new(Mutex::new(Arc::new(|_: &Msg| vec![])));
        let (me, addr) = (w.me.clone(), w.addr);
        let seed: u64 = rng.gen();
        let (l, s) = (log.clone(), script.clone());
        let task = tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut pending: HashMap<[u8; 32], oneshot::Sender<Vec<u8>>> = HashMap::new();
            let mut later: Vec<(Instant, Msg)> = Vec::new();
            loop {
                let now = Instant::now();
                let mut out: Vec<Msg> = Vec::new();
                let mut i = 0;
                while i < later.len() {
                    if later[i].0 <= now {
                        out.push(later.remove(i).1);
                    } else {
                        i += 1;
                    }
                }
                while let Ok(c) = rx.try_recv() {
                    match c {
                        Cmd::Send(m) => out.extend(m),
                        Cmd::Query(data, done) => {
                            let id: [u8; 32] = rng.gen();
                            pending.insert(id, done);
                            out.push(Msg::Query { id, data });
                        }
                    }
                }
                for m in out {
                    for m in split(m) {
                        if chan {
                            w.send_ch(&mut rng, vec![m], false).await;
                        } else {
                            w.send(&mut rng, vec![m]).await;
                        }
                    }
                }
                let wait = Duration::from_millis(20).min(later.iter().map(|x| x.0.saturating_duration_since(now)).min().unwrap_or(Duration::from_secs(1)));
                let got = tokio::select! {
                    g = w.recv(wait) => g,
                    c = rx.recv() => {
                        match c {
                            None => return,
                            Some(Cmd::Send(m)) => later.extend(m.into_iter().map(|m| (now, m))),
                            Some(Cmd::Query(data, done)) => {
                                let id: [u8; 32] = rng.gen();
                                pending.insert(id, done);
                                later.push((now, Msg::Query { id, data }));
                            }
                        }
                        None
                    }
                };
                let Some(g) = got else { continue };
                for m in w.assemble(&g) {
                    l.lock().unwrap().push((Instant::now(), m.clone()));
                    if let Msg::Answer { id, data } = &m {
                        if let Some(d) = pending.remove(id) {
                            d.send(data.clone()).ok();
                            continue;
                        }
                    }
                    let f = s.lock().unwrap().clone();
                    for (d, m) in f(&m) {
                        later.push((Instant::now() + d, m));
                    }
                }
            }
        });
        Self { me, addr, log, script, tx, task }
    }
    pub fn set(&self, f: impl Fn(&Msg) -> Vec<(Duration, Msg)> + Send + Sync + 'static) {
        *self.script.lock().unwrap() = Arc::new(f);
    }
    pub fn send(&self, m: Msg) {
        self.tx.send(Cmd::Send(vec![m])).ok();
    }
    pub async fn query(&self, data: Vec<u8>, wait: Duration) -> Option<Vec<u8>> {
        let (tx, rx) = oneshot::channel();
        self.tx.send(Cmd::Query(data, tx)).ok();
        tokio::time::timeout(wait, rx).await.ok()?.ok()
    }
    /// Asks again until an answer comes.
    pub async fn ask(&self, data: Vec<u8>) -> Option<Vec<u8>> {
        for _ in 0..8 {
            if let Some(a) = self.query(data.clone(), Duration::from_millis(700)).await {
                return Some(a);
            }
        }
        None
    }
    /// Adnl-level barrier: everything sent before has been received by the node.
    pub async fn barrier(&self) -> bool {
        self.ask(W::new().u32(id::PING).u64(7).done()).await.is_some()
    }
    pub fn queries(&self, f: impl Fn(&[u8]) -> bool) -> usize {
        self.log.lock().unwrap().iter().filter(|(_, m)| matches!(m, Msg::Query { data, .. } if f(data))).count()
    }
    pub fn customs(&self) -> Vec<Vec<u8>> {
        self.log
            .lock()
            .unwrap()
            .iter()
            .filter_map(|(_, m)| match m {
                Msg::Custom(d) => Some(d.clone()),
                _ => None,
            })
            .collect()
    }
}
