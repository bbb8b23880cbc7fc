//! Nodes under test, recording subscribers and a fault-injecting network between nodes.
#![allow(dead_code)]

use std::borrow::Cow;
use std::collections::HashMap;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

use anyhow::Result;
use everscale_network::adnl::{self, NodeIdFull, NodeIdShort};
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
#[cfg(not(evmon_net))]
use tokio::net::UdpSocket;

use crate::rt::*;
use crate::wire::*;

/// Nodes live in their own runtime so that a stuck node cannot stop the harness.
pub fn node_rt() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(if cfg!(miri) { 2 } else { 6 })
            .enable_all()
            .thread_name("node")
            .build()
            .unwrap()
    })
}
pub fn on_node<T>(f: impl FnOnce() -> T) -> T {
    let _g = node_rt().enter();
    f()
}
/// Runs a future in the node runtime and waits for it (None: it panicked).
pub async fn run_node<T: Send + 'static>(f: impl std::future::Future<Output = T> + Send + 'static) -> Option<T> {
    node_rt().spawn(f).await.ok()
}

#[derive(Debug, Clone)]
pub struct Ev {
    pub query: bool,
    pub local: [u8; 32],
    pub peer: [u8; 32],
    pub data: Vec<u8>,
    pub at: Instant,
}

#[derive(Clone)]
pub enum Act {
    Answer(Option<Vec<u8>>),
    Reject,
    Fail,
    /// Answer after a pause
    After(Duration, Option<Vec<u8>>),
}

type Handler = dyn Fn(&Ev) -> Act + Send + Sync;

/// Records everything it is offered; queries are answered by `handler`, custom messages taken
/// iff `take_custom` says so.
pub struct Rec {
    pub events: Mutex<Vec<Ev>>,
    pub notify: tokio::sync::Notify,
    pub handler: Box<Handler>,
    pub take_custom: AtomicBool,
}

impl Rec {
    pub fn new(handler: impl Fn(&Ev) -> Act + Send + Sync + 'static) -> Arc<Self> {
        Arc::new(Self {
            events: Default::default(),
            notify: Default::default(),
            handler: Box::new(handler),
            take_custom: AtomicBool::new(true),
        })
    }
    /// Answers every query with `sha256(peer ++ query) ++ query`.
    pub fn echo() -> Arc<Self> {
        Self::new(|e| Act::Answer(Some(echo_answer(&e.data))))
    }
    pub fn len(&self) -> usize {
        self.events.lock().unwrap().len()
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.events.lock().unwrap())
    }
    pub fn count(&self, f: impl Fn(&Ev) -> bool) -> usize {
        self.events.lock().unwrap().iter().filter(|e| f(e)).count()
    }
    pub fn find(&self, f: impl Fn(&Ev) -> bool) -> Option<Ev> {
        self.events.lock().unwrap().iter().find(|e| f(e)).cloned()
    }
    /// Waits until `f` matches at least `n` events.
    pub async fn wait(&self, n: usize, dur: Duration, f: impl Fn(&Ev) -> bool) -> bool {
        let end = Instant::now() + dur;
        loop {
            let w = self.notify.notified();
            if self.count(&f) >= n {
                return true;
            }
            let Some(left) = end.checked_duration_since(Instant::now()) else {
                return false;
            };
            tokio::time::timeout(left.min(Duration::from_millis(100)), w).await.ok();
        }
    }
    fn push(&self, e: Ev) {
        self.events.lock().unwrap().push(e);
        self.notify.notify_waiters();
    }
}

pub fn echo_answer(q: &[u8]) -> Vec<u8> {
    let mut v = sha256(q).to_vec();
    v.extend_from_slice(q);
    v
}

#[async_trait::async_trait]
impl MessageSubscriber for Rec {
    async fn try_consume_custom<'a>(&self, ctx: SubscriberContext<'a>, _c: u32, data: &'a [u8]) -> Result<bool> {
        self.push(Ev {
            query: false,
            local: *ctx.local_id.as_slice(),
            peer: *ctx.peer_id.as_slice(),
            data: data.to_vec(),
            at: Instant::now(),
        });
        Ok(self.take_custom.load(Ordering::Relaxed))
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Rec {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> Result<QueryConsumingResult<'a>> {
        // Leave pings to the built-in subscriber
        if constructor == crate::tl::id::PING {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        let ev = Ev {
            query: true,
            local: *ctx.local_id.as_slice(),
            peer: *ctx.peer_id.as_slice(),
            data: query.to_vec(),
            at: Instant::now(),
        };
        let act = (self.handler)(&ev);
        self.push(ev);
        match act {
            Act::Answer(a) => Ok(QueryConsumingResult::Consumed(a)),
            Act::Reject => Ok(QueryConsumingResult::Rejected(query)),
            Act::Fail => anyhow::bail!("handler failure"),
            Act::After(d, a) => {
                tokio::time::sleep(d).await;
                Ok(QueryConsumingResult::Consumed(a))
            }
        }
    }
}

pub fn default_opts() -> adnl::NodeOptions {
    adnl::NodeOptions {
        use_loopback_for_neighbours: false,
        ..Default::default()
    }
}

static NEXT_IP: AtomicU16 = AtomicU16::new(1);
/// A fresh loopback address for each node, so no two tests share one.
pub fn next_ip() -> Ipv4Addr {
    let n = NEXT_IP.fetch_add(1, Ordering::Relaxed);
    Ipv4Addr::new(127, 1 + (n >> 14) as u8, ((n >> 7) & 127) as u8, 1 + (n & 127) as u8)
}

pub struct TestNode {
    pub adnl: Arc<adnl::Node>,
    pub idents: Vec<Ident>,
    pub rec: Arc<Rec>,
}

impl Drop for TestNode {
    fn drop(&mut self) {
        self.adnl.shutdown();
    }
}

pub fn sid(b: &[u8; 32]) -> NodeIdShort {
    NodeIdShort::new(*b)
}
pub fn fid(b: &[u8; 32]) -> NodeIdFull {
    NodeIdFull::new(everscale_crypto::ed25519::PublicKey::from_bytes(*b).unwrap())
}

pub fn keystore(idents: &[Ident]) -> adnl::Keystore {
    let mut b = adnl::Keystore::builder();
    for (i, id) in idents.iter().enumerate() {
        b = b.with_tagged_key(id.secret, i).expect("key");
    }
    b.build()
}

impl TestNode {
    /// Node reachable directly on loopback (127.0.0.1:port).
    pub fn start(rng: &mut impl Rng, keys: usize, opts: adnl::NodeOptions, rec: Arc<Rec>) -> Self {
        Self::start_ext(Ipv4Addr::LOCALHOST, 0, (0..keys).map(|_| Ident::gen(rng)).collect(), opts, rec, None)
    }
    pub fn start_ext(
        ip: Ipv4Addr,
        port: u16,
        idents: Vec<Ident>,
        opts: adnl::NodeOptions,
        rec: Arc<Rec>,
        filter: Option<Arc<dyn adnl::PeerFilter>>,
    ) -> Self {
        let n = Self::build_ext(ip, port, idents, opts, rec, filter);
        on_node(|| n.adnl.start()).expect("start");
        n
    }
    pub fn build_ext(
        ip: Ipv4Addr,
        port: u16,
        idents: Vec<Ident>,
        opts: adnl::NodeOptions,
        rec: Arc<Rec>,
        filter: Option<Arc<dyn adnl::PeerFilter>>,
    ) -> Self {
        let node = on_node(|| {
            let node = adnl::Node::new(SocketAddrV4::new(ip, port), keystore(&idents), opts, filter).expect("node");
            node.add_message_subscriber(rec.clone()).expect("sub");
            node.add_query_subscriber(rec.clone()).expect("sub");
            node
        });
        Self { adnl: node, idents, rec }
    }
    pub fn port(&self) -> u16 {
        self.adnl.socket_addr().port()
    }
    pub fn addr(&self) -> SocketAddrV4 {
        self.adnl.socket_addr()
    }
    pub fn id(&self, i: usize) -> NodeIdShort {
        sid(&self.idents[i].short)
    }
    pub fn pk(&self, i: usize) -> [u8; 32] {
        self.idents[i].public
    }
    /// Adds `other`'s identity `oi` as a peer of my identity `li`.
    pub fn know(&self, li: usize, other: &TestNode, oi: usize) -> bool {
        self.adnl
            .add_peer(
                adnl::NewPeerContext::Dht,
                &self.id(li),
                &other.id(oi),
                other.addr(),
                fid(&other.pk(oi)),
            )
            .unwrap_or(false)
    }
    pub fn know_wire(&self, li: usize, w: &WirePeer) -> bool {
        self.adnl
            .add_peer(adnl::NewPeerContext::Dht, &self.id(li), &sid(&w.me.short), w.addr, fid(&w.me.public))
            .unwrap_or(false)
    }
}

/// Bytes waiting in UDP sockets bound to `port`.
pub fn rx_queue(port: u16) -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/net/udp") else {
        return 0;
    };
    s.lines()
        .skip(1)
        .filter_map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            let p = u16::from_str_radix(f.get(1)?.split(':').nth(1)?, 16).ok()?;
            if p == port {
                u64::from_str_radix(f.get(4)?.split(':').nth(1)?, 16).ok()
            } else {
                None
            }
        })
        .sum()
}

/// Datagrams the kernel dropped on UDP sockets bound to `port`.
pub fn udp_drops(port: u16) -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/net/udp") else {
        return 0;
    };
    s.lines()
        .skip(1)
        .filter_map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            let p = u16::from_str_radix(f.get(1)?.split(':').nth(1)?, 16).ok()?;
            if p == port {
                f.last()?.parse::<u64>().ok()
            } else {
                None
            }
        })
        .sum()
}

// ---------------------------------------------------------------- faulty network

/// What happens to one datagram: any number of (delay, bytes) deliveries.
pub type Fate = Vec<(Duration, Vec<u8>)>;
pub type Policy = dyn Fn(&mut SmallRng, u16, u16, Vec<u8>) -> Fate + Send + Sync;

/// Intercepts all traffic towards nodes whose declared address is not 127.0.0.1: binds the
/// declared address on the same port and forwards to 127.0.0.1.
pub struct Net {
    pub policy: Mutex<Arc<Policy>>,
    pub seen: AtomicU64,
    pub delivered: AtomicU64,
    /// datagrams per (source port, destination port)
    pub flows: Mutex<HashMap<(u16, u16), u64>>,
    pub bytes: AtomicU64,
    rng: Mutex<SmallRng>,
    socks: Mutex<Vec<tokio::task::JoinHandle<()>>>,
}

impl Net {
    pub fn new(seed: u64) -> Arc<Self> {
        Arc::new(Self {
            policy: Mutex::new(Arc::new(|_, _, _, p| vec![(Duration::ZERO, p)])),
            seen: Default::default(),
            delivered: Default::default(),
            flows: Default::default(),
            bytes: Default::default(),
            rng: Mutex::new(SmallRng::seed_from_u64(seed)),
            socks: Default::default(),
        })
    }
    pub fn set(&self, p: impl Fn(&mut SmallRng, u16, u16, Vec<u8>) -> Fate + Send + Sync + 'static) {
        *self.policy.lock().unwrap() = Arc::new(p);
    }
    pub fn perfect(&self) {
        self.set(|_, _, _, p| vec![(Duration::ZERO, p)]);
    }
    #[cfg(evmon_net)]
    pub fn attach(self: &Arc<Self>, _: SocketAddrV4) {
        panic!("there are no sockets to be put between");
    }
    /// Must be called after the node was created (it sets SO_REUSEPORT on its socket).
    #[cfg(not(evmon_net))]
    pub fn attach(self: &Arc<Self>, addr: SocketAddrV4) {
        assert!(*addr.ip() != Ipv4Addr::LOCALHOST);
        let sock = bind_reuse(addr);
        let net = self.clone();
        let dst = SocketAddrV4::new(Ipv4Addr::LOCALHOST, addr.port());
        let h = tokio::spawn(async move {
            let sock = Arc::new(UdpSocket::from_std(sock).unwrap());
            let mut buf = vec![0u8; 4096];
            loop {
                let Ok((n, src)) = sock.recv_from(&mut buf).await else { continue };
                net.seen.fetch_add(1, Ordering::Relaxed);
                net.bytes.fetch_add(n as u64, Ordering::Relaxed);
                *net.flows.lock().unwrap().entry((src.port(), dst.port())).or_default() += 1;
                let p = net.policy.lock().unwrap().clone();
                let fate = {
                    let mut r = net.rng.lock().unwrap();
                    p(&mut r, src.port(), dst.port(), buf[..n].to_vec())
                };
                for (d, data) in fate {
                    net.delivered.fetch_add(1, Ordering::Relaxed);
                    if d.is_zero() {
                        sock.send_to(&data, dst).await.ok();
                    } else {
                        let sock = sock.clone();
                        tokio::spawn(async move {
                            tokio::time::sleep(d).await;
                            sock.send_to(&data, dst).await.ok();
                        });
                    }
                }
            }
        });
        self.socks.lock().unwrap().push(h);
    }
    pub fn flow(&self, from: u16, to: u16) -> u64 {
        self.flows.lock().unwrap().get(&(from, to)).copied().unwrap_or(0)
    }
    pub fn close(&self) {
        for h in self.socks.lock().unwrap().drain(..) {
            h.abort();
        }
    }
}

impl Drop for Net {
    fn drop(&mut self) {
        self.close();
    }
}

pub fn bind_reuse(addr: SocketAddrV4) -> std::net::UdpSocket {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_DGRAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        assert!(fd >= 0);
        let one: libc::c_int = 1;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEPORT, &one as *const _ as *const _, 4);
        let big: libc::c_int = 4 << 20;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, &big as *const _ as *const _, 4);
        let sa = libc::sockaddr_in {
            sin_family: libc::AF_INET as _,
            sin_port: addr.port().to_be(),
            sin_addr: libc::in_addr {
                s_addr: u32::from(*addr.ip()).to_be(),
            },
            sin_zero: [0; 8],
        };
        let r = libc::bind(fd, &sa as *const _ as *const _, std::mem::size_of_val(&sa) as _);
        assert!(r == 0, "bind {addr}: {}", std::io::Error::last_os_error());
        std::net::UdpSocket::from_raw_fd(fd)
    }
}

/// Polls `f` until it holds or time runs out.
pub async fn eventually(dur: Duration, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + dur;
    loop {
        if f() {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
}
pub async fn sleep_ms(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

/// A node with a DHT layer under key tag 0.
pub struct DhtNode {
    pub n: TestNode,
    pub dht: Arc<everscale_network::dht::Node>,
    pub born: std::time::Instant,
}
impl DhtNode {
    pub fn start(rng: &mut impl Rng, aopts: adnl::NodeOptions, dopts: everscale_network::dht::NodeOptions) -> Self {
        Self::start_ext(Ident::gen(rng), Ipv4Addr::LOCALHOST, aopts, dopts)
    }
    pub fn start_ext(me: Ident, ip: Ipv4Addr, aopts: adnl::NodeOptions, dopts: everscale_network::dht::NodeOptions) -> Self {
        let born = std::time::Instant::now();
        let n = TestNode::build_ext(ip, 0, vec![me], aopts, Rec::new(|_| Act::Reject), None);
        let dht = on_node(|| everscale_network::dht::Node::new(n.adnl.clone(), 0, dopts)).expect("dht");
        on_node(|| n.adnl.start()).expect("start");
        Self { n, dht, born }
    }
    pub fn short(&self) -> [u8; 32] {
        self.n.idents[0].short
    }
    /// Its own signed description.
    pub fn desc(&self) -> crate::dhtw::DNode {
        crate::dhtw::DNode::new(&self.n.idents[0], self.n.addr(), unix_now())
    }
}
