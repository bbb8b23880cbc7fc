//! Independent RLDP messages and a scripted RLDP peer.
#![allow(dead_code)]
use std::collections::HashMap;
use std::net::Ipv4Addr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use everscale_network::adnl;
use everscale_network::rldp;
use everscale_raptorq::{Decoder, Encoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
use rand::Rng;

use crate::nodes::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fec {
    pub total: u32,
    pub size: u32,
    pub count: u32,
}
impl Fec {
    pub fn of(len: usize) -> Self {
        Self { total: len as u32, size: 768, count: (len as u32).div_ceil(768) }
    }
    pub fn write(&self, w: W) -> W {
        w.u32(id::FEC_RAPTORQ).u32(self.total).u32(self.size).u32(self.count)
    }
    pub fn read(r: &mut Rd) -> R<Self> {
        r.expect(id::FEC_RAPTORQ)?;
        Ok(Self { total: r.u32()?, size: r.u32()?, count: r.u32()? })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RM {
    Part { tid: [u8; 32], fec: Fec, part: u32, total: u64, seqno: u32, data: Vec<u8> },
    Confirm { tid: [u8; 32], part: u32, seqno: u32 },
    Complete { tid: [u8; 32], part: u32 },
}
impl RM {
    pub fn ser(&self) -> Vec<u8> {
        match self {
            RM::Part { tid, fec, part, total, seqno, data } => fec.write(W::new().u32(id::RLDP_PART).raw(tid)).u32(*part).u64(*total).u32(*seqno).bytes(data).done(),
            RM::Confirm { tid, part, seqno } => W::new().u32(id::RLDP_CONFIRM).raw(tid).u32(*part).u32(*seqno).done(),
            RM::Complete { tid, part } => W::new().u32(id::RLDP_COMPLETE).raw(tid).u32(*part).done(),
        }
    }
    pub fn read(d: &[u8]) -> R<Self> {
        let mut r = Rd::new(d);
        let m = match r.u32()? {
            id::RLDP_PART => RM::Part { tid: r.h256()?, fec: Fec::read(&mut r)?, part: r.u32()?, total: r.u64()?, seqno: r.u32()?, data: r.bytes()?.to_vec() },
            id::RLDP_CONFIRM => RM::Confirm { tid: r.h256()?, part: r.u32()?, seqno: r.u32()? },
            id::RLDP_COMPLETE => RM::Complete { tid: r.h256()?, part: r.u32()? },
            _ => return Err(TlErr),
        };
        if r.left() > 0 {
            return Err(TlErr);
        }
        Ok(m)
    }
    pub fn msg(&self) -> Msg {
        Msg::Custom(self.ser())
    }
}

/// rldp.query
pub fn rquery(qid: &[u8; 32], max: u64, data: &[u8]) -> Vec<u8> {
    W::new().u32(id::RLDP_QUERY).raw(qid).u64(max).u32(unix_now() + 10).bytes(data).done()
}
pub fn ranswer(qid: &[u8; 32], data: &[u8]) -> Vec<u8> {
    W::new().u32(id::RLDP_ANSWER).raw(qid).bytes(data).done()
}
#[derive(Debug, Clone)]
pub struct RQuery {
    pub id: [u8; 32],
    pub max: u64,
    pub timeout: u32,
    pub data: Vec<u8>,
}
pub fn read_rquery(d: &[u8]) -> R<RQuery> {
    let mut r = Rd::new(d);
    r.expect(id::RLDP_QUERY)?;
    let q = RQuery { id: r.h256()?, max: r.u64()?, timeout: r.u32()?, data: r.bytes()?.to_vec() };
    if r.left() > 0 {
        return Err(TlErr);
    }
    Ok(q)
}
pub fn read_ranswer(d: &[u8]) -> R<([u8; 32], Vec<u8>)> {
    let mut r = Rd::new(d);
    r.expect(id::RLDP_ANSWER)?;
    let a = (r.h256()?, r.bytes()?.to_vec());
    if r.left() > 0 {
        return Err(TlErr);
    }
    Ok(a)
}

pub fn negate(id: &[u8; 32]) -> [u8; 32] {
    id.map(|b| !b)
}

/// Symbols 0..n of `data` with `repair` repair symbols behind.
pub fn symbols(data: &[u8], size: u16, repair: u32) -> Vec<(u32, Vec<u8>)> {
    let e = Encoder::with_defaults(data, size);
    let b = &e.get_block_encoders()[0];
    let mut v: Vec<EncodingPacket> = b.source_packets();
    if repair > 0 {
        v.extend(b.repair_packets(v.len() as u32, repair));
    }
    v.into_iter()
        .map(|p| {
            let (id, d) = p.split();
            (id.encoding_symbol_id(), d)
        })
        .collect()
}

pub const SLICE: usize = 2_000_000;

/// All parts of a transfer, with `repair` extra symbols for each.
pub fn transfer(tid: &[u8; 32], data: &[u8], repair: u32) -> Vec<RM> {
    let mut out = Vec::new();
    for (i, c) in data.chunks(SLICE).enumerate() {
        for (seqno, d) in symbols(c, 768, repair) {
            out.push(RM::Part { tid: *tid, fec: Fec::of(c.len()), part: i as u32, total: data.len() as u64, seqno, data: d });
        }
    }
    out
}

/// Collects a transfer, as a well-behaved receiver would.
pub struct Collect {
    pub data: Vec<u8>,
    pub part: u32,
    pub total: u64,
    dec: Option<Decoder>,
    pub done: bool,
    pub got: u32,
    last: u32,
}
impl Collect {
    pub fn new() -> Self {
        Self { data: vec![], part: 0, total: 0, dec: None, done: false, got: 0, last: 0 }
    }
    /// What to reply.
    pub fn add(&mut self, m: &RM) -> Option<RM> {
        let RM::Part { tid, fec, part, total, seqno, data } = m else { return None };
        if self.done || *part < self.part {
            return Some(RM::Complete { tid: *tid, part: *part });
        }
        if *part > self.part {
            return None;
        }
        self.total = *total;
        let d = self.dec.get_or_insert_with(|| Decoder::new(ObjectTransmissionInformation::with_defaults(fec.total as u64, fec.size as u16)));
        self.got += 1;
        self.last = self.last.max(*seqno);
        if let Some(x) = d.decode(EncodingPacket::new(PayloadId::new(0, *seqno), data.clone())) {
            self.data.extend_from_slice(&x);
            self.dec = None;
            self.part += 1;
            self.done = self.data.len() as u64 >= self.total;
            self.last = 0;
            return Some(RM::Complete { tid: *tid, part: *part });
        }
        (self.got % 10 == 0).then(|| RM::Confirm { tid: *tid, part: *part, seqno: self.last })
    }
}

/// A node with an RLDP layer whose queries are answered by `rec`.
pub struct RNode {
    pub n: TestNode,
    pub rldp: Arc<rldp::Node>,
    pub rec: Arc<Rec>,
}
impl RNode {
    pub fn start(rng: &mut impl Rng, opts: rldp::NodeOptions, rec: Arc<Rec>) -> Self {
        Self::start_ext(rng, Ipv4Addr::LOCALHOST, opts, rec)
    }
    pub fn start_ext(rng: &mut impl Rng, ip: Ipv4Addr, opts: rldp::NodeOptions, rec: Arc<Rec>) -> Self {
        let plain = Rec::new(|_| Act::Reject);
        plain.take_custom.store(false, std::sync::atomic::Ordering::SeqCst);
        let n = TestNode::build_ext(ip, 0, vec![Ident::gen(rng)], default_opts(), plain, None);
        let rldp = on_node(|| rldp::Node::new(n.adnl.clone(), vec![rec.clone()], opts)).expect("rldp");
        on_node(|| n.adnl.start()).expect("start");
        Self { n, rldp, rec }
    }
    pub fn know(&self, other: &RNode) {
        self.n.know(0, &other.n, 0);
    }
    pub fn knows(&self, s: &Serve) {
        self.n
            .adnl
            .add_peer(adnl::NewPeerContext::Dht, &self.n.id(0), &sid(&s.me.short), s.addr, fid(&s.me.public))
            .expect("peer");
    }
    /// (answer, roundtrip); Err: the call failed; None: panicked
    pub async fn query(&self, peer: [u8; 32], data: Vec<u8>) -> Option<anyhow::Result<Option<Vec<u8>>>> {
        let (r, local) = (self.rldp.clone(), self.n.id(0));
        run_node(async move { r.query(&local, &sid(&peer), data, None).await.map(|x| x.0) }).await
    }
}

/// With an established channel packets are much cheaper than handshakes.
pub async fn serve_over_channel(me: Ident, rng: &mut impl Rng, n: &RNode) -> Serve {
    let mut w = WirePeer::with_ident(me, rng, n.n.addr(), n.n.pk(0), Ipv4Addr::LOCALHOST).await;
    let chan = w.establish_channel(rng).await;
    Serve::over(rng, w, chan)
}

/// Scripted RLDP peer. `f` gets every complete query and says what to send back, each after a pause.
pub struct RPeer {
    pub s: Serve,
    /// queries of the other side, in the order of completion
    pub queries: Arc<Mutex<Vec<([u8; 32], RQuery)>>>,
    /// answers collected for own queries, by transfer id
    pub answers: Arc<Mutex<HashMap<[u8; 32], Vec<u8>>>>,
    /// everything received
    pub log: Arc<Mutex<Vec<RM>>>,
}
impl RPeer {
    pub async fn new(rng: &mut impl Rng, n: &RNode, f: impl Fn(&[u8; 32], &RQuery) -> Vec<(Duration, RM)> + Send + Sync + 'static) -> Self {
        let me = Ident::gen(rng);
        Self::with_ident(rng, me, n, f).await
    }
    pub async fn with_ident(rng: &mut impl Rng, me: Ident, n: &RNode, f: impl Fn(&[u8; 32], &RQuery) -> Vec<(Duration, RM)> + Send + Sync + 'static) -> Self {
        let s = serve_over_channel(me, rng, n).await;
        n.knows(&s);
        let queries: Arc<Mutex<Vec<([u8; 32], RQuery)>>> = Default::default();
        let answers: Arc<Mutex<HashMap<[u8; 32], Vec<u8>>>> = Default::default();
        let log: Arc<Mutex<Vec<RM>>> = Default::default();
        let inc: Mutex<HashMap<[u8; 32], Collect>> = Default::default();
        let (q, a, l) = (queries.clone(), answers.clone(), log.clone());
        s.set(move |m| {
            let Msg::Custom(d) = m else { return vec![] };
            let Ok(m) = RM::read(d) else { return vec![] };
            l.lock().unwrap().push(m.clone());
            let RM::Part { tid, .. } = &m else { return vec![] };
            let mut inc = inc.lock().unwrap();
            let c = inc.entry(*tid).or_insert_with(Collect::new);
            let was = c.done;
            let mut out: Vec<(Duration, Msg)> = c.add(&m).into_iter().map(|m| (Duration::ZERO, m.msg())).collect();
            if c.done && !was {
                if let Ok(x) = read_rquery(&c.data) {
                    q.lock().unwrap().push((*tid, x.clone()));
                    out.extend(f(tid, &x).into_iter().map(|(d, m)| (d, m.msg())));
                } else {
                    a.lock().unwrap().insert(*tid, c.data.clone());
                }
                c.data = vec![];
            }
            out
        });
        Self { s, queries, answers, log }
    }
    pub fn send(&self, m: &RM) {
        self.s.send(m.msg());
    }
    /// Sends a whole query as transfer `tid` (again every 200 ms until answered or time runs out).
    pub async fn ask(&self, tid: &[u8; 32], query: &[u8], wait: Duration) -> Option<Vec<u8>> {
        let end = std::time::Instant::now() + wait;
        let parts = transfer(tid, query, 1);
        loop {
            for (i, p) in parts.iter().enumerate() {
                self.send(p);
                if i % 20 == 19 {
                    sleep_ms(2).await;
                }
            }
            let t = std::time::Instant::now() + Duration::from_millis(300);
            while std::time::Instant::now() < t {
                if let Some(a) = self.answers.lock().unwrap().get(&negate(tid)) {
                    return Some(a.clone());
                }
                sleep_ms(5).await;
            }
            if std::time::Instant::now() > end {
                return None;
            }
        }
    }
}
