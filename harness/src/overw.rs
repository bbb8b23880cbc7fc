//! Independent overlay broadcasts and a node with an overlay layer.
#![allow(dead_code)]
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use everscale_network::overlay;
use everscale_network::proto;
use rand::Rng;

use crate::dhtw::*;
use crate::nodes::*;
use crate::rldpw::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub const ANY: u32 = 1;

fn cert_write(w: W, cert: &Option<Vec<u8>>) -> W {
    match cert {
        None => w.u32(id::OV_EMPTY_CERT),
        Some(sig) => w.u32(id::OV_CERT).pubkey(&[9; 32]).u32(5).u32(6).bytes(sig),
    }
}
fn cert_read(r: &mut Rd) -> R<Option<Vec<u8>>> {
    Ok(match r.u32()? {
        id::OV_EMPTY_CERT => None,
        id::OV_CERT => {
            Pk::read(r)?;
            r.u32()?;
            r.u32()?;
            Some(r.bytes()?.to_vec())
        }
        _ => return Err(TlErr),
    })
}
fn to_sign(hash: &[u8; 32], date: u32) -> Vec<u8> {
    W::new().u32(id::OV_BCAST_TO_SIGN).raw(hash).u32(date).done()
}
fn src_of(public: &[u8; 32], flags: u32) -> [u8; 32] {
    if flags & ANY != 0 {
        [0; 32]
    } else {
        short_id(public)
    }
}

/// What `compression` of the nodes produces.
pub fn compress(data: &[u8]) -> Vec<u8> {
    let mut z = zstd::encode_all(data, 9).unwrap();
    z.extend(zstd::encode_all(&(data.len() as u32).to_be_bytes()[..], 9).unwrap());
    z.push(0x80);
    z
}

/// `overlay.broadcast`
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Bcast {
    pub src: [u8; 32],
    pub cert: Option<Vec<u8>>,
    pub flags: u32,
    pub data: Vec<u8>,
    pub date: u32,
    pub sig: Vec<u8>,
}
impl Bcast {
    pub fn to_sign(&self, plain: &[u8]) -> Vec<u8> {
        let h = sha256(&W::new().u32(id::OV_BCAST_ID).raw(&src_of(&self.src, self.flags)).raw(&sha256(plain)).u32(ANY).done());
        to_sign(&h, self.date)
    }
    pub fn new(who: &Ident, flags: u32, data: &[u8], date: u32) -> Self {
        let mut b = Self { src: who.public, cert: None, flags, data: data.to_vec(), date, sig: vec![] };
        b.sig = who.sign(&b.to_sign(data)).to_vec();
        b
    }
    pub fn packed(mut self) -> Self {
        self.data = compress(&self.data);
        self
    }
    pub fn valid(&self) -> bool {
        verify(&self.src, &self.to_sign(&self.data), &self.sig)
    }
    pub fn ser(&self, overlay: &[u8; 32]) -> Vec<u8> {
        let w = W::new().u32(id::OV_MESSAGE).raw(overlay).u32(id::OV_BCAST).pubkey(&self.src);
        cert_write(w, &self.cert).u32(self.flags).bytes(&self.data).u32(self.date).bytes(&self.sig).done()
    }
}

/// `overlay.broadcastFec`
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Part {
    pub src: [u8; 32],
    pub cert: Option<Vec<u8>>,
    pub hash: [u8; 32],
    pub size: u32,
    pub flags: u32,
    pub data: Vec<u8>,
    pub seqno: u32,
    pub fec: (u32, u32, u32),
    pub date: u32,
    pub sig: Vec<u8>,
}
impl Part {
    fn fecs(&self) -> Fec {
        Fec { total: self.fec.0, size: self.fec.1, count: self.fec.2 }
    }
    pub fn to_sign(&self) -> Vec<u8> {
        let b = sha256(
            &W::new()
                .u32(id::OV_FEC_ID)
                .raw(&src_of(&self.src, self.flags))
                .raw(&sha256(&self.fecs().write(W::new()).done()))
                .raw(&self.hash)
                .u32(self.size)
                .u32(self.flags)
                .done(),
        );
        to_sign(&sha256(&W::new().u32(id::OV_FEC_PART_ID).raw(&b).raw(&sha256(&self.data)).u32(self.seqno).done()), self.date)
    }
    pub fn sign(&mut self, who: &Ident) {
        self.src = who.public;
        self.sig = who.sign(&self.to_sign()).to_vec();
    }
    pub fn valid(&self) -> bool {
        verify(&self.src, &self.to_sign(), &self.sig)
    }
    pub fn ser(&self, overlay: &[u8; 32]) -> Vec<u8> {
        let w = W::new().u32(id::OV_MESSAGE).raw(overlay).u32(id::OV_BCAST_FEC).pubkey(&self.src);
        let w = cert_write(w, &self.cert).raw(&self.hash).u32(self.size).u32(self.flags).bytes(&self.data).u32(self.seqno);
        self.fecs().write(w).u32(self.date).bytes(&self.sig).done()
    }
}

/// The parts of a broadcast: all source symbols and `repair` more. `wire` is what is cut (maybe compressed), `plain` what is hashed.
pub fn parts_of(who: &Ident, plain: &[u8], wire: &[u8], flags: u32, date: u32, repair: u32) -> Vec<Part> {
    let hash = sha256(plain);
    let f = Fec::of(wire.len());
    symbols(wire, 768, repair)
        .into_iter()
        .map(|(seqno, data)| {
            let mut p = Part {
                src: who.public,
                cert: None,
                hash,
                size: wire.len() as u32,
                flags,
                data,
                seqno,
                fec: (f.total, f.size, f.count),
                date,
                sig: vec![],
            };
            p.sign(who);
            p
        })
        .collect()
}
pub fn parts(who: &Ident, data: &[u8], repair: u32) -> Vec<Part> {
    parts_of(who, data, data, ANY, unix_now(), repair)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Om {
    B(Bcast),
    F(Part),
    Other(u32),
}
/// A message of an overlay.
pub fn read_om(d: &[u8]) -> R<([u8; 32], Om)> {
    let mut r = Rd::new(d);
    r.expect(id::OV_MESSAGE)?;
    let o = r.h256()?;
    let pk = |r: &mut Rd| -> R<[u8; 32]> {
        r.expect(id::PUB_ED25519)?;
        r.h256()
    };
    let m = match r.u32()? {
        id::OV_BCAST => {
            let src = pk(&mut r)?;
            Om::B(Bcast { src, cert: cert_read(&mut r)?, flags: r.u32()?, data: r.bytes()?.to_vec(), date: r.u32()?, sig: r.bytes()?.to_vec() })
        }
        id::OV_BCAST_FEC => {
            let src = pk(&mut r)?;
            let cert = cert_read(&mut r)?;
            let (hash, size, flags) = (r.h256()?, r.u32()?, r.u32()?);
            let (data, seqno) = (r.bytes()?.to_vec(), r.u32()?);
            let f = Fec::read(&mut r)?;
            Om::F(Part { src, cert, hash, size, flags, data, seqno, fec: (f.total, f.size, f.count), date: r.u32()?, sig: r.bytes()?.to_vec() })
        }
        x => Om::Other(x),
    };
    Ok((o, m))
}

/// A delivered broadcast.
#[derive(Debug, Clone)]
pub struct Dlv {
    pub data: Vec<u8>,
    pub from: [u8; 32],
    pub packets: u32,
    pub at: Instant,
}

/// A node with an overlay layer under key tag 0.
pub struct OvNode {
    pub n: TestNode,
    pub ov: Arc<overlay::Node>,
}
impl OvNode {
    pub fn start(rng: &mut impl Rng) -> Self {
        Self::start_ext(Ident::gen(rng), Ipv4Addr::LOCALHOST)
    }
    pub fn start_ext(me: Ident, ip: Ipv4Addr) -> Self {
        let plain = Rec::new(|_| Act::Reject);
        plain.take_custom.store(false, std::sync::atomic::Ordering::SeqCst);
        let n = TestNode::build_ext(ip, 0, vec![me], default_opts(), plain, None);
        let ov = on_node(|| overlay::Node::new(n.adnl.clone(), 0)).expect("overlay");
        on_node(|| n.adnl.start()).expect("start");
        Self { n, ov }
    }
    pub fn me(&self) -> &Ident {
        &self.n.idents[0]
    }
    pub fn public(&self, id: &[u8; 32], opts: overlay::OverlayOptions) -> Ov {
        let (o, _) = on_node(|| self.ov.add_public_overlay(&oid(id), opts));
        Ov::new(o, self.n.adnl.clone())
    }
    /// Without a task that waits for broadcasts.
    pub fn quiet(&self, id: &[u8; 32], opts: overlay::OverlayOptions) -> Ov {
        let (o, _) = on_node(|| self.ov.add_public_overlay(&oid(id), opts));
        Ov { id: *id, o, adnl: self.n.adnl.clone(), got: Default::default(), task: node_rt().spawn(async {}) }
    }
    pub fn private(&self, id: &[u8; 32], peers: &[[u8; 32]], opts: overlay::OverlayOptions) -> Ov {
        let key = self.n.adnl.key_by_tag(0).unwrap().clone();
        let peers: Vec<_> = peers.iter().map(sid).collect();
        let (o, _) = on_node(|| self.ov.add_private_overlay(&oid(id), key, &peers, opts));
        Ov::new(o, self.n.adnl.clone())
    }
}
pub fn oid(id: &[u8; 32]) -> overlay::IdShort {
    overlay::IdShort::new(*id)
}

/// An overlay whose broadcasts are collected.
pub struct Ov {
    pub id: [u8; 32],
    pub o: Arc<overlay::Overlay>,
    pub adnl: Arc<everscale_network::adnl::Node>,
    pub got: Arc<Mutex<Vec<Dlv>>>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Ov {
    fn drop(&mut self) {
        self.task.abort();
    }
}
impl Ov {
    fn new(o: Arc<overlay::Overlay>, adnl: Arc<everscale_network::adnl::Node>) -> Self {
        let got: Arc<Mutex<Vec<Dlv>>> = Default::default();
        let (g, w) = (got.clone(), o.clone());
        let task = node_rt().spawn(async move {
            loop {
                let b = w.wait_for_broadcast().await;
                g.lock().unwrap().push(Dlv { data: b.data, from: *b.from.as_slice(), packets: b.packets, at: Instant::now() });
            }
        });
        Self { id: *o.id().as_slice(), o, adnl, got, task }
    }
    pub fn add(&self, who: &Ident, addr: SocketAddrV4) -> bool {
        let rec = ONode::new(who, self.id, unix_now());
        matches!(self.add_rec(&rec, addr), Ok(Some(_)))
    }
    pub fn add_rec(&self, n: &ONode, addr: SocketAddrV4) -> anyhow::Result<Option<everscale_network::adnl::NodeIdShort>> {
        on_node(|| {
            self.o.add_public_peer(
                &self.adnl,
                addr,
                proto::overlay::Node {
                    id: everscale_crypto::tl::PublicKey::Ed25519 { key: &n.public },
                    overlay: &n.overlay,
                    version: n.version,
                    signature: &n.sig,
                },
            )
        })
    }
    pub fn send(&self, data: Vec<u8>) -> overlay::OutgoingBroadcastInfo {
        self.send_to(data, overlay::BroadcastTarget::RandomNeighbours)
    }
    pub fn send_to(&self, data: Vec<u8>, target: overlay::BroadcastTarget) -> overlay::OutgoingBroadcastInfo {
        on_node(|| self.o.broadcast(&self.adnl, data, None, target))
    }
    pub fn count(&self, data: &[u8]) -> usize {
        self.got.lock().unwrap().iter().filter(|d| d.data == data).count()
    }
    pub fn len(&self) -> usize {
        self.got.lock().unwrap().len()
    }
    pub async fn wait(&self, data: &[u8], dur: Duration) -> bool {
        eventually(dur, || self.count(data) > 0).await
    }
}

/// A scripted member: a peer with an established channel, known to the node.
pub async fn member(rng: &mut impl Rng, n: &OvNode, ov: &Ov) -> Serve {
    let s = stranger(rng, n).await;
    ov.add(&s.me, s.addr);
    s
}
/// The same, but not in the overlay.
pub async fn stranger(rng: &mut impl Rng, n: &OvNode) -> Serve {
    let me = Ident::gen(rng);
    let mut w = WirePeer::with_ident(me, rng, n.n.addr(), n.n.pk(0), Ipv4Addr::LOCALHOST).await;
    let chan = w.establish_channel(rng).await;
    Serve::over(rng, w, chan)
}
/// Overlay messages a peer received.
pub fn heard(s: &Serve) -> Vec<([u8; 32], Om)> {
    s.customs().iter().filter_map(|d| read_om(d).ok()).collect()
}
