//! Independent DHT structures and a scripted DHT peer.
#![allow(dead_code)]
use std::net::SocketAddrV4;

use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Pk {
    Ed([u8; 32]),
    Aes([u8; 32]),
    Overlay(Vec<u8>),
    Unenc(Vec<u8>),
}
impl Pk {
    pub fn write(&self, w: W) -> W {
        match self {
            Pk::Ed(k) => w.pubkey(k),
            Pk::Aes(k) => w.u32(id::PUB_AES).raw(k),
            Pk::Overlay(n) => w.u32(id::PUB_OVERLAY).bytes(n),
            Pk::Unenc(n) => w.u32(id::PUB_UNENC).bytes(n),
        }
    }
    pub fn read(r: &mut Rd) -> R<Self> {
        Ok(match r.u32()? {
            id::PUB_ED25519 => Pk::Ed(r.h256()?),
            id::PUB_AES => Pk::Aes(r.h256()?),
            id::PUB_OVERLAY => Pk::Overlay(r.bytes()?.to_vec()),
            id::PUB_UNENC => Pk::Unenc(r.bytes()?.to_vec()),
            _ => return Err(TlErr),
        })
    }
    pub fn short(&self) -> [u8; 32] {
        sha256(&self.write(W::new()).done())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct DKey {
    pub id: [u8; 32],
    pub name: Vec<u8>,
    pub idx: u32,
}
impl DKey {
    pub fn new(id: [u8; 32], name: &str, idx: u32) -> Self {
        Self { id, name: name.as_bytes().to_vec(), idx }
    }
    pub fn write(&self, w: W) -> W {
        w.raw(&self.id).bytes(&self.name).u32(self.idx)
    }
    pub fn hash(&self) -> [u8; 32] {
        sha256(&self.write(W::new().u32(id::DHT_KEY)).done())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DValue {
    pub key: DKey,
    pub pk: Pk,
    pub rule: u32,
    pub key_sig: Vec<u8>,
    pub value: Vec<u8>,
    pub ttl: u32,
    pub sig: Vec<u8>,
}
impl DValue {
    pub fn desc(&self, w: W, sig: bool) -> W {
        let w = self.key.write(w);
        self.pk.write(w).u32(self.rule).bytes(if sig { &self.key_sig } else { &[] })
    }
    /// bare
    pub fn write(&self, w: W, sig: bool) -> W {
        self.desc(w, true).bytes(&self.value).u32(self.ttl).bytes(if sig { &self.sig } else { &[] })
    }
    pub fn ser(&self) -> Vec<u8> {
        self.write(W::new(), true).done()
    }
    pub fn read(r: &mut Rd) -> R<Self> {
        Ok(Self {
            key: DKey { id: r.h256()?, name: r.bytes()?.to_vec(), idx: r.u32()? },
            pk: Pk::read(r)?,
            rule: r.u32()?,
            key_sig: r.bytes()?.to_vec(),
            value: r.bytes()?.to_vec(),
            ttl: r.u32()?,
            sig: r.bytes()?.to_vec(),
        })
    }
    pub fn sign_key(&mut self, who: &Ident) {
        self.key_sig = who.sign(&self.desc(W::new().u32(id::DHT_KEY_DESC), false).done()).to_vec();
    }
    pub fn sign_value(&mut self, who: &Ident) {
        self.sig = who.sign(&self.write(W::new().u32(id::DHT_VALUE), false).done()).to_vec();
    }
    /// An honest signed value.
    pub fn signed(who: &Ident, name: &str, idx: u32, value: Vec<u8>, ttl: u32) -> Self {
        let mut v = Self {
            key: DKey::new(who.short, name, idx),
            pk: Pk::Ed(who.public),
            rule: id::DHT_RULE_SIGNATURE,
            key_sig: vec![],
            value,
            ttl,
            sig: vec![],
        };
        v.resign(who);
        v
    }
    pub fn resign(&mut self, who: &Ident) {
        self.sign_key(who);
        self.sign_value(who);
    }
    /// An honest overlay value.
    pub fn overlay(name: &[u8; 32], nodes: &[ONode], ttl: u32) -> Self {
        let pk = Pk::Overlay(name.to_vec());
        Self {
            key: DKey::new(pk.short(), "nodes", 0),
            pk,
            rule: id::DHT_RULE_OVERLAY,
            key_sig: vec![],
            value: onodes(nodes),
            ttl,
            sig: vec![],
        }
    }
    pub fn store(&self) -> Vec<u8> {
        self.write(W::new().u32(id::DHT_STORE), true).done()
    }
    pub fn found(&self) -> Vec<u8> {
        self.write(W::new().u32(id::DHT_FOUND).u32(id::DHT_VALUE), true).done()
    }
}

/// `overlay.node`
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ONode {
    pub public: [u8; 32],
    pub overlay: [u8; 32],
    pub version: u32,
    pub sig: Vec<u8>,
}
impl ONode {
    pub fn to_sign(&self) -> Vec<u8> {
        W::new().u32(id::OV_TO_SIGN).raw(&short_id(&self.public)).raw(&self.overlay).u32(self.version).done()
    }
    pub fn new(who: &Ident, overlay: [u8; 32], version: u32) -> Self {
        let mut n = Self { public: who.public, overlay, version, sig: vec![] };
        n.sig = who.sign(&n.to_sign()).to_vec();
        n
    }
    pub fn valid(&self) -> bool {
        verify(&self.public, &self.to_sign(), &self.sig)
    }
    pub fn write(&self, w: W) -> W {
        w.pubkey(&self.public).raw(&self.overlay).u32(self.version).bytes(&self.sig)
    }
    pub fn read(r: &mut Rd) -> R<Self> {
        r.expect(id::PUB_ED25519)?;
        Ok(Self { public: r.h256()?, overlay: r.h256()?, version: r.u32()?, sig: r.bytes()?.to_vec() })
    }
}
/// boxed `overlay.nodes`
pub fn onodes(nodes: &[ONode]) -> Vec<u8> {
    onodes_bare(W::new().u32(id::OV_NODES), nodes).done()
}
pub fn onodes_bare(w: W, nodes: &[ONode]) -> W {
    nodes.iter().fold(w.u32(nodes.len() as u32), |w, n| n.write(w))
}
pub fn read_onodes(d: &[u8]) -> R<Vec<ONode>> {
    let mut r = Rd::new(d);
    r.expect(id::OV_NODES)?;
    let n = r.u32()?;
    let v = (0..n).map(|_| ONode::read(&mut r)).collect::<R<Vec<_>>>()?;
    if r.left() > 0 {
        return Err(TlErr);
    }
    Ok(v)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DNode {
    pub public: [u8; 32],
    pub addr: AddrList,
    pub version: u32,
    pub sig: Vec<u8>,
}
impl DNode {
    pub fn new(who: &Ident, addr: SocketAddrV4, version: u32) -> Self {
        let mut n = Self { public: who.public, addr: AddrList::one(addr, version), version, sig: vec![] };
        n.resign(who);
        n
    }
    pub fn resign(&mut self, who: &Ident) {
        self.sig = who.sign(&self.write(W::new().u32(id::DHT_NODE), false).done()).to_vec();
    }
    pub fn valid(&self) -> bool {
        verify(&self.public, &self.write(W::new().u32(id::DHT_NODE), false).done(), &self.sig)
    }
    pub fn write(&self, w: W, sig: bool) -> W {
        self.addr.write(w.pubkey(&self.public)).u32(self.version).bytes(if sig { &self.sig } else { &[] })
    }
    pub fn read(r: &mut Rd) -> R<Self> {
        r.expect(id::PUB_ED25519)?;
        Ok(Self { public: r.h256()?, addr: AddrList::read(r)?, version: r.u32()?, sig: r.bytes()?.to_vec() })
    }
    pub fn short(&self) -> [u8; 32] {
        short_id(&self.public)
    }
    /// the same as a value of the code under test
    pub fn tl(&self) -> everscale_network::proto::dht::NodeOwned {
        tl_proto::deserialize_as_boxed(&self.write(W::new().u32(id::DHT_NODE), true).done()).expect("dht node")
    }
    /// `dht.query` prefix
    pub fn prefix(&self) -> Vec<u8> {
        self.write(W::new().u32(id::DHT_QUERY), true).done()
    }
}
pub fn nodes_bare(w: W, nodes: &[DNode]) -> W {
    nodes.iter().fold(w.u32(nodes.len() as u32), |w, n| n.write(w, true))
}
pub fn nodes(nodes: &[DNode]) -> Vec<u8> {
    nodes_bare(W::new().u32(id::DHT_NODES), nodes).done()
}
pub fn not_found(nodes: &[DNode]) -> Vec<u8> {
    nodes_bare(W::new().u32(id::DHT_NOT_FOUND), nodes).done()
}
pub fn stored() -> Vec<u8> {
    W::new().u32(id::DHT_STORED).done()
}
fn read_nodes_bare(r: &mut Rd) -> R<Vec<DNode>> {
    let n = r.u32()?;
    if n > 10_000 {
        return Err(TlErr);
    }
    (0..n).map(|_| DNode::read(r)).collect()
}
pub fn read_nodes(d: &[u8]) -> R<Vec<DNode>> {
    let mut r = Rd::new(d);
    r.expect(id::DHT_NODES)?;
    let v = read_nodes_bare(&mut r)?;
    if r.left() > 0 {
        return Err(TlErr);
    }
    Ok(v)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Find {
    Value(DValue),
    Nodes(Vec<DNode>),
}
pub fn read_find(d: &[u8]) -> R<Find> {
    let mut r = Rd::new(d);
    let f = match r.u32()? {
        id::DHT_FOUND => {
            r.expect(id::DHT_VALUE)?;
            Find::Value(DValue::read(&mut r)?)
        }
        id::DHT_NOT_FOUND => Find::Nodes(read_nodes_bare(&mut r)?),
        _ => return Err(TlErr),
    };
    if r.left() > 0 {
        return Err(TlErr);
    }
    Ok(f)
}

pub fn q_find_value(key: &[u8; 32], k: u32) -> Vec<u8> {
    W::new().u32(id::DHT_FIND_VALUE).raw(key).u32(k).done()
}
pub fn q_find_node(key: &[u8; 32], k: u32) -> Vec<u8> {
    W::new().u32(id::DHT_FIND_NODE).raw(key).u32(k).done()
}

/// A query as a DHT peer sees it.
#[derive(Debug, Clone)]
pub enum DQ {
    Ping(u64),
    Store(DValue),
    FindNode([u8; 32], u32),
    FindValue([u8; 32], u32),
    GetAddr,
    Other,
}
pub fn read_query(d: &[u8]) -> (Option<DNode>, DQ) {
    let mut r = Rd::new(d);
    let mut from = None;
    if r.clone().u32().ok() == Some(id::DHT_QUERY) {
        r.u32().ok();
        match DNode::read(&mut r) {
            Ok(n) => from = Some(n),
            Err(_) => return (None, DQ::Other),
        }
    }
    let q = (|| -> R<DQ> {
        Ok(match r.u32()? {
            id::DHT_PING => DQ::Ping(r.u64()?),
            id::DHT_STORE => DQ::Store(DValue::read(&mut r)?),
            id::DHT_FIND_NODE => DQ::FindNode(r.h256()?, r.u32()?),
            id::DHT_FIND_VALUE => DQ::FindValue(r.h256()?, r.u32()?),
            id::DHT_GET_ADDR => DQ::GetAddr,
            _ => DQ::Other,
        })
    })();
    (from, q.unwrap_or(DQ::Other))
}
pub fn pong(v: u64) -> Vec<u8> {
    W::new().u32(id::DHT_PONG).u64(v).done()
}

/// Length of the common prefix in bits.
pub fn affinity(a: &[u8; 32], b: &[u8; 32]) -> u32 {
    let mut n = 0;
    for i in 0..32 {
        let d = a[i] ^ b[i];
        if d != 0 {
            return n + d.leading_zeros();
        }
        n += 8;
    }
    n
}
