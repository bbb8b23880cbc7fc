//! Independent implementation of the ADNL wire protocol: identities, packet encryption, channels,
//! and a raw UDP peer that speaks it. Uses only the ed25519/x25519 primitives of everscale-crypto.
#![allow(dead_code)]

use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::{Duration, Instant};

use aes::cipher::{KeyIvInit, StreamCipher};
use everscale_crypto::ed25519;
use rand::Rng;
use sha2::Digest;
#[cfg(not(evmon_net))]
use tokio::net::UdpSocket;

#[cfg(evmon_net)]
use everscale_network::adnl::evmon_net::UdpSocket;

use crate::rt::*;
use crate::tl::*;

#[derive(Clone)]
pub struct Ident {
    pub secret: [u8; 32],
    pub kp: std::sync::Arc<ed25519::KeyPair>,
    pub public: [u8; 32],
    pub short: [u8; 32],
}

impl Ident {
    pub fn from_secret(secret: [u8; 32]) -> Self {
        let sk = ed25519::SecretKey::from_bytes(secret);
        let kp = ed25519::KeyPair::from(&sk);
        let public = kp.public_key.to_bytes();
        Self {
            secret,
            kp: std::sync::Arc::new(kp),
            public,
            short: short_id(&public),
        }
    }
    pub fn gen(rng: &mut impl Rng) -> Self {
        Self::from_secret(rng.gen())
    }
    pub fn sign(&self, data: &[u8]) -> [u8; 64] {
        self.kp.sign_raw(data)
    }
    pub fn shared(&self, other: &[u8; 32]) -> Option<[u8; 32]> {
        Some(self.kp.compute_shared_secret(&ed25519::PublicKey::from_bytes(*other)?))
    }
}

pub fn verify(public: &[u8; 32], data: &[u8], sig: &[u8]) -> bool {
    match (ed25519::PublicKey::from_bytes(*public), <[u8; 64]>::try_from(sig)) {
        (Some(p), Ok(s)) => p.verify_raw(data, &s),
        _ => false,
    }
}

pub fn short_id(public: &[u8; 32]) -> [u8; 32] {
    sha256(&W::new().pubkey(public).done())
}
pub fn aes_id(secret: &[u8; 32]) -> [u8; 32] {
    sha256(&W::new().u32(id::PUB_AES).raw(secret).done())
}

fn cipher(secret: &[u8; 32], checksum: &[u8; 32]) -> ctr::Ctr64BE<aes::Aes256> {
    let mut key = *secret;
    key[16..].copy_from_slice(&checksum[16..]);
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&checksum[..4]);
    iv[4..].copy_from_slice(&secret[20..]);
    ctr::Ctr64BE::<aes::Aes256>::new(&key.into(), &iv.into())
}

fn checksum(version: Option<u16>, data: &[u8]) -> [u8; 32] {
    match version {
        None => sha256(data),
        Some(v) => {
            let mut h = sha2::Sha256::new();
            h.update(v.to_be_bytes());
            h.update(data);
            h.finalize().into()
        }
    }
}

/// Appends `[version] checksum ciphertext` to `prefix`.
pub fn seal(prefix: Vec<u8>, secret: &[u8; 32], data: &[u8], version: Option<u16>) -> Vec<u8> {
    let mut out = prefix;
    let sum = checksum(version, data);
    if let Some(v) = version {
        let b = v.to_be_bytes();
        let mut x = [b[0], b[1], b[0], b[1]];
        for (i, c) in out.iter().enumerate() {
            x[i % 4] ^= c;
        }
        for (i, c) in sum.iter().enumerate() {
            x[i % 4] ^= c;
        }
        out.extend_from_slice(&x);
    }
    out.extend_from_slice(&sum);
    let mut body = data.to_vec();
    cipher(secret, &sum).apply_keystream(&mut body);
    out.extend_from_slice(&body);
    out
}

/// Opens what `seal` produced; the version form is told by `versioned`.
pub fn open(packet: &[u8], prefix: usize, secret: &[u8; 32], versioned: bool) -> Option<(Vec<u8>, Option<u16>)> {
    let sum_at = prefix + if versioned { 4 } else { 0 };
    if packet.len() < sum_at + 32 {
        return None;
    }
    let sum: [u8; 32] = packet[sum_at..sum_at + 32].try_into().unwrap();
    let version = if versioned {
        let mut x: [u8; 4] = packet[prefix..prefix + 4].try_into().unwrap();
        for (i, c) in packet[..prefix].iter().enumerate() {
            x[i % 4] ^= c;
        }
        for (i, c) in sum.iter().enumerate() {
            x[i % 4] ^= c;
        }
        if x[0] != x[2] || x[1] != x[3] {
            return None;
        }
        Some(u16::from_be_bytes([x[0], x[1]]))
    } else {
        None
    };
    let mut body = packet[sum_at + 32..].to_vec();
    cipher(secret, &sum).apply_keystream(&mut body);
    (checksum(version, &body) == sum).then_some((body, version))
}

/// Whether a packet in the form without version happens to look like one with a version.
pub fn looks_versioned(p: &[u8], prefix: usize) -> bool {
    if p.len() <= prefix + 36 {
        return false;
    }
    let mut x = [0u8; 4];
    for (i, c) in p[..prefix + 36].iter().enumerate() {
        x[i % 4] ^= c;
    }
    x[0] == x[2] && x[1] == x[3]
}

pub fn seal_handshake(rng: &mut impl Rng, to_short: &[u8; 32], to_pub: &[u8; 32], data: &[u8], version: Option<u16>) -> Vec<u8> {
    let tmp = Ident::gen(rng);
    let secret = tmp.shared(to_pub).unwrap();
    let mut p = to_short.to_vec();
    p.extend_from_slice(&tmp.public);
    seal(p, &secret, data, version)
}

pub fn open_handshake(me: &Ident, packet: &[u8]) -> Option<(Vec<u8>, Option<u16>)> {
    if packet.len() < 96 || packet[..32] != me.short {
        return None;
    }
    let secret = me.shared(&packet[32..64].try_into().unwrap())?;
    open(packet, 64, &secret, true).or_else(|| open(packet, 64, &secret, false))
}

/// Secrets of one established channel as seen from one side.
#[derive(Clone)]
pub struct Chan {
    pub key: Ident,
    pub peer_key: [u8; 32],
    pub date: u32,
    pub secret_in: [u8; 32],
    pub secret_out: [u8; 32],
}

fn swap_pairs(s: &[u8; 32]) -> [u8; 32] {
    let mut r = *s;
    for p in r.chunks_mut(2) {
        p.swap(0, 1);
    }
    r
}

impl Chan {
    pub fn new(local: &[u8; 32], peer: &[u8; 32], key: &Ident, peer_key: &[u8; 32], date: u32) -> Option<Self> {
        let shared = key.shared(peer_key)?;
        let mut rev = shared;
        rev.reverse();
        let (secret_in, secret_out) = match local.cmp(peer) {
            std::cmp::Ordering::Less => (shared, rev),
            std::cmp::Ordering::Greater => (rev, shared),
            std::cmp::Ordering::Equal => (shared, shared),
        };
        Some(Self {
            key: key.clone(),
            peer_key: *peer_key,
            date,
            secret_in,
            secret_out,
        })
    }
    pub fn in_secret(&self, prio: bool) -> [u8; 32] {
        if prio {
            swap_pairs(&self.secret_in)
        } else {
            self.secret_in
        }
    }
    pub fn out_secret(&self, prio: bool) -> [u8; 32] {
        if prio {
            swap_pairs(&self.secret_out)
        } else {
            self.secret_out
        }
    }
    pub fn in_id(&self, prio: bool) -> [u8; 32] {
        aes_id(&self.in_secret(prio))
    }
    pub fn out_id(&self, prio: bool) -> [u8; 32] {
        aes_id(&self.out_secret(prio))
    }
    pub fn seal(&self, data: &[u8], prio: bool, version: Option<u16>) -> Vec<u8> {
        seal(self.out_id(prio).to_vec(), &self.out_secret(prio), data, version)
    }
    /// Returns (data, version, priority)
    pub fn open(&self, packet: &[u8]) -> Option<(Vec<u8>, Option<u16>, bool)> {
        for prio in [false, true] {
            if packet.len() >= 64 && packet[..32] == self.in_id(prio) {
                let s = self.in_secret(prio);
                return open(packet, 32, &s, true)
                    .or_else(|| open(packet, 32, &s, false))
                    .map(|(d, v)| (d, v, prio));
            }
        }
        None
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Via {
    Handshake,
    Channel { prio: bool },
}

#[derive(Debug, Clone)]
pub struct Got {
    pub via: Via,
    pub version: Option<u16>,
    pub contents: Contents,
    pub msgs: Vec<Msg>,
    pub src: std::net::SocketAddr,
    /// contents bytes
    pub raw: Vec<u8>,
}

/// How long an answer is waited for
const STEP: Duration = Duration::from_millis(if cfg!(miri) { 15_000 } else { 400 });

/// A raw UDP peer with one identity talking to one identity of a node under test.
pub struct WirePeer {
    pub me: Ident,
    pub sock: UdpSocket,
    pub addr: SocketAddrV4,
    pub to: SocketAddrV4,
    pub to_short: [u8; 32],
    pub to_pub: [u8; 32],
    pub seqno: u64,
    pub start: u32,
    pub their_start: u32,
    pub chan_key: Ident,
    pub chan: Option<Chan>,
    pub version: Option<u16>,
    /// Datagrams that could not be opened as anything
    pub undecodable: u64,
    pub received: u64,
    /// Accept a channel offer automatically
    pub auto_channel: bool,
    /// Reassembly of incoming parts
    pub parts: std::collections::HashMap<[u8; 32], (Vec<u8>, Vec<bool>)>,
}

impl WirePeer {
    pub async fn new(rng: &mut impl Rng, to: SocketAddrV4, to_pub: [u8; 32]) -> Self {
        Self::with_ident(Ident::gen(rng), rng, to, to_pub, Ipv4Addr::LOCALHOST).await
    }
    pub async fn with_ident(me: Ident, rng: &mut impl Rng, to: SocketAddrV4, to_pub: [u8; 32], ip: Ipv4Addr) -> Self {
        #[cfg(not(evmon_net))]
        let sock = UdpSocket::bind((ip, 0)).await.expect("bind");
        #[cfg(evmon_net)]
        let sock = {
            let _ = ip;
            UdpSocket::new(0).expect("bind")
        };
        let addr = match sock.local_addr().unwrap() {
            std::net::SocketAddr::V4(a) => a,
            _ => unreachable!(),
        };
        Self {
            me,
            sock,
            addr,
            to: SocketAddrV4::new(Ipv4Addr::LOCALHOST, to.port()),
            to_short: short_id(&to_pub),
            to_pub,
            seqno: 0,
            start: unix_now() - 5,
            their_start: 0,
            chan_key: Ident::gen(rng),
            chan: None,
            version: None,
            undecodable: 0,
            received: 0,
            auto_channel: false,
            parts: Default::default(),
        }
    }

    pub async fn send_raw(&self, data: &[u8]) {
        self.sock.send_to(data, self.to).await.ok();
    }

    pub fn addr_list(&self) -> AddrList {
        AddrList::one(self.addr, unix_now())
    }

    /// An honest handshake contents, unsigned.
    pub fn handshake_contents(&mut self, rng: &mut impl Rng, msgs: Vec<Msg>) -> Contents {
        self.seqno += 1;
        Contents {
            rand1: rand_bytes(rng, 3),
            from: Some(self.me.public),
            messages: msgs.iter().map(|m| m.ser()).collect(),
            address: Some(self.addr_list()),
            seqno: Some(self.seqno),
            confirm_seqno: Some(0),
            reinit: Some((self.start, self.their_start)),
            rand2: rand_bytes(rng, 7),
            ..Default::default()
        }
    }

    pub fn sign(c: &mut Contents, who: &Ident) {
        let s = who.sign(&c.ser(false));
        c.signature = Some(s.to_vec());
    }

    pub async fn send_contents(&self, rng: &mut impl Rng, c: &Contents) {
        let p = seal_handshake(rng, &self.to_short, &self.to_pub, &c.ser(true), self.version);
        self.send_raw(&p).await;
    }

    /// Honest signed handshake packet.
    pub async fn send(&mut self, rng: &mut impl Rng, msgs: Vec<Msg>) {
        let mut c = self.handshake_contents(rng, msgs);
        Self::sign(&mut c, &self.me);
        self.send_contents(rng, &c).await;
    }

    pub fn channel_contents(&mut self, rng: &mut impl Rng, msgs: Vec<Msg>) -> Contents {
        self.seqno += 1;
        Contents {
            rand1: rand_bytes(rng, 3),
            messages: msgs.iter().map(|m| m.ser()).collect(),
            address: Some(self.addr_list()),
            seqno: Some(self.seqno),
            confirm_seqno: Some(0),
            rand2: rand_bytes(rng, 7),
            ..Default::default()
        }
    }

    /// Honest channel packet (a channel must exist).
    pub async fn send_ch(&mut self, rng: &mut impl Rng, msgs: Vec<Msg>, prio: bool) {
        let c = self.channel_contents(rng, msgs);
        let ch = self.chan.as_ref().expect("channel");
        let p = ch.seal(&c.ser(true), prio, self.version);
        self.send_raw(&p).await;
    }

    pub fn decode(&mut self, p: &[u8], src: std::net::SocketAddr) -> Option<Got> {
        self.received += 1;
        let (raw, version, via) = if let Some((d, v)) = open_handshake(&self.me, p) {
            (d, v, Via::Handshake)
        } else if let Some((d, v, prio)) = self.chan.as_ref().and_then(|c| c.open(p)) {
            (d, v, Via::Channel { prio })
        } else {
            self.undecodable += 1;
            return None;
        };
        let (contents, msgs) = match Contents::parse(&raw) {
            Ok(c) => c,
            Err(_) => {
                self.undecodable += 1;
                return None;
            }
        };
        if let Some((l, _)) = contents.reinit {
            self.their_start = l;
        }
        if self.auto_channel {
            for m in &msgs {
                match m {
                    Msg::Create { key, date } | Msg::Confirm { key, date, .. } => {
                        if self.chan.as_ref().map_or(true, |c| c.peer_key != *key) {
                            self.chan = Chan::new(&self.me.short, &self.to_short, &self.chan_key, key, *date);
                        }
                    }
                    _ => {}
                }
            }
        }
        Some(Got {
            via,
            version,
            contents,
            msgs,
            src,
            raw,
        })
    }

    /// Next decodable packet within `wait`.
    pub async fn recv(&mut self, wait: Duration) -> Option<Got> {
        let end = Instant::now() + wait;
        let mut buf = vec![0u8; 4096];
        loop {
            let left = end.checked_duration_since(Instant::now())?;
            match tokio::time::timeout(left, self.sock.recv_from(&mut buf)).await {
                Err(_) => return None,
                Ok(Err(_)) => continue,
                Ok(Ok((n, src))) => {
                    let p = buf[..n].to_vec();
                    if let Some(g) = self.decode(&p, src) {
                        return Some(g);
                    }
                }
            }
        }
    }

    /// Flattens parts: returns complete messages of a packet.
    pub fn assemble(&mut self, g: &Got) -> Vec<Msg> {
        let mut out = Vec::new();
        for m in &g.msgs {
            if let Msg::Part { hash, total, offset, data } = m {
                let e = self
                    .parts
                    .entry(*hash)
                    .or_insert_with(|| (vec![0; *total as usize], vec![false; *total as usize]));
                let (o, l) = (*offset as usize, data.len());
                if o + l <= e.0.len() {
                    e.0[o..o + l].copy_from_slice(data);
                    e.1[o..o + l].iter_mut().for_each(|b| *b = true);
                }
                if e.1.iter().all(|b| *b) {
                    let (d, _) = self.parts.remove(hash).unwrap();
                    if sha256(&d) == *hash {
                        if let Ok(m) = Msg::read(&mut Rd::new(&d)) {
                            out.push(m);
                        }
                    }
                }
            } else {
                out.push(m.clone());
            }
        }
        out
    }

    /// Receives until `f` picks a message (parts reassembled) or time runs out.
    pub async fn recv_msg<T>(&mut self, wait: Duration, mut f: impl FnMut(&Got, &Msg) -> Option<T>) -> Option<T> {
        let end = Instant::now() + wait;
        loop {
            let left = end.checked_duration_since(Instant::now())?;
            let g = self.recv(left).await?;
            for m in self.assemble(&g) {
                if let Some(t) = f(&g, &m) {
                    return Some(t);
                }
            }
        }
    }

    /// Sends an honest ping and waits for its pong.
    pub async fn ping(&mut self, rng: &mut impl Rng, attempts: usize, wait: Duration) -> bool {
        for _ in 0..attempts {
            let qid: [u8; 32] = rng.gen();
            let v: u64 = rng.gen();
            self.send(rng, vec![Msg::Query { id: qid, data: W::new().u32(id::PING).u64(v).done() }]).await;
            let want = W::new().u32(id::PONG).u64(v).done();
            if self
                .recv_msg(wait, |_, m| match m {
                    Msg::Answer { id, data } if *id == qid => Some(*data == want),
                    _ => None,
                })
                .await
                == Some(true)
            {
                return true;
            }
        }
        false
    }

    /// Establishes a channel the honest way; true once a packet arrived through it.
    pub async fn establish_channel(&mut self, rng: &mut impl Rng) -> bool {
        self.auto_channel = true;
        for _ in 0..20 {
            let date = unix_now();
            let qid: [u8; 32] = rng.gen();
            let v: u64 = rng.gen();
            let key = self.chan_key.public;
            let ping = Msg::Query { id: qid, data: W::new().u32(id::PING).u64(v).done() };
            let first = match &self.chan {
                None => Msg::Create { key, date },
                Some(c) => Msg::Confirm { key, peer_key: c.peer_key, date: c.date },
            };
            self.send(rng, vec![first, ping]).await;
            let end = Instant::now() + STEP;
            while let Some(left) = end.checked_duration_since(Instant::now()) {
                match self.recv(left).await {
                    Some(g) if matches!(g.via, Via::Channel { .. }) => return true,
                    Some(_) => {}
                    None => break,
                }
            }
            if self.chan.is_some() {
                // Speaking in the channel proves to the node that we have it
                let m = Msg::Query { id: rng.gen(), data: W::new().u32(id::PING).u64(1).done() };
                self.send_ch(rng, vec![m], false).await;
                while let Some(g) = self.recv(STEP).await {
                    if matches!(g.via, Via::Channel { .. }) {
                        return true;
                    }
                }
            }
        }
        false
    }

    /// Throws away everything pending.
    pub fn drain(&mut self) -> usize {
        use futures_util::FutureExt;
        let mut buf = [0u8; 4096];
        let mut n = 0;
        while matches!(self.sock.recv_from(&mut buf).now_or_never(), Some(Ok(_))) {
            n += 1;
        }
        n
    }
}
