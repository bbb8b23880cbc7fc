//! Independent TL codec: nothing in here uses the code under test.
#![allow(dead_code)]

pub mod id {
    pub const PUB_ED25519: u32 = 0x4813b4c6;
    pub const PUB_OVERLAY: u32 = 0x34ba45cb;
    pub const PUB_AES: u32 = 0x2dbcadd4;
    pub const PUB_UNENC: u32 = 0xb61f450a;
    pub const FEC_RAPTORQ: u32 = 0x8b93a7e0;
    pub const ADDR_UDP: u32 = 0x670da6e7;
    pub const ADDR_UDP6: u32 = 0xe31d63fa;
    pub const ADDR_LIST: u32 = 0x2227e658;
    pub const PACKET: u32 = 0xd142cd89;
    pub const CREATE_CHANNEL: u32 = 0xe673c3bb;
    pub const CONFIRM_CHANNEL: u32 = 0x60dd1d69;
    pub const CUSTOM: u32 = 0x204818f5;
    pub const NOP: u32 = 0x17f8dfda;
    pub const REINIT: u32 = 0x10c20520;
    pub const QUERY: u32 = 0xb48bf97a;
    pub const ANSWER: u32 = 0x0fac8416;
    pub const PART: u32 = 0xfd452d39;
    pub const PONG: u32 = 0x20747c0e;
    pub const PING: u32 = 0x1faaa1bf;
    pub const RLDP_PART: u32 = 0x185c22cc;
    pub const RLDP_CONFIRM: u32 = 0xf582dc58;
    pub const RLDP_COMPLETE: u32 = 0xbc0cb2bf;
    pub const RLDP_MESSAGE: u32 = 0x7d1bcd1e;
    pub const RLDP_QUERY: u32 = 0x8a794d69;
    pub const RLDP_ANSWER: u32 = 0xa3fc5c03;
    pub const DHT_NODE: u32 = 0x84533248;
    pub const DHT_NODES: u32 = 0x7974a0be;
    pub const DHT_KEY: u32 = 0xf667de8f;
    pub const DHT_RULE_SIGNATURE: u32 = 0xcc9f31f7;
    pub const DHT_RULE_ANYBODY: u32 = 0x61578e14;
    pub const DHT_RULE_OVERLAY: u32 = 0x26779383;
    pub const DHT_KEY_DESC: u32 = 0x281d4e05;
    pub const DHT_VALUE: u32 = 0x90ad27cb;
    pub const DHT_PONG: u32 = 0x5a8aef81;
    pub const DHT_NOT_FOUND: u32 = 0xa2620568;
    pub const DHT_FOUND: u32 = 0xe40cf774;
    pub const DHT_STORED: u32 = 0x7026fb08;
    pub const DHT_PING: u32 = 0xcbeb3f18;
    pub const DHT_STORE: u32 = 0x34934212;
    pub const DHT_FIND_NODE: u32 = 0x6ce2ce6b;
    pub const DHT_FIND_VALUE: u32 = 0xae4b6011;
    pub const DHT_GET_ADDR: u32 = 0xa97948ed;
    pub const DHT_QUERY: u32 = 0x7d530769;
    pub const OV_TO_SIGN: u32 = 0x03d8a8e1;
    pub const OV_NODE: u32 = 0xb86b8a83;
    pub const OV_NODES: u32 = 0xe487290e;
    pub const OV_MESSAGE: u32 = 0x75252420;
    pub const OV_FEC_RECEIVED: u32 = 0xd55c14ec;
    pub const OV_FEC_COMPLETED: u32 = 0x09d76914;
    pub const OV_BCAST_ID: u32 = 0x51fd789a;
    pub const OV_FEC_ID: u32 = 0xfb3155a6;
    pub const OV_FEC_PART_ID: u32 = 0xa46962d0;
    pub const OV_BCAST_TO_SIGN: u32 = 0xfa374e7c;
    pub const OV_CERT: u32 = 0xe09ed731;
    pub const OV_EMPTY_CERT: u32 = 0x32dabccf;
    pub const OV_UNICAST: u32 = 0x33534e24;
    pub const OV_BCAST: u32 = 0xb15a2b6b;
    pub const OV_BCAST_FEC: u32 = 0xbad7c36a;
    pub const OV_BCAST_FEC_SHORT: u32 = 0xf1881342;
    pub const OV_NOT_FOUND: u32 = 0x95863624;
    pub const OV_GET_RANDOM: u32 = 0x48ee64ab;
    pub const OV_QUERY: u32 = 0xccfd8443;
    pub const SHARD_OVERLAY_ID: u32 = 0x4d9ed329;
    pub const CATCHAIN_FIRST: u32 = 0x10c904fb;
}

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);

impl W {
    pub fn new() -> Self {
        Self(Vec::new())
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> Self {
        self.0.extend_from_slice(v);
        self
    }
    pub fn bytes(mut self, v: &[u8]) -> Self {
        let start = self.0.len();
        if v.len() < 254 {
            self.0.push(v.len() as u8);
        } else {
            self.0.push(254);
            self.0.extend_from_slice(&(v.len() as u32).to_le_bytes()[..3]);
        }
        self.0.extend_from_slice(v);
        while (self.0.len() - start) % 4 != 0 {
            self.0.push(0);
        }
        self
    }
    pub fn pubkey(self, key: &[u8; 32]) -> Self {
        self.u32(id::PUB_ED25519).raw(key)
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

#[derive(Debug, Clone)]
pub struct TlErr;
pub type R<T> = Result<T, TlErr>;

#[derive(Clone)]
pub struct Rd<'a> {
    pub d: &'a [u8],
    pub o: usize,
}

impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Self { d, o: 0 }
    }
    pub fn left(&self) -> usize {
        self.d.len() - self.o
    }
    pub fn raw(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return Err(TlErr);
        }
        let r = &self.d[self.o..self.o + n];
        self.o += n;
        Ok(r)
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.raw(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.raw(8)?.try_into().unwrap()))
    }
    pub fn h256(&mut self) -> R<[u8; 32]> {
        Ok(self.raw(32)?.try_into().unwrap())
    }
    pub fn bytes(&mut self) -> R<&'a [u8]> {
        let start = self.o;
        let b = self.raw(1)?[0];
        let len = if b < 254 {
            b as usize
        } else if b == 254 {
            let l = self.raw(3)?;
            l[0] as usize | (l[1] as usize) << 8 | (l[2] as usize) << 16
        } else {
            return Err(TlErr);
        };
        let r = self.raw(len)?;
        while (self.o - start) % 4 != 0 {
            self.raw(1)?;
        }
        Ok(r)
    }
    pub fn expect(&mut self, id: u32) -> R<()> {
        if self.u32()? == id {
            Ok(())
        } else {
            Err(TlErr)
        }
    }
    pub fn rest(&mut self) -> &'a [u8] {
        let r = &self.d[self.o..];
        self.o = self.d.len();
        r
    }
}

/// `adnl.addressList` (bare). Priority and the number of addresses can be chosen freely.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AddrList {
    pub addrs: Vec<(u32, u32)>,
    pub version: u32,
    pub reinit_date: u32,
    pub priority: u32,
    pub expire_at: u32,
}

impl AddrList {
    pub fn one(addr: std::net::SocketAddrV4, version: u32) -> Self {
        Self {
            addrs: vec![(u32::from(*addr.ip()), addr.port() as u32)],
            version,
            reinit_date: version,
            priority: 0,
            expire_at: 0,
        }
    }
    pub fn write(&self, mut w: W) -> W {
        w = w.u32(self.addrs.len() as u32);
        for (ip, port) in &self.addrs {
            w = w.u32(id::ADDR_UDP).u32(*ip).u32(*port);
        }
        w.u32(self.version)
            .u32(self.reinit_date)
            .u32(self.priority)
            .u32(self.expire_at)
    }
    pub fn read(r: &mut Rd) -> R<Self> {
        let n = r.u32()?;
        if n > 16 {
            return Err(TlErr);
        }
        let mut addrs = Vec::new();
        for _ in 0..n {
            r.expect(id::ADDR_UDP)?;
            addrs.push((r.u32()?, r.u32()?));
        }
        Ok(Self {
            addrs,
            version: r.u32()?,
            reinit_date: r.u32()?,
            priority: r.u32()?,
            expire_at: r.u32()?,
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Msg {
    Answer { id: [u8; 32], data: Vec<u8> },
    Custom(Vec<u8>),
    Confirm { key: [u8; 32], peer_key: [u8; 32], date: u32 },
    Create { key: [u8; 32], date: u32 },
    Part { hash: [u8; 32], total: u32, offset: u32, data: Vec<u8> },
    Query { id: [u8; 32], data: Vec<u8> },
    Nop,
    Reinit(u32),
}

impl Msg {
    pub fn ser(&self) -> Vec<u8> {
        match self {
            Msg::Answer { id, data } => W::new().u32(id::ANSWER).raw(id).bytes(data).done(),
            Msg::Custom(d) => W::new().u32(id::CUSTOM).bytes(d).done(),
            Msg::Confirm { key, peer_key, date } => W::new()
                .u32(id::CONFIRM_CHANNEL)
                .raw(key)
                .raw(peer_key)
                .u32(*date)
                .done(),
            Msg::Create { key, date } => W::new().u32(id::CREATE_CHANNEL).raw(key).u32(*date).done(),
            Msg::Part { hash, total, offset, data } => W::new()
                .u32(id::PART)
                .raw(hash)
                .u32(*total)
                .u32(*offset)
                .bytes(data)
                .done(),
            Msg::Query { id, data } => W::new().u32(id::QUERY).raw(id).bytes(data).done(),
            Msg::Nop => W::new().u32(id::NOP).done(),
            Msg::Reinit(d) => W::new().u32(id::REINIT).u32(*d).done(),
        }
    }
    pub fn read(r: &mut Rd) -> R<Msg> {
        Ok(match r.u32()? {
            id::ANSWER => Msg::Answer { id: r.h256()?, data: r.bytes()?.to_vec() },
            id::CUSTOM => Msg::Custom(r.bytes()?.to_vec()),
            id::CONFIRM_CHANNEL => Msg::Confirm { key: r.h256()?, peer_key: r.h256()?, date: r.u32()? },
            id::CREATE_CHANNEL => Msg::Create { key: r.h256()?, date: r.u32()? },
            id::PART => Msg::Part { hash: r.h256()?, total: r.u32()?, offset: r.u32()?, data: r.bytes()?.to_vec() },
            id::QUERY => Msg::Query { id: r.h256()?, data: r.bytes()?.to_vec() },
            id::NOP => Msg::Nop,
            id::REINIT => Msg::Reinit(r.u32()?),
            _ => return Err(TlErr),
        })
    }
}

/// Parsed or to-be-built `adnl.packetContents`.
#[derive(Debug, Clone, Default)]
pub struct Contents {
    pub rand1: Vec<u8>,
    pub from: Option<[u8; 32]>,
    pub from_short: Option<[u8; 32]>,
    /// Raw serialized messages.
    pub messages: Vec<Vec<u8>>,
    /// Write a vector even for one message.
    pub force_vec: bool,
    /// A single message besides the vector.
    pub single: Option<Vec<u8>>,
    pub address: Option<AddrList>,
    pub priority_address: Option<AddrList>,
    pub seqno: Option<u64>,
    pub confirm_seqno: Option<u64>,
    pub recv_ver: Option<u32>,
    pub recv_prio_ver: Option<u32>,
    /// (local, target)
    pub reinit: Option<(u32, u32)>,
    pub signature: Option<Vec<u8>>,
    pub rand2: Vec<u8>,
    pub flags_xor: u32,
}

impl Contents {
    fn flags(&self, with_sig: bool) -> u32 {
        let mut f = 0;
        if self.from.is_some() {
            f |= 1;
        }
        if self.from_short.is_some() {
            f |= 2;
        }
        if !self.messages.is_empty() || self.force_vec {
            if self.messages.len() == 1 && !self.force_vec {
                f |= 4;
            } else {
                f |= 8;
            }
        }
        if self.single.is_some() {
            f |= 4;
        }
        if self.address.is_some() {
            f |= 16;
        }
        if self.priority_address.is_some() {
            f |= 32;
        }
        if self.seqno.is_some() {
            f |= 64;
        }
        if self.confirm_seqno.is_some() {
            f |= 128;
        }
        if self.recv_ver.is_some() {
            f |= 256;
        }
        if self.recv_prio_ver.is_some() {
            f |= 512;
        }
        if self.reinit.is_some() {
            f |= 1024;
        }
        if with_sig {
            f |= 2048;
        }
        f ^ self.flags_xor
    }

    pub fn ser(&self, with_sig: bool) -> Vec<u8> {
        let with_sig = with_sig && self.signature.is_some();
        let mut w = W::new().u32(id::PACKET).bytes(&self.rand1).u32(self.flags(with_sig));
        if let Some(k) = &self.from {
            w = w.pubkey(k);
        }
        if let Some(k) = &self.from_short {
            w = w.raw(k);
        }
        if let Some(m) = &self.single {
            w = w.raw(m);
        }
        if !self.messages.is_empty() || self.force_vec {
            if self.messages.len() == 1 && !self.force_vec {
                w = w.raw(&self.messages[0]);
            } else {
                w = w.u32(self.messages.len() as u32);
                for m in &self.messages {
                    w = w.raw(m);
                }
            }
        }
        if let Some(a) = &self.address {
            w = a.write(w);
        }
        if let Some(a) = &self.priority_address {
            w = a.write(w);
        }
        if let Some(v) = self.seqno {
            w = w.u64(v);
        }
        if let Some(v) = self.confirm_seqno {
            w = w.u64(v);
        }
        if let Some(v) = self.recv_ver {
            w = w.u32(v);
        }
        if let Some(v) = self.recv_prio_ver {
            w = w.u32(v);
        }
        if let Some((l, t)) = self.reinit {
            w = w.u32(l).u32(t);
        }
        if with_sig {
            w = w.bytes(self.signature.as_ref().unwrap());
        }
        w.bytes(&self.rand2).done()
    }

    pub fn parse(d: &[u8]) -> R<(Self, Vec<Msg>)> {
        let mut r = Rd::new(d);
        let r = &mut r;
        r.expect(id::PACKET)?;
        let mut c = Contents {
            rand1: r.bytes()?.to_vec(),
            ..Default::default()
        };
        let f = r.u32()?;
        let mut msgs = Vec::new();
        if f & 1 != 0 {
            r.expect(id::PUB_ED25519)?;
            c.from = Some(r.h256()?);
        }
        if f & 2 != 0 {
            c.from_short = Some(r.h256()?);
        }
        let n = if f & 4 != 0 {
            1
        } else if f & 8 != 0 {
            r.u32()?
        } else {
            0
        };
        c.force_vec = f & 8 != 0;
        if n > 64 {
            return Err(TlErr);
        }
        for _ in 0..n {
            let s = r.o;
            msgs.push(Msg::read(r)?);
            c.messages.push(r.d[s..r.o].to_vec());
        }
        if f & 16 != 0 {
            c.address = Some(AddrList::read(r)?);
        }
        if f & 32 != 0 {
            c.priority_address = Some(AddrList::read(r)?);
        }
        if f & 64 != 0 {
            c.seqno = Some(r.u64()?);
        }
        if f & 128 != 0 {
            c.confirm_seqno = Some(r.u64()?);
        }
        if f & 256 != 0 {
            c.recv_ver = Some(r.u32()?);
        }
        if f & 512 != 0 {
            c.recv_prio_ver = Some(r.u32()?);
        }
        if f & 1024 != 0 {
            c.reinit = Some((r.u32()?, r.u32()?));
        }
        if f & 2048 != 0 {
            c.signature = Some(r.bytes()?.to_vec());
        }
        c.rand2 = r.bytes()?.to_vec();
        if r.left() != 0 || f & !0xfff != 0 {
            return Err(TlErr);
        }
        Ok((c, msgs))
    }
}
