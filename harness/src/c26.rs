//! C26: TL encoding against an independent encoder, and hostile input for every parser.
use std::net::{Ipv4Addr, SocketAddrV4};

use bytes::Bytes;
use everscale_crypto::tl::{PublicKey, PublicKeyOwned};
use everscale_network::proto::{self, adnl, dht, overlay, rldp, rpc};
use rand::rngs::SmallRng;
use rand::Rng;
use tl_proto::{TlRead, TlWrite};

use crate::rt::*;
use crate::tl::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one message of one type with generated fields, compared byte by byte with an independent encoder and parsed back, or one distorted input offered to every parser; non-trivial because fields cover all length classes of byte strings and all options, and each parser's result is written and parsed again; distinct by type and classes of lengths and options");
    let mut rng = ctx.rng(26);
    let mut n = 0;
    let mut corpus: Vec<(&'static str, Vec<u8>)> = Vec::new();
    while ctx.within(14, 300) && (n < 4000 || !ctx.quick()) && !ctx.violated() {
        let mut k = Ck { ctx: &ctx, corpus: &mut corpus, keep: n < 40 || n % 50 == 0 };
        one(&mut k, &mut rng, n);
        packets(&ctx, &mut k, &mut rng, n);
        if corpus.len() > 4000 {
            corpus.drain(..1000);
        }
        n += 1;
        if n % 64 == 0 {
            tokio::task::yield_now().await;
        }
    }
    ids(&ctx, &mut rng);
    let mut n = 0;
    while ctx.within(28, 420) && (n < 120_000 || !ctx.quick()) && !ctx.violated() {
        distorted(&ctx, &mut rng, &corpus);
        n += 1;
        if n % 512 == 0 {
            tokio::task::yield_now().await;
        }
    }
    ctx.require("messages", 20_000);
    ctx.require("packets", 500);
    ctx.require("ids", 200);
    ctx.require("distorted", 20_000);
    ctx.require("distorted_accepted", 2_000);
    ctx.check_panics("TL");
}

/// All messages once, kept in `corpus`.
pub fn generated(ctx: &C, rng: &mut SmallRng, n: u64, corpus: &mut Vec<(&'static str, Vec<u8>)>) {
    let mut k = Ck { ctx, corpus, keep: true };
    one(&mut k, rng, n);
    packets(ctx, &mut k, rng, n);
}

struct Ck<'a> {
    ctx: &'a C,
    corpus: &'a mut Vec<(&'static str, Vec<u8>)>,
    keep: bool,
}
impl Ck<'_> {
    fn sent(&mut self, name: &'static str, got: &[u8], want: &[u8]) {
        self.ctx.count("messages", 1);
        if got != want {
            self.ctx.violation("encoding", format!("{name} is written as {} instead of {}", short(got), short(want)));
        }
        if self.keep && want.len() < 3000 {
            self.corpus.push((name, want.to_vec()));
        }
    }
    fn read(&mut self, name: &'static str, again: Option<(Vec<u8>, usize)>, want: &[u8]) {
        match again {
            None => self.ctx.violation("decoding", format!("{name} is not parsed from {}", short(want))),
            Some((_, used)) if used != want.len() => self.ctx.violation("decoding", format!("{name} of {} bytes is parsed from {used} of them", want.len())),
            Some((a, _)) if a != want => self.ctx.violation("decoding", format!("{name} is parsed as another value: {} became {}", short(want), short(&a))),
            _ => {}
        }
    }
}
fn short(d: &[u8]) -> String {
    if d.len() > 160 {
        format!("{}… ({} bytes)", hex(&d[..160]), d.len())
    } else {
        hex(d)
    }
}

/// Parses and writes again.
fn again<'a, T: TlRead<'a> + TlWrite>(d: &'a [u8]) -> Option<(Vec<u8>, usize)> {
    let mut o = 0;
    let v = T::read_from(d, &mut o).ok()?;
    Some((tl_proto::serialize(v), o))
}
macro_rules! both {
    ($k:expr, $name:literal, $ty:ty, $val:expr, $want:expr) => {{
        let want: Vec<u8> = $want;
        let got = tl_proto::serialize($val);
        $k.sent($name, &got, &want);
        $k.read($name, again::<$ty>(&want), &want);
    }};
}

/// Lengths around the changes of the encoding.
fn blob(rng: &mut SmallRng, n: u64) -> Vec<u8> {
    let len = match rng.gen_range(0..14) {
        0 => 0,
        1 => rng.gen_range(1..9),
        2 => rng.gen_range(250..260),
        3 => rng.gen_range(10..250),
        4 => rng.gen_range(260..1100),
        5 if n % 97 == 0 => [65_534, 65_535, 65_536, 65_537, 200_000][rng.gen_range(0..5)],
        6 if n % 400 == 3 => [(1 << 24) - 1, (1 << 24) - 4][rng.gen_range(0..2)],
        _ => rng.gen_range(0..80),
    };
    rand_bytes(rng, len)
}
fn class(d: &[u8]) -> u8 {
    match d.len() {
        0 => 0,
        x @ 1..=4 => x as u8,
        x @ 250..=260 => (x - 200) as u8,
        x if x < 250 => 10 + (x % 4) as u8,
        x if x < 65_000 => 20 + (x % 4) as u8,
        x if x < 1 << 23 => 30,
        _ => 31,
    }
}
fn n32(rng: &mut SmallRng) -> u32 {
    match rng.gen_range(0..8) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << rng.gen_range(0..32),
        _ => rng.gen(),
    }
}
fn n64(rng: &mut SmallRng) -> u64 {
    match rng.gen_range(0..8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << rng.gen_range(0..64),
        _ => rng.gen(),
    }
}
/// A key: owned, as written.
fn key(rng: &mut SmallRng, n: u64) -> (PublicKeyOwned, Vec<u8>) {
    match rng.gen_range(0..6) {
        0 => {
            let name = blob(rng, n);
            let w = W::new().u32(id::PUB_OVERLAY).bytes(&name).done();
            (PublicKeyOwned::Overlay { name }, w)
        }
        1 => {
            let key = rand32(rng);
            (PublicKeyOwned::Aes { key }, W::new().u32(id::PUB_AES).raw(&key).done())
        }
        2 => {
            let data = blob(rng, n);
            let w = W::new().u32(id::PUB_UNENC).bytes(&data).done();
            (PublicKeyOwned::Unencoded { data }, w)
        }
        _ => {
            let key = rand32(rng);
            (PublicKeyOwned::Ed25519 { key }, W::new().pubkey(&key).done())
        }
    }
}
fn addr(rng: &mut SmallRng) -> (adnl::AddressList, Vec<u8>) {
    let a = if rng.gen_range(0..4) > 0 { Some((n32(rng), n32(rng))) } else { None };
    let l = AddrList { addrs: a.into_iter().collect(), version: n32(rng), reinit_date: n32(rng), priority: 0, expire_at: n32(rng) };
    let v = adnl::AddressList {
        address: a.map(|(ip, port)| adnl::Address { ip, port }),
        version: l.version,
        reinit_date: l.reinit_date,
        expire_at: l.expire_at,
    };
    (v, l.write(W::new()).done())
}

fn one(k: &mut Ck, rng: &mut SmallRng, n: u64) {
    let (a, b) = (blob(rng, n), blob(rng, n));
    let (h, h2) = (rand32(rng), rand32(rng));
    let (x, y, z) = (n32(rng), n32(rng), n32(rng));
    let q = n64(rng);
    k.ctx.case((class(&a), class(&b)));
    // ADNL
    type M<'a> = adnl::Message<'a>;
    both!(k, "adnl.message.answer", M, M::Answer { query_id: &h, answer: &a }, W::new().u32(id::ANSWER).raw(&h).bytes(&a).done());
    both!(k, "adnl.message.custom", M, M::Custom { data: &a }, W::new().u32(id::CUSTOM).bytes(&a).done());
    both!(k, "adnl.message.confirmChannel", M, M::ConfirmChannel { key: &h, peer_key: &h2, date: x }, W::new().u32(id::CONFIRM_CHANNEL).raw(&h).raw(&h2).u32(x).done());
    both!(k, "adnl.message.part", M, M::Part { hash: &h, total_size: x, offset: y, data: &a }, W::new().u32(id::PART).raw(&h).u32(x).u32(y).bytes(&a).done());
    both!(k, "adnl.message.createChannel", M, M::CreateChannel { key: &h, date: x }, W::new().u32(id::CREATE_CHANNEL).raw(&h).u32(x).done());
    both!(k, "adnl.message.query", M, M::Query { query_id: &h, query: &a }, W::new().u32(id::QUERY).raw(&h).bytes(&a).done());
    both!(k, "adnl.message.nop", M, M::Nop, W::new().u32(id::NOP).done());
    both!(k, "adnl.message.reinit", M, M::Reinit { date: x }, W::new().u32(id::REINIT).u32(x).done());
    both!(k, "adnl.pong", adnl::Pong, adnl::Pong { value: q }, W::new().u32(id::PONG).u64(q).done());
    both!(k, "adnl.ping", rpc::AdnlPing, rpc::AdnlPing { value: q }, W::new().u32(id::PING).u64(q).done());
    both!(k, "adnl.address.udp", adnl::Address, adnl::Address { ip: x, port: y }, W::new().u32(id::ADDR_UDP).u32(x).u32(y).done());
    let (al, alw) = addr(rng);
    both!(k, "adnl.addressList", adnl::AddressList, al, alw.clone());
    both!(k, "reinit dates", adnl::ReinitDates, adnl::ReinitDates { local: x, target: y }, W::new().u32(x).u32(y).done());
    // a list as others write it: several addresses and a priority
    {
        let l = AddrList { addrs: (0..rng.gen_range(2..5)).map(|_| (n32(rng), n32(rng))).collect(), version: x, reinit_date: y, priority: rng.gen(), expire_at: z };
        let d = l.write(W::new()).done();
        let mut o = 0;
        match adnl::AddressList::read_from(&d, &mut o) {
            Ok(v) if o == d.len() && v.version == x && v.reinit_date == y && v.expire_at == z && v.address.map(|a| (a.ip, a.port)) == Some(l.addrs[0]) => {}
            _ => k.ctx.violation("decoding", format!("a list of {} addresses is not parsed", l.addrs.len())),
        }
        let a = SocketAddrV4::new(Ipv4Addr::from(x), y as u16);
        let v = adnl::Address::from(&a);
        if v.ip != x || v.port != (y & 0xffff) || SocketAddrV4::from(v) != a {
            k.ctx.violation("encoding", "an address is converted to another one");
        }
    }
    // RLDP
    type R<'a> = rldp::Message<'a>;
    both!(k, "rldp.message", R, R::Message { id: &h, data: &a }, W::new().u32(id::RLDP_MESSAGE).raw(&h).bytes(&a).done());
    both!(k, "rldp.answer", R, R::Answer { query_id: &h, data: &a }, W::new().u32(id::RLDP_ANSWER).raw(&h).bytes(&a).done());
    both!(k, "rldp.query", R, R::Query { query_id: &h, max_answer_size: q, timeout: x, data: &a }, W::new().u32(id::RLDP_QUERY).raw(&h).u64(q).u32(x).bytes(&a).done());
    let fec = rldp::RaptorQFecType { total_len: x, packet_len: y, packet_count: z };
    let few = W::new().u32(id::FEC_RAPTORQ).u32(x).u32(y).u32(z).done();
    both!(k, "fec.raptorQ", rldp::RaptorQFecType, fec, few.clone());
    type P<'a> = rldp::MessagePart<'a>;
    let (u, v) = (n32(rng), n32(rng));
    both!(
        k,
        "rldp.messagePart",
        P,
        P::MessagePart { transfer_id: &h, fec_type: fec, part: u, total_size: q, seqno: v, data: &a },
        W::new().u32(id::RLDP_PART).raw(&h).raw(&few).u32(u).u64(q).u32(v).bytes(&a).done()
    );
    both!(k, "rldp.confirm", P, P::Confirm { transfer_id: &h, part: u, seqno: v }, W::new().u32(id::RLDP_CONFIRM).raw(&h).u32(u).u32(v).done());
    both!(k, "rldp.complete", P, P::Complete { transfer_id: &h, part: u }, W::new().u32(id::RLDP_COMPLETE).raw(&h).u32(u).done());
    // DHT
    let (pk, pkw) = key(rng, n);
    let node = dht::Node { id: pk.as_equivalent_ref(), addr_list: al, version: x, signature: &a };
    let nw = W::new().raw(&pkw).raw(&alw).u32(x).bytes(&a).done();
    both!(k, "dht.node", dht::Node, node, nw.clone());
    both!(k, "dht.node (owned)", dht::NodeOwned, node.as_equivalent_owned(), nw.clone());
    both!(k, "dht.node (ref of owned)", dht::Node, node.as_equivalent_owned().as_equivalent_ref(), nw.clone());
    k.sent("dht.node (boxed)", &tl_proto::serialize_as_boxed(node), &W::new().u32(id::DHT_NODE).raw(&nw).done());
    both!(k, "dht.query", rpc::DhtQuery, rpc::DhtQuery { node }, W::new().u32(id::DHT_QUERY).raw(&nw).done());
    let count = rng.gen_range(0..8);
    let (mut list, mut lw) = (Vec::new(), W::new().u32(count as u32).done());
    for _ in 0..count {
        let (pk, pkw) = key(rng, 1);
        let (al, alw) = addr(rng);
        let (v, s) = (n32(rng), blob(rng, 1));
        lw = W(lw).raw(&pkw).raw(&alw).u32(v).bytes(&s).done();
        list.push(dht::NodeOwned { id: pk, addr_list: al, version: v, signature: Bytes::from(s) });
    }
    let refs = dht::Nodes { nodes: list.iter().map(|n| n.as_equivalent_ref()).collect() };
    both!(k, "dht.nodes", dht::Nodes, refs, lw.clone());
    both!(k, "dht.nodes (owned)", dht::NodesOwned, dht::NodesOwned { nodes: list.clone() }, lw.clone());
    k.sent("dht.nodes (boxed)", &tl_proto::serialize_as_boxed(dht::NodesOwned { nodes: list.clone() }), &W::new().u32(id::DHT_NODES).raw(&lw).done());
    let dk = dht::Key { id: &h, name: &a, idx: x };
    let dkw = W::new().raw(&h).bytes(&a).u32(x).done();
    both!(k, "dht.key", dht::Key, dk, dkw.clone());
    both!(k, "dht.key (owned)", dht::KeyOwned, dk.as_equivalent_owned(), dkw.clone());
    both!(k, "dht.key (ref of owned)", dht::Key, dk.as_equivalent_owned().as_equivalent_ref(), dkw.clone());
    if tl_proto::hash_as_boxed(dk) != sha256(&W::new().u32(id::DHT_KEY).raw(&dkw).done()) {
        k.ctx.violation("hash", "the id of a DHT key is not the hash of its encoding");
    }
    for (rule, rid) in [(dht::UpdateRule::Anybody, id::DHT_RULE_ANYBODY), (dht::UpdateRule::OverlayNodes, id::DHT_RULE_OVERLAY), (dht::UpdateRule::Signature, id::DHT_RULE_SIGNATURE)] {
        both!(k, "dht.updateRule", dht::UpdateRule, rule, W::new().u32(rid).done());
        let kd = dht::KeyDescription { key: dk, id: pk.as_equivalent_ref(), update_rule: rule, signature: &b };
        let kdw = W::new().raw(&dkw).raw(&pkw).u32(rid).bytes(&b).done();
        both!(k, "dht.keyDescription", dht::KeyDescription, kd, kdw.clone());
        both!(k, "dht.keyDescription (owned)", dht::KeyDescriptionOwned, kd.as_equivalent_owned(), kdw.clone());
        k.sent("dht.keyDescription (boxed)", &tl_proto::serialize_as_boxed(kd), &W::new().u32(id::DHT_KEY_DESC).raw(&kdw).done());
        let v = dht::Value { key: kd, value: &a, ttl: y, signature: &b };
        let vw = W::new().raw(&kdw).bytes(&a).u32(y).bytes(&b).done();
        both!(k, "dht.value", dht::Value, v, vw.clone());
        both!(k, "dht.value (owned)", dht::ValueOwned, v.as_equivalent_owned(), vw.clone());
        both!(k, "dht.value (ref of owned)", dht::Value, v.as_equivalent_owned().as_equivalent_ref(), vw.clone());
        both!(k, "dht.store", rpc::DhtStore, rpc::DhtStore { value: v }, W::new().u32(id::DHT_STORE).raw(&vw).done());
        // value results are written owned and read by reference
        let fw = W::new().u32(id::DHT_FOUND).u32(id::DHT_VALUE).raw(&vw).done();
        k.sent("dht.valueFound", &tl_proto::serialize(dht::ValueResultOwned::ValueFound(tl_proto::BoxedWrapper(v.as_equivalent_owned()))), &fw);
        match tl_proto::deserialize::<dht::ValueResult>(&fw) {
            Ok(dht::ValueResult::ValueFound(v)) if tl_proto::serialize(v.0) == vw => {}
            _ => k.ctx.violation("decoding", "dht.valueFound is not parsed"),
        }
    }
    let nf = W::new().u32(id::DHT_NOT_FOUND).raw(&lw).done();
    k.sent("dht.valueNotFound", &tl_proto::serialize(dht::ValueResultOwned::ValueNotFound(dht::NodesOwned { nodes: list })), &nf);
    match tl_proto::deserialize::<dht::ValueResult>(&nf) {
        Ok(dht::ValueResult::ValueNotFound(v)) if tl_proto::serialize(&v) == lw => {}
        _ => k.ctx.violation("decoding", "dht.valueNotFound is not parsed"),
    }
    both!(k, "dht.pong", dht::Pong, dht::Pong { random_id: q }, W::new().u32(id::DHT_PONG).u64(q).done());
    both!(k, "dht.stored", dht::Stored, dht::Stored, W::new().u32(id::DHT_STORED).done());
    both!(k, "dht.ping", rpc::DhtPing, rpc::DhtPing { random_id: q }, W::new().u32(id::DHT_PING).u64(q).done());
    both!(k, "dht.findNode", rpc::DhtFindNode, rpc::DhtFindNode { key: &h, k: x }, W::new().u32(id::DHT_FIND_NODE).raw(&h).u32(x).done());
    both!(k, "dht.findValue", rpc::DhtFindValue, rpc::DhtFindValue { key: &h, k: x }, W::new().u32(id::DHT_FIND_VALUE).raw(&h).u32(x).done());
    both!(k, "dht.getSignedAddressList", rpc::DhtGetSignedAddressList, rpc::DhtGetSignedAddressList, W::new().u32(id::DHT_GET_ADDR).done());
    // overlays
    let on = overlay::Node { id: pk.as_equivalent_ref(), overlay: &h, version: x, signature: &a };
    let onw = W::new().raw(&pkw).raw(&h).u32(x).bytes(&a).done();
    both!(k, "overlay.node", overlay::Node, on, onw.clone());
    both!(k, "overlay.node (owned)", overlay::NodeOwned, on.as_equivalent_owned(), onw.clone());
    both!(k, "overlay.node (ref of owned)", overlay::Node, on.as_equivalent_owned().as_equivalent_ref(), onw.clone());
    let mut ol = vec![on];
    let other = blob(rng, 1);
    for i in 0..rng.gen_range(0..7) {
        ol.push(overlay::Node { id: PublicKey::Ed25519 { key: &h2 }, overlay: &h2, version: i, signature: &other });
    }
    let olw = ol.iter().enumerate().fold(W::new().u32(ol.len() as u32), |w, (i, n)| {
        if i == 0 {
            w.raw(&onw)
        } else {
            w.pubkey(&h2).raw(&h2).u32(n.version).bytes(&other)
        }
    });
    let olw = olw.done();
    let owned = overlay::NodesOwned { nodes: ol.iter().map(|n| n.as_equivalent_owned()).collect() };
    let refs = || overlay::Nodes { nodes: ol.iter().copied().collect() };
    both!(k, "overlay.nodes", overlay::Nodes, refs(), olw.clone());
    both!(k, "overlay.nodes (owned)", overlay::NodesOwned, owned.clone(), olw.clone());
    k.sent("overlay.nodes (boxed)", &tl_proto::serialize_as_boxed(owned.clone()), &W::new().u32(id::OV_NODES).raw(&olw).done());
    let grw = W::new().u32(id::OV_GET_RANDOM).raw(&olw).done();
    both!(k, "overlay.getRandomPeers", rpc::OverlayGetRandomPeers, rpc::OverlayGetRandomPeers { peers: refs() }, grw.clone());
    both!(k, "overlay.getRandomPeers (owned)", rpc::OverlayGetRandomPeersOwned, rpc::OverlayGetRandomPeersOwned { peers: owned }, grw);
    both!(k, "overlay.query", rpc::OverlayQuery, rpc::OverlayQuery { overlay: &h }, W::new().u32(id::OV_QUERY).raw(&h).done());
    both!(k, "overlay.message", overlay::Message, overlay::Message { overlay: &h }, W::new().u32(id::OV_MESSAGE).raw(&h).done());
    k.sent("overlay.node.toSign", &tl_proto::serialize(overlay::NodeToSign { id: &h, overlay: &h2, version: x }), &W::new().u32(id::OV_TO_SIGN).raw(&h).raw(&h2).u32(x).done());
    k.sent(
        "tonNode.shardPublicOverlayId",
        &tl_proto::serialize(overlay::ShardPublicOverlayId { workchain: x as i32, shard: q, zero_state_file_hash: &h }),
        &W::new().u32(id::SHARD_OVERLAY_ID).u32(x).u64(q).raw(&h).done(),
    );
    let (cert, cw) = if rng.gen() {
        (overlay::Certificate::EmptyCertificate, W::new().u32(id::OV_EMPTY_CERT).done())
    } else {
        (
            overlay::Certificate::Certificate { issued_by: pk.as_equivalent_ref(), expire_at: x, max_size: y, signature: &b },
            W::new().u32(id::OV_CERT).raw(&pkw).u32(x).u32(y).bytes(&b).done(),
        )
    };
    both!(k, "overlay.certificate", overlay::Certificate, cert, cw.clone());
    type B<'a> = overlay::Broadcast<'a>;
    let src = pk.as_equivalent_ref();
    both!(
        k,
        "overlay.broadcast",
        B,
        B::Broadcast(overlay::OverlayBroadcast { src, certificate: cert, flags: x, data: &a, date: y, signature: &b }),
        W::new().u32(id::OV_BCAST).raw(&pkw).raw(&cw).u32(x).bytes(&a).u32(y).bytes(&b).done()
    );
    both!(
        k,
        "overlay.broadcastFec",
        B,
        B::BroadcastFec(overlay::OverlayBroadcastFec { src, certificate: cert, data_hash: &h, data_size: x, flags: y, data: &a, seqno: z, fec, date: u, signature: &b }),
        W::new().u32(id::OV_BCAST_FEC).raw(&pkw).raw(&cw).raw(&h).u32(x).u32(y).bytes(&a).u32(z).raw(&few).u32(u).bytes(&b).done()
    );
    both!(
        k,
        "overlay.broadcastFecShort",
        B,
        B::BroadcastFecShort { src, certificate: cert, broadcast_hash: &h, part_data_hash: &h2, seqno: x, signature: &a },
        W::new().u32(id::OV_BCAST_FEC_SHORT).raw(&pkw).raw(&cw).raw(&h).raw(&h2).u32(x).bytes(&a).done()
    );
    both!(k, "overlay.broadcastNotFound", B, B::BroadcastNotFound, W::new().u32(id::OV_NOT_FOUND).done());
    both!(k, "overlay.fec.completed", B, B::FecCompleted { hash: &h }, W::new().u32(id::OV_FEC_COMPLETED).raw(&h).done());
    both!(k, "overlay.fec.received", B, B::FecReceived { hash: &h }, W::new().u32(id::OV_FEC_RECEIVED).raw(&h).done());
    both!(k, "overlay.unicast", B, B::Unicast { data: &a }, W::new().u32(id::OV_UNICAST).bytes(&a).done());
}

/// `adnl.packetContents`: every combination of options.
fn packets(ctx: &C, k: &mut Ck, rng: &mut SmallRng, n: u64) {
    let msgs: Vec<Msg> = (0..rng.gen_range(0..4))
        .map(|_| match rng.gen_range(0..6) {
            0 => Msg::Nop,
            1 => Msg::Query { id: rand32(rng), data: blob(rng, 1) },
            2 => Msg::Create { key: rand32(rng), date: n32(rng) },
            3 => Msg::Part { hash: rand32(rng), total: n32(rng), offset: n32(rng), data: blob(rng, 1) },
            4 => Msg::Reinit(n32(rng)),
            _ => Msg::Custom(blob(rng, 1)),
        })
        .collect();
    let mut opt = || rng.gen::<bool>();
    let o: Vec<bool> = (0..11).map(|_| opt()).collect();
    let l = [3usize, 7][rng.gen_range(0..2)];
    let c = Contents {
        rand1: rand_bytes(rng, l),
        from: o[0].then(|| rand32(rng)),
        from_short: o[1].then(|| rand32(rng)),
        messages: msgs.iter().map(|m| m.ser()).collect(),
        force_vec: o[2],
        single: None,
        address: o[3].then(|| AddrList { addrs: (0..rng.gen_range(0..3)).map(|_| (n32(rng), n32(rng))).collect(), version: n32(rng), reinit_date: n32(rng), priority: n32(rng), expire_at: n32(rng) }),
        priority_address: o[4].then(|| AddrList { addrs: vec![(n32(rng), n32(rng))], version: n32(rng), reinit_date: n32(rng), priority: n32(rng), expire_at: n32(rng) }),
        seqno: o[5].then(|| n64(rng)),
        confirm_seqno: o[6].then(|| n64(rng)),
        recv_ver: o[7].then(|| n32(rng)),
        recv_prio_ver: o[8].then(|| n32(rng)),
        reinit: o[9].then(|| (n32(rng), n32(rng))),
        signature: o[10].then(|| rand_bytes(rng, 64)),
        rand2: rand_bytes(rng, 10 - l),
        flags_xor: 0,
    };
    let d = c.ser(true);
    if d.len() > 60_000 {
        return;
    }
    let flags = o.iter().fold(0u32, |f, b| f << 1 | *b as u32);
    let has_messages = !msgs.is_empty() || c.force_vec;
    ctx.count("packets", 1);
    ctx.case(("packet", flags % 256, msgs.len()));
    if k.keep {
        k.corpus.push(("packet", d.clone()));
    }
    match tl_proto::deserialize::<adnl::IncomingPacketContents>(&d) {
        // a packet without messages carries nothing
        Err(_) if !has_messages => {}
        Err(e) => ctx.violation("decoding", format!("a packet with flags {flags:011b} is not parsed: {e} {}", short(&d))),
        Ok(p) => {
            let m: Vec<Vec<u8>> = p.messages.iter().map(|m| tl_proto::serialize(*m)).collect();
            let a = c.address.as_ref();
            let ok = p.from.map(tl_proto::serialize) == c.from.map(|f| W::new().pubkey(&f).done())
                && p.from_short.copied() == c.from_short
                && m == c.messages
                && p.seqno == c.seqno
                && p.confirm_seqno == c.confirm_seqno
                && p.reinit_dates.map(|r| (r.local, r.target)) == c.reinit
                && p.address.map(|a| (a.version, a.reinit_date, a.expire_at, a.address.map(|x| (x.ip, x.port)))) == a.map(|a| (a.version, a.reinit_date, a.expire_at, a.addrs.first().copied()))
                && p.signature.is_some() == c.signature.is_some();
            if !ok {
                ctx.violation("decoding", format!("a packet with flags {flags:011b} is parsed as another one: {}", short(&d)));
            }
            if let Some(s) = p.signature {
                let mut buf = d.clone();
                // SAFETY: called once on a packet of its own
                let r = unsafe { s.extract(&mut buf) }.map(|(b, s)| (b.to_vec(), s));
                match r {
                    Some((b, s)) if b == c.ser(false) && Some(s.to_vec()) == c.signature => {}
                    _ => ctx.violation("decoding", format!("what a packet signature covers is not the packet without it (flags {flags:011b})")),
                }
            }
        }
    }
    // as the node writes it
    if n % 2 == 0 && !msgs.is_empty() {
        let raw: Vec<u8> = msgs.iter().take(2).flat_map(|m| m.ser()).collect();
        let (al, _) = addr(rng);
        let sig = rand_bytes(rng, 64);
        let signed = rng.gen::<bool>();
        let from = c.from;
        let p = adnl::OutgoingPacketContents {
            rand1: &c.rand1,
            from: from.as_ref().map(|key| PublicKey::Ed25519 { key }),
            messages: if msgs.len() == 1 { adnl::OutgoingMessages::Single(&raw) } else { adnl::OutgoingMessages::Pair(&raw) },
            address: al,
            seqno: c.seqno.unwrap_or(5),
            confirm_seqno: c.confirm_seqno.unwrap_or(6),
            reinit_dates: c.reinit.map(|(local, target)| adnl::ReinitDates { local, target }),
            signature: signed.then_some(&sig[..]),
            rand2: &c.rand2,
        };
        let want = Contents {
            rand1: c.rand1.clone(),
            from,
            messages: msgs.iter().take(2).map(|m| m.ser()).collect(),
            address: Some(AddrList {
                addrs: al.address.iter().map(|a| (a.ip, a.port)).collect(),
                version: al.version,
                reinit_date: al.reinit_date,
                priority: 0,
                expire_at: al.expire_at,
            }),
            seqno: Some(c.seqno.unwrap_or(5)),
            confirm_seqno: Some(c.confirm_seqno.unwrap_or(6)),
            reinit: c.reinit,
            signature: signed.then(|| sig.clone()),
            rand2: c.rand2.clone(),
            ..Default::default()
        };
        let got = tl_proto::serialize(p);
        k.sent("adnl.packetContents", &got, &want.ser(true));
    }
}

/// Names derived by hashing.
fn ids(ctx: &C, rng: &mut SmallRng) {
    use everscale_network::overlay::IdFull;
    for i in 0..100 {
        let secret = everscale_crypto::ed25519::SecretKey::from_bytes(rand32(rng));
        let public = everscale_crypto::ed25519::PublicKey::from(&secret);
        let full = everscale_network::adnl::NodeIdFull::new(public);
        let w = W::new().pubkey(public.as_bytes()).done();
        if full.compute_short_id().as_slice() != &sha256(&w) || tl_proto::serialize(full.as_tl()) != w {
            ctx.violation("hash", "the short id of a node is not the hash of its key");
        }
        let wc: i32 = [-1, 0, 1, i32::MIN, i32::MAX, rng.gen()][rng.gen_range(0..6)];
        let h = rand32(rng);
        let o = IdFull::for_workchain_overlay(wc, &h);
        let want = sha256(&W::new().u32(id::SHARD_OVERLAY_ID).u32(wc as u32).u64(1 << 63).raw(&h).done());
        if o.as_slice() != &want || o.compute_short_id().as_slice() != &sha256(&W::new().u32(id::PUB_OVERLAY).bytes(&want).done()) {
            ctx.violation("hash", "the id of a workchain overlay is not as the scheme says");
        }
        let nodes: Vec<[u8; 32]> = (0..i % 20).map(|_| rand32(rng)).collect();
        let o = IdFull::for_catchain_overlay(&h, nodes.iter());
        let w = nodes.iter().fold(W::new().u32(id::CATCHAIN_FIRST).raw(&h).u32(nodes.len() as u32), |w, n| w.raw(n));
        if o.as_slice() != &sha256(&w.done()) {
            ctx.violation("hash", "the id of a catchain overlay is not as the scheme says");
        }
        ctx.count("ids", 3);
        ctx.case(("ids", i));
    }
}

type Parser = fn(&[u8]) -> Option<(Vec<u8>, usize)>;
fn value_result(d: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut o = 0;
    let v = dht::ValueResult::read_from(d, &mut o).ok()?;
    let v = match v {
        dht::ValueResult::ValueFound(v) => dht::ValueResultOwned::ValueFound(tl_proto::BoxedWrapper(v.0.as_equivalent_owned())),
        dht::ValueResult::ValueNotFound(n) => dht::ValueResultOwned::ValueNotFound(n),
    };
    Some((tl_proto::serialize(v), o))
}
fn contents(d: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut o = 0;
    let p = adnl::IncomingPacketContents::read_from(d, &mut o).ok()?;
    if let Some(s) = p.signature {
        let mut buf = d.to_vec();
        // SAFETY: called once on a packet of its own
        if let Some((b, _)) = unsafe { s.extract(&mut buf) } {
            std::hint::black_box(b.len());
        }
    }
    let c = Contents {
        rand1: vec![1, 2, 3],
        // (keys of other kinds have no place here)
        from: match p.from {
            Some(PublicKey::Ed25519 { key }) => Some(*key),
            _ => None,
        },
        from_short: p.from_short.copied(),
        messages: p.messages.iter().map(|m| tl_proto::serialize(*m)).collect(),
        force_vec: p.messages.len() != 1,
        single: None,
        address: p.address.map(|a| AddrList { addrs: a.address.iter().map(|a| (a.ip, a.port)).collect(), version: a.version, reinit_date: a.reinit_date, priority: 0, expire_at: a.expire_at }),
        seqno: p.seqno,
        confirm_seqno: p.confirm_seqno,
        reinit: p.reinit_dates.map(|r| (r.local, r.target)),
        rand2: vec![1, 2, 3],
        ..Default::default()
    };
    Some((c.ser(false), o))
}
fn boxed<'a, T: TlRead<'a, Repr = tl_proto::Bare> + TlWrite<Repr = tl_proto::Bare> + tl_proto::BoxedConstructor>(d: &'a [u8]) -> Option<(Vec<u8>, usize)> {
    again::<tl_proto::BoxedWrapper<T>>(d)
}
const PARSERS: [(&str, Parser); 36] = [
    ("adnl.Message", |d| again::<adnl::Message>(d)),
    ("adnl.addressList", |d| again::<adnl::AddressList>(d)),
    ("adnl.Address", |d| again::<adnl::Address>(d)),
    ("adnl.Pong", |d| again::<adnl::Pong>(d)),
    ("adnl.ping", |d| again::<rpc::AdnlPing>(d)),
    ("packetContents", contents),
    ("rldp.Message", |d| again::<rldp::Message>(d)),
    ("rldp.MessagePart", |d| again::<rldp::MessagePart>(d)),
    ("fec.raptorQ", |d| again::<rldp::RaptorQFecType>(d)),
    ("dht.ValueResult", value_result),
    ("dht.nodes", |d| again::<dht::Nodes>(d)),
    ("dht.nodes owned", |d| again::<dht::NodesOwned>(d)),
    ("boxed dht.nodes", |d| boxed::<dht::NodesOwned>(d)),
    ("dht.node", |d| again::<dht::Node>(d)),
    ("boxed dht.node", |d| boxed::<dht::NodeOwned>(d)),
    ("dht.value", |d| again::<dht::Value>(d)),
    ("dht.value owned", |d| again::<dht::ValueOwned>(d)),
    ("dht.keyDescription", |d| again::<dht::KeyDescription>(d)),
    ("dht.key", |d| again::<dht::Key>(d)),
    ("dht.updateRule", |d| again::<dht::UpdateRule>(d)),
    ("dht.pong", |d| again::<dht::Pong>(d)),
    ("dht.stored", |d| again::<dht::Stored>(d)),
    ("dht.ping", |d| again::<rpc::DhtPing>(d)),
    ("dht.findNode", |d| again::<rpc::DhtFindNode>(d)),
    ("dht.findValue", |d| again::<rpc::DhtFindValue>(d)),
    ("dht.store", |d| again::<rpc::DhtStore>(d)),
    ("dht.query", |d| again::<rpc::DhtQuery>(d)),
    ("overlay.nodes", |d| again::<overlay::Nodes>(d)),
    ("overlay.nodes owned", |d| again::<overlay::NodesOwned>(d)),
    ("boxed overlay.nodes", |d| boxed::<overlay::NodesOwned>(d)),
    ("overlay.node", |d| again::<overlay::Node>(d)),
    ("overlay.Broadcast", |d| again::<overlay::Broadcast>(d)),
    ("overlay.Certificate", |d| again::<overlay::Certificate>(d)),
    ("overlay.getRandomPeers", |d| again::<rpc::OverlayGetRandomPeers>(d)),
    ("overlay.query", |d| again::<rpc::OverlayQuery>(d)),
    ("overlay.message", |d| again::<overlay::Message>(d)),
];

pub fn distorted(ctx: &C, rng: &mut SmallRng, corpus: &[(&'static str, Vec<u8>)]) {
    let pick = |rng: &mut SmallRng| corpus[rng.gen_range(0..corpus.len())].1.clone();
    let mut d = if rng.gen_range(0..20) == 0 {
        let l = rng.gen_range(0..300);
        rand_bytes(rng, l)
    } else {
        pick(rng)
    };
    for _ in 0..rng.gen_range(0..5) {
        let len = d.len();
        if len == 0 {
            break;
        }
        let i = rng.gen_range(0..len);
        match rng.gen_range(0..9) {
            0 => d[i] ^= 1 << rng.gen_range(0..8),
            1 => d[i] = [0, 1, 3, 252, 253, 254, 255][rng.gen_range(0..7)],
            2 => d.truncate(i),
            3 => {
                let j = i & !3;
                let v = [0u32, 1, 2, 1 << 31, u32::MAX, len as u32, 0x00ff_fffe, 0xff_fffffe][rng.gen_range(0..8)];
                for (k, b) in v.to_le_bytes().iter().enumerate() {
                    if let Some(x) = d.get_mut(j + k) {
                        *x = *b;
                    }
                }
            }
            4 => {
                let l = rng.gen_range(1..9);
                let x = rand_bytes(rng, l);
                d.splice(i..i, x);
            }
            5 => {
                let j = (i + rng.gen_range(1..40)).min(len);
                d.drain(i..j);
            }
            6 => {
                let o = pick(rng);
                let j = rng.gen_range(0..=o.len());
                d.truncate(i);
                d.extend_from_slice(&o[j..]);
            }
            7 => {
                // exchange words
                let (a, b) = (i & !3, rng.gen_range(0..len) & !3);
                if a.max(b) + 4 <= len {
                    for k in 0..4 {
                        d.swap(a + k, b + k);
                    }
                }
            }
            _ => {
                let l = rng.gen_range(0..12);
                d.extend(rand_bytes(rng, l));
            }
        }
    }
    ctx.count("distorted", 1);
    for (name, p) in PARSERS {
        let r = std::panic::catch_unwind(|| p(&d));
        let Ok(r) = r else {
            return ctx.violation("panic", format!("parsing {name} from {} panics", short(&d)));
        };
        let Some((s, used)) = r else { continue };
        ctx.count("distorted_accepted", 1);
        if used > d.len() {
            ctx.violation("decoding", format!("{name} used {used} of {} bytes", d.len()));
        }
        match p(&s) {
            Some((t, used)) if t == s && used == s.len() => {}
            _ => ctx.violation("unstable", format!("{name} parsed from {} is written as {} which parses differently", short(&d), short(&s))),
        }
        ctx.case(("distorted", name, used.min(64)));
    }
    let _ = proto::rldp::Message::read_from(&d, &mut 0).is_ok();
}
