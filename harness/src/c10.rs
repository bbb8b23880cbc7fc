//! C10: only legitimate peers enter the peer table.
use std::collections::{HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use everscale_network::adnl::{self, NewPeerContext, NodeIdShort};
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one attempt to add or move a peer (by call or by packet) checked against a model of the peer table; non-trivial because accepted and refused attempts alternate on the same table; distinct by way, kind of address or identity and expected outcome");
    let mut rng = ctx.rng(10);
    let mut round = 0u64;
    while ctx.within(30, 600) && (round < 3 || !ctx.quick()) {
        calls(&ctx, &mut rng, round).await;
        packets(&ctx, &mut rng, round).await;
        moves(&ctx, &mut rng).await;
        silence(&ctx, &mut rng).await;
        round += 1;
    }
    ctx.require("accepted", 100);
    ctx.require("refused", 100);
    ctx.require("moves", 10);
    ctx.require("silent_strangers", 10);
}

struct Filter {
    /// (context, address, peer) as asked
    asked: Mutex<Vec<(NewPeerContext, SocketAddrV4, [u8; 32])>>,
    refuse_ports: Mutex<HashSet<u16>>,
    refuse_ids: Mutex<HashSet<[u8; 32]>>,
    /// bit per context
    refuse_ctx: AtomicU32,
}
fn bit(c: NewPeerContext) -> u32 {
    match c {
        NewPeerContext::AdnlPacket => 1,
        NewPeerContext::Dht => 2,
        NewPeerContext::PublicOverlay => 4,
    }
}
impl adnl::PeerFilter for Filter {
    fn check(&self, ctx: NewPeerContext, addr: SocketAddrV4, peer_id: &NodeIdShort) -> bool {
        self.asked.lock().unwrap().push((ctx, addr, *peer_id.as_slice()));
        !self.refuse_ports.lock().unwrap().contains(&addr.port())
            && !self.refuse_ids.lock().unwrap().contains(peer_id.as_slice())
            && self.refuse_ctx.load(Ordering::SeqCst) & bit(ctx) == 0
    }
}
fn filter() -> Arc<Filter> {
    Arc::new(Filter { asked: Default::default(), refuse_ports: Default::default(), refuse_ids: Default::default(), refuse_ctx: Default::default() })
}

/// Model-based: random add / remove / look up against a map per local identity.
async fn calls(ctx: &C, rng: &mut SmallRng, round: u64) {
    let f = filter();
    let own_ip = next_ip();
    let node = TestNode::start_ext(own_ip, 0, (0..2).map(|_| Ident::gen(rng)).collect(), default_opts(), Rec::echo(), Some(f.clone()));
    let idents: Vec<Ident> = (0..10).map(|_| Ident::gen(rng)).collect();
    let mut model: [HashMap<[u8; 32], SocketAddrV4>; 2] = Default::default();
    let foreign = sid(&rand32(rng));
    let ctxs = [NewPeerContext::AdnlPacket, NewPeerContext::Dht, NewPeerContext::PublicOverlay];
    f.refuse_ids.lock().unwrap().insert(idents[9].short);
    for _ in 0..ctx.pick(250, 1500) {
        let l = rng.gen_range(0..2usize);
        let i = rng.gen_range(0..10usize);
        let pid = sid(&idents[i].short);
        match rng.gen_range(0..10) {
            0..=5 => {
                let c = ctxs[rng.gen_range(0..3)];
                let mut kind = "plain";
                let mut addr = SocketAddrV4::new(Ipv4Addr::new(10, 0, rng.gen(), rng.gen()), rng.gen_range(1..60000));
                let mut peer = pid;
                let mut full = fid(&idents[i].public);
                let mut ok = i != 9;
                match rng.gen_range(0..9) {
                    0 => {
                        kind = "own id";
                        peer = node.id(l);
                        full = fid(&node.pk(l));
                        ok = false;
                    }
                    1 => {
                        kind = "own address";
                        addr = node.addr();
                        ok = false;
                    }
                    2 => {
                        kind = "own ip, other port";
                        addr = SocketAddrV4::new(own_ip, node.port() ^ 1);
                    }
                    3 => {
                        kind = "refused port";
                        f.refuse_ports.lock().unwrap().insert(addr.port());
                        ok = false;
                    }
                    4 => {
                        kind = "refused context";
                        f.refuse_ctx.store(bit(c), Ordering::SeqCst);
                        ok = false;
                    }
                    5 => {
                        kind = "other context refused";
                        f.refuse_ctx.store(7 & !bit(c), Ordering::SeqCst);
                    }
                    _ => {}
                }
                f.asked.lock().unwrap().clear();
                let r = node.adnl.add_peer(c, &node.id(l), &peer, addr, full);
                f.refuse_ctx.store(0, Ordering::SeqCst);
                f.refuse_ports.lock().unwrap().clear();
                let asked = f.asked.lock().unwrap().clone();
                match r {
                    Ok(x) if x == ok => {}
                    r => ctx.violation("add-verdict", format!("adding a peer ({kind}, {c:?}) returned {r:?} instead of {ok}")),
                }
                if ok && asked != vec![(c, addr, *peer.as_slice())] {
                    ctx.violation("filter-not-asked", format!("adding a peer asked the filter {asked:?}, not once about the peer, address and context of the call"));
                }
                if ok {
                    model[l].insert(*peer.as_slice(), addr);
                }
                ctx.count(if ok { "accepted" } else { "refused" }, 1);
                ctx.case(("add", kind, bit(c), ok));
            }
            6 => {
                let r = node.adnl.remove_peer(&node.id(l), &pid);
                let had = model[l].remove(&idents[i].short).is_some();
                if !matches!(r, Ok(x) if x == had) {
                    ctx.violation("remove-verdict", format!("removing a {} peer returned {r:?}", if had { "known" } else { "unknown" }));
                }
                ctx.case(("remove", had));
            }
            7 => {
                let known = model[l].contains_key(&idents[i].short);
                let r = node.adnl.send_custom_message(&node.id(l), &pid, &[1, 2, 3, 4]);
                if r.is_ok() != known {
                    ctx.violation("send-verdict", format!("sending to a {} peer: {:?}", if known { "known" } else { "removed or never added" }, r.is_ok()));
                }
                ctx.case(("send", known));
            }
            8 => {
                if node.adnl.add_peer(NewPeerContext::Dht, &foreign, &pid, SocketAddrV4::new(Ipv4Addr::new(10, 1, 1, 1), 5), fid(&idents[i].public)).unwrap_or(false) {
                    ctx.violation("foreign-local", "a peer was added for a local identity the node does not have");
                }
                if node.adnl.get_peer_address(&foreign, &pid).is_some() {
                    ctx.violation("foreign-local", "a foreign local identity has peers");
                }
                ctx.case("foreign local");
            }
            _ => {
                // find peers by address
                let some: Vec<SocketAddrV4> = model[l].values().copied().take(3).collect();
                let mut e: HashMap<SocketAddrV4, usize, ahash::RandomState> = HashMap::default();
                for (k, a) in some.iter().enumerate() {
                    e.insert(*a, k);
                }
                e.insert(SocketAddrV4::new(Ipv4Addr::new(9, 9, 9, 9), 9), 99);
                match node.adnl.match_peer_addresses(&node.id(l), e) {
                    None => ctx.violation("match", "no result for a local identity"),
                    Some(m) => {
                        for (k, id) in m {
                            if k == 99 || model[l].get(id.as_slice()) != some.get(k) {
                                ctx.violation("match", "an address was matched with the wrong peer");
                            }
                        }
                    }
                }
                ctx.case("match");
            }
        }
        // the whole table against the model
        for l in 0..2 {
            for id in &idents {
                let a = node.adnl.get_peer_address(&node.id(l), &sid(&id.short));
                if a != model[l].get(&id.short).copied() {
                    ctx.violation("table", format!("the peer's address is {a:?}, expected {:?}", model[l].get(&id.short)));
                }
            }
            if node.adnl.get_peer_address(&node.id(l), &node.id(l)).is_some() {
                ctx.violation("self-in-table", "the node is its own peer");
            }
        }
        let n = node.adnl.metrics().peer_count;
        if n != model[0].len() + model[1].len() {
            ctx.violation("table", format!("{n} peers instead of {}", model[0].len() + model[1].len()));
        }
        if ctx.violated() {
            return;
        }
    }
    if round == 0 {
        ctx.sample(json!({"model_sizes": [model[0].len(), model[1].len()]}));
    }
    ctx.check_panics("peer table calls");
}

/// Address lists in authenticated packets.
async fn packets(ctx: &C, rng: &mut SmallRng, round: u64) {
    let f = filter();
    let tol = 60;
    let own_ip = next_ip();
    let node = TestNode::start_ext(own_ip, 0, vec![Ident::gen(rng)], default_opts(), Rec::echo(), Some(f.clone()));
    let mut honest = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    for k in 0..ctx.pick(36, 120) {
        let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
        let now = unix_now();
        let mut list = w.addr_list();
        let variants = 12;
        let v = k % variants;
        let mut ok = true;
        let mut drop_list = false;
        let mut forged = false;
        let name = match v {
            0 => "plain",
            1 => {
                list.expire_at = now + 20;
                "expires later"
            }
            2 => {
                list.expire_at = now - rng.gen_range(2..5000);
                // usually issued before it expired
                list.version = [now, list.expire_at - rng.gen_range(1..500), list.expire_at, 0][rng.gen_range(0..4)];
                ok = false;
                "expired"
            }
            3 => {
                list.reinit_date = now + tol + rng.gen_range(5..1000);
                ok = false;
                "from the future"
            }
            4 => {
                list.reinit_date = now + tol - 4;
                "slightly from the future"
            }
            5 => {
                list.addrs.clear();
                ok = false;
                "empty list"
            }
            6 => {
                drop_list = true;
                ok = false;
                "no list"
            }
            7 => {
                list.addrs = vec![(u32::from(own_ip), node.port() as u32)];
                ok = false;
                "own address"
            }
            8 => {
                f.refuse_ports.lock().unwrap().insert(w.addr.port());
                ok = false;
                "refused address"
            }
            9 => {
                f.refuse_ids.lock().unwrap().insert(w.me.short);
                ok = false;
                "refused id"
            }
            10 => {
                forged = true;
                ok = false;
                "forged signature"
            }
            _ => {
                f.refuse_ctx.store(bit(NewPeerContext::AdnlPacket), Ordering::SeqCst);
                ok = false;
                "packets refused"
            }
        };
        f.asked.lock().unwrap().clear();
        let before = node.adnl.metrics().peer_count;
        let mut d = vec![0x11, 0x12, 0x13, 0x14];
        d.extend(rand_bytes(rng, 12));
        let mut delivered = false;
        for _ in 0..if ok { 4 } else { 1 } {
            let mut c = w.handshake_contents(rng, vec![Msg::Custom(d.clone())]);
            c.address = if drop_list { None } else { Some(list.clone()) };
            let me = w.me.clone();
            WirePeer::sign(&mut c, &me);
            if forged {
                c.signature.as_mut().unwrap()[5] ^= 4;
            }
            w.send_contents(rng, &c).await;
            delivered = node.rec.wait(1, Duration::from_millis(if ok { 1500 } else { 60 }), |e| e.data == d).await;
            if delivered {
                break;
            }
        }
        let asked = f.asked.lock().unwrap().clone();
        f.refuse_ctx.store(0, Ordering::SeqCst);
        let addr = node.adnl.get_peer_address(&node.id(0), &sid(&w.me.short));
        if addr.is_some() != ok || delivered != ok {
            ctx.violation("packet-add", format!("a stranger's packet ({name}): known afterwards = {}, delivered = {delivered}, expected {ok}", addr.is_some()));
        }
        if ok && addr != Some(w.addr) {
            ctx.violation("packet-add", format!("{name}: registered under {addr:?} instead of the listed address"));
        }
        if ok && !asked.iter().any(|x| x.0 == NewPeerContext::AdnlPacket && x.1 == w.addr && x.2 == w.me.short) {
            ctx.violation("filter-not-asked", format!("{name}: the filter was asked {asked:?}"));
        }
        let after = node.adnl.metrics().peer_count;
        if after != before + ok as usize {
            ctx.violation("packet-add", format!("{name}: the number of peers went from {before} to {after}"));
        }
        ctx.count(if ok { "accepted" } else { "refused" }, 1);
        ctx.case(("packet", name, ok));
    }
    if !honest.ping(rng, 5, Duration::from_millis(1500)).await {
        ctx.violation("no-service", "an honest stranger is no longer accepted");
    }
    if round == 0 {
        ctx.sample(json!({"peers_from_packets": node.adnl.metrics().peer_count}));
    }
    ctx.check_panics("peers from packets");
}

/// Where packets go changes only by an add or an authenticated usable list.
async fn moves(ctx: &C, rng: &mut SmallRng) {
    let f = filter();
    let node = TestNode::start_ext(next_ip(), 0, vec![Ident::gen(rng)], default_opts(), Rec::echo(), Some(f.clone()));
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if !w.ping(rng, 5, Duration::from_millis(1500)).await {
        ctx.violation("no-service", "an honest peer is not answered");
        return;
    }
    let mut other = WirePeer::with_ident(w.me.clone(), rng, node.addr(), node.pk(0), Ipv4Addr::LOCALHOST).await;
    other.start = w.start;
    let mut attacker = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    let pid = sid(&w.me.short);
    let mut home = w.addr;
    for k in 0..ctx.pick(16, 60) {
        // (socket to send from, list, expected address)
        let now = unix_now();
        let elsewhere = other.addr;
        let mut expect = home;
        let mut c = w.handshake_contents(rng, vec![Msg::Nop]);
        let mut from_attacker = false;
        let name = match k % 8 {
            0 => {
                c.address = Some(AddrList::one(home, now));
                from_attacker = true; // right list, but sent from elsewhere
                "sent from another socket"
            }
            1 => {
                c.address = None;
                from_attacker = true;
                "no list, sent from another socket"
            }
            2 => {
                c.address = Some(AddrList::one(elsewhere, now));
                expect = elsewhere;
                "new address, authenticated"
            }
            3 => {
                let mut l = AddrList::one(if home == w.addr { other.addr } else { w.addr }, now);
                l.expire_at = now - 10;
                l.version = now - 10 - rng.gen_range(0..2) * 500;
                c.address = Some(l);
                "new address, expired"
            }
            4 => {
                let mut l = AddrList::one(if home == w.addr { other.addr } else { w.addr }, now);
                l.reinit_date = now + 1000;
                c.address = Some(l);
                "new address, future list"
            }
            5 => {
                c.address = Some(AddrList::one(attacker.addr, now));
                from_attacker = true;
                "forged"
            }
            6 => {
                let a = SocketAddrV4::new(Ipv4Addr::LOCALHOST, attacker.addr.port());
                f.refuse_ports.lock().unwrap().insert(a.port());
                c.address = Some(AddrList::one(a, now));
                "refused by the filter"
            }
            _ => {
                c.address = Some(AddrList::one(w.addr, now));
                expect = w.addr;
                "back"
            }
        };
        let me = if name == "forged" { attacker.me.clone() } else { w.me.clone() };
        WirePeer::sign(&mut c, &me);
        let p = seal_handshake(rng, &w.to_short, &w.to_pub, &c.ser(true), None);
        if from_attacker {
            attacker.send_raw(&p).await;
        } else {
            w.send_raw(&p).await;
        }
        let moved = eventually(Duration::from_millis(if expect != home { 1500 } else { 60 }), || node.adnl.get_peer_address(&node.id(0), &pid) == Some(expect) && expect != home).await;
        if expect != home && !moved {
            // one resend against loss
            w.send_raw(&p).await;
            sleep_ms(200).await;
        }
        f.refuse_ports.lock().unwrap().clear();
        let a = node.adnl.get_peer_address(&node.id(0), &pid);
        if a != Some(expect) {
            ctx.violation("moved", format!("{name}: packets now go to {a:?} instead of {expect}"));
        }
        home = a.unwrap_or(home);
        // and really there
        let d = vec![6, 6, 6, 6, k as u8];
        let mut got = false;
        for _ in 0..4 {
            node.adnl.send_custom_message(&node.id(0), &pid, &d).ok();
            let t = if home == w.addr { &mut w } else { &mut other };
            if t.recv_msg(Duration::from_millis(1000), |_, m| matches!(m, Msg::Custom(x) if *x == d).then_some(())).await.is_some() {
                got = true;
                break;
            }
        }
        if !got {
            ctx.violation("moved", format!("{name}: a message to the peer does not arrive at {home}"));
        }
        attacker.drain();
        ctx.count("moves", 1);
        ctx.case(("move", name));
        if ctx.violated() {
            return;
        }
    }
    ctx.check_panics("moves");
}

/// Peers that were removed or never added get nothing.
async fn silence(ctx: &C, rng: &mut SmallRng) {
    let node = TestNode::start(rng, 1, default_opts(), Rec::echo());
    let mut known = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    known.ping(rng, 4, Duration::from_millis(1500)).await;
    for k in 0..ctx.pick(6, 20) {
        let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
        let removed = k % 2 == 0;
        if removed {
            if !w.ping(rng, 4, Duration::from_millis(1500)).await {
                ctx.violation("no-service", "an honest peer is not answered");
                return;
            }
            if k % 4 == 0 && !w.establish_channel(rng).await {
                ctx.violation("no-channel", "an honest peer could not establish a channel");
                return;
            }
            node.adnl.remove_peer(&node.id(0), &sid(&w.me.short)).ok();
        }
        sleep_ms(30).await;
        w.drain();
        let (a, l, p) = (node.adnl.clone(), node.id(0), sid(&w.me.short));
        let r = run_node(async move { (a.send_custom_message(&l, &p, &[1, 2, 3, 4]).is_ok(), a.query_raw(&l, &p, vec![1, 2, 3, 4].into(), Some(100)).await.is_ok()) }).await;
        if r != Some((false, false)) {
            ctx.violation("sent-to-stranger", format!("sending to a {} peer: {r:?}", if removed { "removed" } else { "never added" }));
        }
        // a query by short id or in the old channel is not answered either
        let qid: [u8; 32] = rng.gen();
        let mut c = w.handshake_contents(rng, vec![Msg::Query { id: qid, data: W::new().u32(id::PING).u64(1).done() }]);
        c.from = None;
        c.from_short = Some(w.me.short);
        c.address = None;
        let me = w.me.clone();
        WirePeer::sign(&mut c, &me);
        w.send_contents(rng, &c).await;
        if w.chan.is_some() {
            w.send_ch(rng, vec![Msg::Query { id: qid, data: W::new().u32(id::PING).u64(1).done() }], false).await;
        }
        known.ping(rng, 4, Duration::from_millis(1500)).await;
        sleep_ms(50).await;
        if w.drain() > 0 {
            ctx.violation("sent-to-stranger", format!("the node sent datagrams to a {} peer", if removed { "removed" } else { "never added" }));
        }
        ctx.count("silent_strangers", 1);
        ctx.case(("silence", removed, w.chan.is_some()));
    }
    ctx.check_panics("silence");
}
