//! C27: small scenes for the undefined-behaviour interpreter (`evmon C27.<scene>`), which also run natively.
//! Only what the interpreter or a sanitizer reports counts here; the scenes keep going whatever is answered.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use everscale_network::adnl::{self, NodeIdShort, PeersSet};
use everscale_network::{overlay, rldp};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::dhtw::*;
use crate::nodes::*;
use crate::overw::*;
use crate::rldpw::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

const SLOW: bool = cfg!(miri);

fn n(slow: usize, fast: usize) -> usize {
    if SLOW {
        slow
    } else {
        fast
    }
}

pub async fn run(ctx: C, scene: &str) {
    ctx.rule("one case = one operation or datagram whose processing by the real code was watched by the interpreter");
    let mut rng = ctx.rng(27);
    match scene {
        "net" => net(&ctx, &mut rng).await,
        "hostile" => hostile(&ctx, &mut rng, true).await,
        "channel" => hostile(&ctx, &mut rng, false).await,
        "rldp" => rldp_scene(&ctx, &mut rng).await,
        "overlay" => overlay_scene(&ctx, &mut rng).await,
        "dht" => dht_scene(&ctx, &mut rng).await,
        "peers" => peers(&ctx, &mut rng),
        "tl" => tl_scene(&ctx, &mut rng),
        "values" => values(&ctx, &mut rng),
        "iter" => iter_outlives(&ctx),
        other => ctx.inconclusive(format!("no scene {other}")),
    }
}

fn slow_opts() -> adnl::NodeOptions {
    adnl::NodeOptions {
        query_min_timeout_ms: 60_000,
        query_default_timeout_ms: 60_000,
        transfer_timeout_sec: 60,
        packet_history_enabled: true,
        ..default_opts()
    }
}
async fn query(a: &TestNode, b: &TestNode, data: Vec<u8>) -> bool {
    let (x, from, to) = (a.adnl.clone(), a.id(0), b.id(0));
    let f = run_node(async move { x.query_raw(&from, &to, data.into(), Some(60_000)).await });
    matches!(tokio::time::timeout(Duration::from_secs(70), f).await, Ok(Some(Ok(Some(_)))))
}

/// Two nodes: first contact, channels, messages in one and in several packets, removal, shutdown.
async fn net(ctx: &C, rng: &mut SmallRng) {
    let a = TestNode::start(rng, 1, slow_opts(), Rec::echo());
    let b = TestNode::start(rng, 1, adnl::NodeOptions { version: Some(0), packet_signature_required: false, ..slow_opts() }, Rec::echo());
    a.know(0, &b, 0);
    b.know(0, &a, 0);
    for (i, len) in [40usize, 1500, 8, 2600].into_iter().take(n(3, 4)).enumerate() {
        let data = rand_bytes(rng, len);
        let ok = if i % 3 == 2 { query(&b, &a, data).await } else { query(&a, &b, data).await };
        ctx.count("queries", 1);
        ctx.count("answers", ok as u64);
        ctx.case(("query", i, len, ok));
    }
    // both at once
    for i in 0..n(1, 20) {
        let (x, y) = (rand_bytes(rng, 30 + i), rand_bytes(rng, 1200 + i));
        let (p, q) = tokio::join!(query(&a, &b, x), query(&b, &a, y));
        ctx.count("answers", p as u64 + q as u64);
        ctx.case(("both", i, p, q));
    }
    for i in 0..n(3, 50) {
        let (x, from, to) = (a.adnl.clone(), a.id(0), b.id(0));
        let d = rand_bytes(rng, 20 + 300 * i);
        run_node(async move { x.send_custom_message(&from, &to, &d).ok() }).await;
        ctx.case(("custom", i));
    }
    b.rec.wait(3, Duration::from_secs(20), |e| !e.query).await;
    ctx.count("customs", b.rec.count(|e| !e.query) as u64);
    a.adnl.remove_peer(&a.id(0), &b.id(0)).ok();
    let late = tokio::time::timeout(Duration::from_secs(n(8, 1) as u64), query(&b, &a, vec![5; 40])).await;
    ctx.case(("removed", late.is_ok()));
    a.adnl.shutdown();
    b.adnl.shutdown();
}

/// Datagrams of every length and every kind of distortion.
async fn hostile(ctx: &C, rng: &mut SmallRng, handshakes: bool) {
    let opts = adnl::NodeOptions { packet_signature_required: rng.gen(), ..slow_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    let pinged = w.ping(rng, 3, Duration::from_secs(60)).await;
    ctx.count("pinged", pinged as u64);
    let chan = match !handshakes && w.establish_channel(rng).await {
        true => w.chan.clone(),
        false => None,
    };
    ctx.count("channels", chan.is_some() as u64);
    // short ones, addressed to the node and to the channel
    let mut to = vec![node.idents[0].short, rng.gen()];
    if let Some(c) = &chan {
        to.extend([c.out_id(false), c.out_id(true), c.in_id(false)]);
    }
    for len in 1..n(if handshakes { 106 } else { 80 }, 300) {
        // (from 96 bytes on the expensive key agreement is done)
        if SLOW && (handshakes && (70..94).contains(&len) || len % 3 == 1) {
            continue;
        }
        let mut d = to[len % to.len()].to_vec();
        d.extend(rand_bytes(rng, 300));
        d.truncate(len);
        w.send_raw(&d).await;
        ctx.count("datagrams", 1);
        ctx.case(("short", len, len % to.len()));
    }
    let mut i = 0;
    while ctx.within(n(75, 4) as u64, n(600, 30) as u64) && i < n(4000, 400) {
        i += 1;
        let hs = chan.is_none();
        let mut c = if hs { w.handshake_contents(rng, vec![]) } else { w.channel_contents(rng, vec![]) };
        c.messages = (0..rng.gen_range(0..3)).map(|_| crate::c05::weird_msg(rng, 0)).collect();
        c.force_vec = rng.gen_bool(0.3);
        let kind = rng.gen_range(0..6);
        if hs && rng.gen_bool(0.6) || rng.gen_bool(0.2) {
            let me = w.me.clone();
            WirePeer::sign(&mut c, &me);
        }
        match kind {
            0 => c.signature = Some(rand_bytes(rng, 64)),
            1 => {
                let l = rng.gen_range(0..70);
                c.signature = Some(rand_bytes(rng, l));
            }
            2 => c.rand2 = vec![],
            _ => {}
        }
        let mut d = c.ser(true);
        match rng.gen_range(0..6) {
            0 => {
                let l = rng.gen_range(0..d.len());
                d.truncate(l);
            }
            1 => {
                for _ in 0..rng.gen_range(1..4) {
                    let j = rng.gen_range(0..d.len());
                    d[j] = rng.gen();
                }
            }
            2 => {
                let (j, k) = (rng.gen_range(0..d.len()), rng.gen_range(1..9));
                let x = rand_bytes(rng, k);
                d.splice(j..j, x);
            }
            _ => {}
        }
        let v = [None, Some(0), Some(7)][rng.gen_range(0..3)];
        let p = match &chan {
            Some(ch) => ch.seal(&d, rng.gen(), v),
            None => seal_handshake(rng, &w.to_short, &w.to_pub, &d, v),
        };
        w.send_raw(&p).await;
        ctx.count("datagrams", 1);
        ctx.case(("distorted", hs, kind, sha256(&d)));
        if i % n(4, 20) == 0 {
            // until all that is processed
            sleep_ms(1).await;
            let p = w.ping(rng, 1, Duration::from_secs(n(15, 1) as u64)).await;
            ctx.count("pinged", p as u64);
        }
        w.drain();
    }
}

/// A peer that speaks in a channel to a node.
async fn wire(ctx: &C, rng: &mut SmallRng, n: &TestNode) -> WirePeer {
    let mut w = WirePeer::new(rng, n.addr(), n.pk(0)).await;
    let c = w.establish_channel(rng).await;
    ctx.count("channels", c as u64);
    w
}
/// Sends `m` and now and then waits until all of it is processed.
async fn say(ctx: &C, rng: &mut SmallRng, w: &mut WirePeer, m: Msg, barrier: bool) {
    if w.chan.is_none() {
        return;
    }
    w.send_ch(rng, vec![m], false).await;
    let qid = rand32(rng);
    if barrier {
        let ping = Msg::Query { id: qid, data: W::new().u32(id::PING).u64(7).done() };
        w.send_ch(rng, vec![ping], false).await;
    }
    ctx.count("datagrams", 1);
    if barrier {
        let wait = Duration::from_secs(n(20, 1) as u64);
        let got = w.recv_msg(wait, |_, m| matches!(m, Msg::Answer { id, .. } if *id == qid).then_some(())).await;
        ctx.count("processed", got.is_some() as u64);
    }
}
/// Cuts or changes `d`.
fn distort(rng: &mut SmallRng, d: &mut Vec<u8>) {
    let j = rng.gen_range(0..d.len());
    match rng.gen_range(0..4) {
        0 => d.truncate(j.max(1)),
        1 => {
            let k = (j + rng.gen_range(1..9)).min(d.len());
            d.drain(j..k);
        }
        _ => d[j] = [0, 1, 253, 254, 255, rng.gen()][rng.gen_range(0..6)],
    }
}

async fn rldp_scene(ctx: &C, rng: &mut SmallRng) {
    let rec = Rec::new(|e| Act::Answer((!SLOW).then(|| e.data.iter().rev().cloned().collect())));
    let o = || rldp::NodeOptions { query_min_timeout_ms: 100_000, query_max_timeout_ms: 200_000, query_wave_interval_ms: n(20_000, 10) as u64, query_wave_len: n(1, 4) as u32, ..Default::default() };
    let b = RNode::start(rng, o(), rec.clone());
    if !SLOW {
        let a = RNode::start(rng, o(), rec);
        a.know(&b);
        b.know(&a);
        for (i, len) in [5usize, 1000, 40, 5000].into_iter().enumerate() {
            let q = rand_bytes(rng, len);
            let r = tokio::time::timeout(Duration::from_secs(5), a.query(b.n.idents[0].short, q)).await;
            let ok = matches!(r, Ok(Some(Ok(Some(_)))));
            ctx.count("answers", ok as u64);
            ctx.case(("rldp", i, ok));
        }
    }
    // queries inside a transfer of one symbol, cut and changed
    let mut w = wire(ctx, rng, &b.n).await;
    let mut i = 0u64;
    while ctx.within(n(100, 4) as u64, n(600, 30) as u64) && i < 3000 {
        i += 1;
        let l = if rng.gen() { rng.gen_range(0..20) } else { rng.gen_range(200..700) };
        let mut d = rquery(&rng.gen(), 1 << 16, &rand_bytes(rng, l));
        if i % 3 != 0 {
            distort(rng, &mut d);
        }
        let mut symbol = d.clone();
        symbol.resize(768, 0);
        let m = RM::Part { tid: rng.gen(), fec: Fec::of(d.len()), part: 0, total: d.len() as u64, seqno: 0, data: symbol };
        let mut raw = m.ser();
        if i % 5 == 0 {
            distort(rng, &mut raw);
        }
        say(ctx, rng, &mut w, Msg::Custom(raw), i % 2 == 0).await;
        ctx.case(("rldp transfer", sha256(&d)));
    }
    ctx.count("asked", b.rec.len() as u64);
}

async fn overlay_scene(ctx: &C, rng: &mut SmallRng) {
    let b = OvNode::start(rng);
    let id = rand32(rng);
    let oo = || overlay::OverlayOptions { max_ordinary_broadcast_len: 768, fec_broadcast_wave_interval_ms: n(300, 5) as u64, broadcast_timeout_sec: 300, ..Default::default() };
    let y = b.public(&id, oo());
    if !SLOW {
        let a = OvNode::start(rng);
        let x = a.public(&id, oo());
        x.add(b.me(), b.n.addr());
        y.add(a.me(), a.n.addr());
        for (i, len) in [50usize, 900, 3000].into_iter().enumerate() {
            let d = rand_bytes(rng, len);
            x.send(d.clone());
            let ok = y.wait(&d, Duration::from_secs(5)).await;
            ctx.count("broadcasts", ok as u64);
            ctx.case(("broadcast", i, ok));
        }
    }
    let mut w = wire(ctx, rng, &b.n).await;
    let who = Ident::gen(rng);
    let mut i = 0u64;
    while ctx.within(n(100, 4) as u64, n(600, 30) as u64) && i < 3000 {
        i += 1;
        let l = rng.gen_range(1..100);
        let d = rand_bytes(rng, l);
        let mut raw = if rng.gen() {
            Bcast::new(&who, rng.gen_range(0..2), &d, unix_now()).ser(&id)
        } else {
            let mut p = Part {
                src: who.public,
                cert: None,
                hash: sha256(&d),
                size: d.len() as u32,
                flags: ANY,
                data: d.clone(),
                seqno: 0,
                fec: (d.len() as u32, 768, 1),
                date: unix_now(),
                sig: vec![],
            };
            p.data.resize(768, 0);
            p.sign(&who);
            p.ser(&id)
        };
        if i % 2 == 0 {
            distort(rng, &mut raw);
        }
        say(ctx, rng, &mut w, Msg::Custom(raw), i % 2 == 0).await;
        ctx.case(("overlay message", sha256(&d)));
    }
    ctx.count("broadcasts", y.len() as u64);
}

async fn dht_scene(ctx: &C, rng: &mut SmallRng) {
    let o = || everscale_network::dht::NodeOptions { storage_gc_interval_ms: 3000, ..Default::default() };
    let mk = |rng: &mut SmallRng| DhtNode::start(rng, slow_opts(), o());
    let b = mk(rng);
    if !SLOW {
        let a = mk(rng);
        for (x, y) in [(&a, &b), (&b, &a)] {
            let d = y.desc();
            on_node(|| x.dht.add_dht_peer(d.tl())).ok();
        }
        let (d, addr) = (a.dht.clone(), a.n.addr());
        let r = tokio::time::timeout(Duration::from_secs(5), run_node(async move { d.store_address(&d.key().clone(), addr).await.is_ok() })).await;
        ctx.count("answers", matches!(r, Ok(Some(true))) as u64);
        ctx.case("store");
        let (d, who) = (b.dht.clone(), a.n.id(0));
        let r = tokio::time::timeout(Duration::from_secs(5), run_node(async move { d.find_address(&who).await.is_ok() })).await;
        ctx.count("answers", matches!(r, Ok(Some(true))) as u64);
        ctx.case("find");
        ctx.case(b.dht.iter_known_peers().count());
    }
    let mut w = wire(ctx, rng, &b.n).await;
    let who = Ident::gen(rng);
    let mut i = 0u64;
    while ctx.within(n(100, 4) as u64, n(600, 30) as u64) && i < 3000 {
        i += 1;
        let v = DValue::signed(&who, "address", (i % 3) as u32, rand_bytes(rng, i as usize % 40), unix_now() + 5);
        let mut raw = match rng.gen_range(0..5) {
            0 | 1 => v.store(),
            2 => q_find_value(&v.key.hash(), 3),
            3 => q_find_node(&rng.gen(), 3),
            _ => {
                let d = DNode::new(&who, w.addr, unix_now());
                let mut x = d.prefix();
                x.extend(q_find_value(&v.key.hash(), 2));
                x
            }
        };
        if i % 2 == 0 {
            distort(rng, &mut raw);
        }
        let q = Msg::Query { id: rng.gen(), data: raw };
        say(ctx, rng, &mut w, q, i % 2 == 0).await;
        ctx.case(("dht query", i));
    }
}

fn nid(k: u32) -> NodeIdShort {
    let mut b = [7; 32];
    b[..4].copy_from_slice(&k.to_le_bytes());
    NodeIdShort::new(b)
}

/// Peer sets used, listed, refilled and dropped by several threads.
fn peers(ctx: &C, rng: &mut SmallRng) {
    for round in 0..n(6, 40) {
        let cap = [1, 2, 3, 7, 0, 5][round % 6];
        let set = Arc::new(PeersSet::with_capacity(cap));
        let other = Arc::new(PeersSet::with_peers_and_capacity(&(0..6).map(nid).collect::<Vec<_>>(), 5));
        let ops = Arc::new(AtomicU64::new(0));
        let go = Arc::new(AtomicBool::new(false));
        let hs: Vec<_> = (0..3)
            .map(|t| {
                let (set, other, ops, go, mut rng) = (set.clone(), other.clone(), ops.clone(), go.clone(), SmallRng::seed_from_u64(rng.gen()));
                std::thread::spawn(move || {
                    while !go.load(Ordering::Relaxed) {
                        std::thread::yield_now();
                    }
                    for _ in 0..n(60, 3000) {
                        let p = nid(rng.gen_range(0..12));
                        match (rng.gen_range(0..10) + t) % 10 {
                            0 | 1 => {
                                set.insert(p);
                            }
                            2 => {
                                set.remove(&p);
                            }
                            3 => set.extend((0..4).map(nid)),
                            4 => {
                                let mut s = 0u32;
                                for x in &*set {
                                    s = s.wrapping_add(x.as_slice()[0] as u32 + x.as_slice()[31] as u32);
                                }
                                std::hint::black_box(s);
                            }
                            5 => {
                                std::hint::black_box(set.get_random_peers(3, Some(&p)));
                            }
                            6 => {
                                set.randomly_fill_from(&other, 3, None);
                                other.randomly_fill_from(&set, 2, None);
                            }
                            7 => {
                                std::hint::black_box((set.contains(&p), set.get(rng.gen_range(0..9)), set.len(), set.version()));
                            }
                            8 => {
                                std::hint::black_box(set.clone_inner());
                            }
                            _ => {
                                std::hint::black_box((set.is_full(), set.is_empty(), other.iter().size_hint()));
                            }
                        }
                        ops.fetch_add(1, Ordering::Relaxed);
                    }
                })
            })
            .collect();
        go.store(true, Ordering::Relaxed);
        for h in hs {
            h.join().ok();
        }
        ctx.count("operations", ops.load(Ordering::Relaxed));
        ctx.case(("peers", round));
    }
}

fn tl_scene(ctx: &C, rng: &mut SmallRng) {
    let mut corpus = Vec::new();
    for i in 0..n(4, 50) as u64 {
        crate::c26::generated(ctx, rng, i * 2, &mut corpus);
        ctx.case(("generated", i));
    }
    corpus.retain(|x| x.1.len() < 600);
    let mut i = 0;
    while ctx.within(n(60, 4) as u64, n(500, 20) as u64) && i < n(400, 4000) {
        crate::c26::distorted(ctx, rng, &corpus);
        i += 1;
    }
}

/// Ids, keys and keystores: conversions that rely on unchecked code.
fn values(ctx: &C, rng: &mut SmallRng) {
    for i in 0..n(5, 100) {
        let id = rand32(rng);
        let s = NodeIdShort::new(id);
        let t = s.to_string();
        ctx.count("values", t.is_ascii() as u64);
        ctx.case((i, t.len(), overlay::IdShort::new(id).to_string().len()));
        let _ = NodeIdShort::random();
        let mut b = adnl::Keystore::builder();
        for k in 0..2 {
            b = b.with_tagged_key(rng.gen(), k).unwrap();
        }
        let ks = b.build();
        ctx.case((i, ks.keys().len()));
    }
    // random numbers from several threads
    let hs: Vec<_> = (0..3)
        .map(|_| {
            std::thread::spawn(|| {
                for _ in 0..n(20, 1000) {
                    std::hint::black_box(NodeIdShort::random());
                }
            })
        })
        .collect();
    for h in hs {
        h.join().ok();
    }
    ctx.case("random");
}
/// Known: the ids that an iterator over a peer set gives out may outlive its guard.
fn iter_outlives(ctx: &C) {
    let set = PeersSet::with_capacity(1);
    set.insert(nid(1));
    let kept: Vec<&NodeIdShort> = set.iter().collect();
    set.insert(nid(2));
    ctx.case(kept[0].as_slice()[0]);
    ctx.count("kept", 1);
}
