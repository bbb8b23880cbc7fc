//! C29: what a node says of itself is true, and neighbours behind one address are reached.
use std::collections::HashMap;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::Duration;

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one packet received from the node whose address list, key, dates and counters are compared with what the node is, one address list or timeout computed, one exchange between neighbours, or one reading of the counters; non-trivial because every field is compared with the configuration, the clock and the peer's own record; distinct by packet kind, path, option set and message mix");
    let mut rng = ctx.rng(29);
    let mut round = 0u64;
    while ctx.within(30, 600) && (round < 10 || !ctx.quick()) {
        let seeds: Vec<SmallRng> = (0..4).map(|i| ctx.rng(rng.gen::<u64>() ^ i)).collect();
        let [mut a, mut b, mut c, mut d]: [SmallRng; 4] = seeds.try_into().unwrap_or_else(|_| unreachable!());
        tokio::join!(packets(&ctx, &mut a, round), neighbours(&ctx, &mut b), counters(&ctx, &mut c), async {
            lists(&ctx, &mut d).await;
        });
        if ctx.violated() {
            break;
        }
        // alone, because the clock is everyone's
        aging(&ctx, &mut rng, round).await;
        if ctx.violated() {
            break;
        }
        round += 1;
    }
    ctx.require("aged_packets", 20);
    if clock_is_virtual() {
        ctx.require("after_reset", 2);
    }
    ctx.require("packets", 150);
    ctx.require("handshake_packets", 30);
    ctx.require("channel_packets", 60);
    ctx.require("loopback_packets", 10);
    ctx.require("part_packets", 10);
    ctx.require("neighbour_exchanges", 20);
    ctx.require("far_exchanges", 5);
    ctx.require("counter_readings", 20);
    ctx.require("lists", 20);
    ctx.require("timeouts", 50);
    ctx.check_panics("self description");
}

/// An address nobody here has (TEST-NET-1)
fn far(rng: &mut SmallRng) -> Ipv4Addr {
    Ipv4Addr::new(192, 0, 2, rng.gen_range(1..255))
}

fn opts(rng: &mut SmallRng) -> adnl::NodeOptions {
    adnl::NodeOptions {
        address_list_timeout_sec: [0, 1, 7, 1000, 86_400, rng.gen_range(2..100_000)][rng.gen_range(0..6)],
        query_default_timeout_ms: rng.gen_range(1..8000),
        query_min_timeout_ms: [0, 1, rng.gen_range(1..5000), 500][rng.gen_range(0..4)],
        use_loopback_for_neighbours: rng.gen(),
        force_use_priority_channels: rng.gen(),
        version: [None, Some(0)][rng.gen_range(0..2)],
        ..default_opts()
    }
}

/// All that a packet says of its sender must be so.
struct Told {
    start: u32,
    timeout: u32,
    addr: SocketAddrV4,
    key: [u8; 32],
    seqnos: HashMap<bool, u64>,
}
impl Told {
    fn check(&mut self, ctx: &C, g: &Got, before: u32, what: &str) {
        let now = unix_now();
        let c = &g.contents;
        ctx.count("packets", 1);
        let prio = match g.via {
            Via::Handshake => {
                ctx.count("handshake_packets", 1);
                if c.from != Some(self.key) {
                    ctx.violation("sender", format!("{what}: the packet says it is from {:?}, it is from {}", c.from.map(|k| hex(&k)), hex(&self.key)));
                }
                match c.reinit {
                    Some((local, _)) if local >= self.start && local <= now + 1 => {}
                    r => ctx.violation("reinit", format!("{what}: reinit dates {r:?}, the node was started at {}", self.start)),
                }
                false
            }
            Via::Channel { prio } => {
                ctx.count("channel_packets", 1);
                if c.from.is_some() || c.from_short.is_some() {
                    ctx.violation("sender", format!("{what}: a channel packet names its sender"));
                }
                prio
            }
        };
        if g.msgs.iter().any(|m| matches!(m, Msg::Part { .. })) {
            ctx.count("part_packets", 1);
        }
        ctx.case(("packet", what, format!("{:?}", g.via), g.version.is_some(), self.timeout.min(10), self.addr.ip().is_loopback()));
        let Some(a) = &c.address else {
            ctx.violation("no-address", format!("{what}: a packet without an address list ({:?})", g.via));
            return;
        };
        if a.addrs != vec![(u32::from(*self.addr.ip()), self.addr.port() as u32)] {
            ctx.violation("address", format!("{what}: {:?} is announced instead of {} ({:?})", a.addrs.iter().map(|x| SocketAddrV4::new(x.0.into(), x.1 as u16)).collect::<Vec<_>>(), self.addr, g.via));
        }
        if a.reinit_date != self.start {
            ctx.violation("start", format!("{what}: the address list says the node was started at {}, it was at {}", a.reinit_date, self.start));
        }
        if a.version < before || a.version > now + 1 {
            ctx.violation("version", format!("{what}: address list version {} in a packet sent between {before} and {now}", a.version));
        }
        if a.expire_at.wrapping_sub(a.version) != self.timeout {
            ctx.violation("expiry", format!("{what}: the address list made at {} expires at {}, {} s are configured", a.version, a.expire_at, self.timeout));
        }
        if a.priority != 0 || c.priority_address.is_some() {
            ctx.violation("address", format!("{what}: a priority address nobody asked for"));
        }
        // numbers count up on each path (loopback keeps the order, a worker may swap neighbours)
        match c.seqno {
            Some(s) if s >= 1 => {
                let l = self.seqnos.entry(prio).or_insert(0);
                if s + 64 < *l {
                    ctx.violation("seqno", format!("{what}: number {s} after {l}"));
                }
                *l = (*l).max(s);
            }
            s => ctx.violation("seqno", format!("{what}: packet number {s:?}")),
        }
        match c.confirm_seqno {
            Some(_) => {}
            None => ctx.violation("seqno", format!("{what}: nothing is confirmed")),
        }
    }
}

/// Packets of all kinds, over both paths, of several keys, to peers here, elsewhere and next door.
async fn packets(ctx: &C, rng: &mut SmallRng, round: u64) {
    let _op = ctx.op("packets");
    let o = adnl::NodeOptions { use_loopback_for_neighbours: (round / 4 + round) % 2 == 0, ..opts(rng) };
    let kind = round % 4;
    let ip = match kind {
        0 => Ipv4Addr::LOCALHOST,
        1 => Ipv4Addr::new(127, 0, rng.gen_range(200..250), rng.gen_range(1..250)),
        _ => far(rng),
    };
    let start = unix_now();
    let keys = rng.gen_range(1..4);
    let node = TestNode::start_ext(ip, 0, (0..keys).map(|_| Ident::gen(rng)).collect(), o, Rec::echo(), None);
    if node.adnl.start_time() < start || node.adnl.start_time() > unix_now() {
        ctx.violation("start", format!("start_time() is {}, it was started at {start}", node.adnl.start_time()));
    }
    for k in 0..keys {
        // next door: known under the node's own address, another port
        let door = kind >= 2 && k % 2 == 0;
        let bind = if kind == 1 && k % 2 == 0 { ip } else { Ipv4Addr::LOCALHOST };
        let me = Ident::gen(rng);
        let mut w = WirePeer::with_ident(me, rng, node.addr(), node.pk(k), bind).await;
        w.auto_channel = false;
        w.version = o.version;
        let known = if door { SocketAddrV4::new(ip, w.addr.port()) } else { w.addr };
        let real = w.addr;
        w.addr = known; // what it announces
        let announced = if door && o.use_loopback_for_neighbours { SocketAddrV4::new(Ipv4Addr::LOCALHOST, node.port()) } else { node.addr() };
        let mut told = Told { start: node.adnl.start_time(), timeout: o.address_list_timeout_sec, addr: announced, key: node.pk(k), seqnos: HashMap::new() };
        if !node.know_wire(k, &w) {
            ctx.violation("neighbour-refused", format!("the peer {known} of the node {} was not added", node.addr()));
            return;
        }
        if door && !o.use_loopback_for_neighbours {
            // there is no way to 192.0.2.x here
            node.adnl.send_custom_message(&node.id(k), &sid(&w.me.short), b"nobody").ok();
            if let Some(g) = w.recv(Duration::from_millis(120)).await {
                ctx.violation("loopback", format!("a packet for {known} went to {real} although loopback is not in use ({:?})", g.via));
            }
            ctx.count("not_sent", 1);
            continue;
        }
        let mut kinds: Vec<(&str, bool)> = vec![("custom", false), ("query", false), ("long custom", false), ("answer", false), ("ping", false), ("long answer", false)];
        kinds.shuffle(rng);
        kinds.extend(kinds.clone().into_iter().map(|(n, _)| (n, true)));
        let mut established = false;
        for (name, over_channel) in kinds {
            if over_channel && !established {
                let mut ok = false;
                for _ in 0..4 {
                    if w.establish_channel(rng).await {
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    ctx.violation("no-channel", "an honest peer gets no channel");
                    return;
                }
                established = true;
                sleep_ms(20).await;
                w.drain();
                // numbers start anew when the peer's start date changes; it does not here
            }
            let mut got = 0;
            for _ in 0..6 {
                let before = unix_now();
                let qid: [u8; 32] = rng.gen();
                let len = *[1025, 2100, 5000].choose(rng).unwrap();
                let long = rand_bytes(rng, len);
                let pid = sid(&w.me.short);
                match name {
                    "custom" => node.adnl.send_custom_message(&node.id(k), &pid, &qid).map(drop),
                    "long custom" => node.adnl.send_custom_message(&node.id(k), &pid, &long).map(drop),
                    "query" => {
                        let (adnl, l) = (node.adnl.clone(), node.id(k));
                        tokio::spawn(async move { adnl.query_raw(&l, &pid, vec![1u8; 40].into(), Some(200)).await });
                        Ok(())
                    }
                    "answer" | "long answer" | "ping" => {
                        let data = match name {
                            "answer" => rand_bytes(rng, 60),
                            "ping" => W::new().u32(id::PING).u64(rng.gen::<u64>()).done(),
                            _ => long.iter().take(900).copied().chain([0u8; 200]).collect(),
                        };
                        if data.len() > 1000 {
                            // a long query, for a long answer
                            let q = Msg::Query { id: qid, data: data.clone() }.ser();
                            let hash = sha256(&q);
                            let parts: Vec<Msg> = q
                                .chunks(700)
                                .enumerate()
                                .map(|(i, c)| Msg::Part { hash, total: q.len() as u32, offset: (i * 700) as u32, data: c.to_vec() })
                                .collect();
                            for p in parts {
                                if over_channel {
                                    w.send_ch(rng, vec![p], false).await;
                                } else {
                                    w.send(rng, vec![p]).await;
                                }
                            }
                        } else {
                            let q = vec![Msg::Query { id: qid, data }];
                            if over_channel {
                                let p = rng.gen();
                                w.send_ch(rng, q, p).await;
                            } else {
                                w.send(rng, q).await;
                            }
                        }
                        Ok(())
                    }
                    _ => unreachable!(),
                }
                .unwrap_or_else(|e| ctx.violation("unsent", format!("{name}: {e}")));
                while let Some(g) = w.recv(Duration::from_millis(if got == 0 { 500 } else { 40 })).await {
                    told.check(ctx, &g, before.saturating_sub(5), name);
                    if announced != node.addr() {
                        ctx.count("loopback_packets", 1);
                    }
                    got += 1;
                }
                if got > 0 || ctx.violated() {
                    break;
                }
            }
            if got == 0 && !ctx.violated() {
                ctx.violation("silent", format!("nothing arrives for {name} at {known} ({}, {})", node.addr(), if over_channel { "channel" } else { "handshake" }));
            }
            if ctx.violated() {
                return;
            }
        }
    }
    ctx.check_panics("packets");
}

/// The same node after time has passed: the lists it sends are new ones.
async fn aging(ctx: &C, rng: &mut SmallRng, round: u64) {
    let _op = ctx.op("aging");
    let o = adnl::NodeOptions { use_loopback_for_neighbours: false, channel_reset_timeout_sec: 10, ..opts(rng) };
    let node = TestNode::start(rng, 1, o, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    w.version = o.version;
    node.know_wire(0, &w);
    let mut told = Told { start: node.adnl.start_time(), timeout: o.address_list_timeout_sec, addr: node.addr(), key: node.pk(0), seqnos: HashMap::new() };
    let over_channel = round % 4 < 2;
    if over_channel {
        let mut ok = false;
        for _ in 0..4 {
            ok = ok || w.establish_channel(rng).await;
        }
        if !ok {
            ctx.violation("no-channel", "an honest peer gets no channel");
            return;
        }
    }
    let resets = round % 2 == 0 && clock_is_virtual();
    for _ in 0..3 {
        if resets {
            // queries that stay unanswered for long: the node begins anew with this peer
            for _ in 0..2 {
                let (adnl, l, p) = (node.adnl.clone(), node.id(0), sid(&w.me.short));
                run_node(async move { adnl.query_raw(&l, &p, vec![3u8; 8].into(), Some(30)).await }).await;
                clock_shift(rng.gen_range(20..60));
            }
            ctx.count("given_up", 1);
        }
        sleep_ms(30).await;
        w.drain();
        if clock_is_virtual() {
            clock_shift(rng.gen_range(20..900));
        }
        let mut got = false;
        for _ in 0..6 {
            let before = unix_now();
            node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), b"later").ok();
            if let Some(g) = w.recv(Duration::from_millis(500)).await {
                if resets && over_channel && matches!(g.via, Via::Handshake) {
                    // numbers start anew
                    told.seqnos.clear();
                    ctx.count("after_reset", 1);
                }
                told.check(ctx, &g, before.saturating_sub(5), if over_channel { "later, channel" } else { "later" });
                ctx.count("aged_packets", 1);
                got = true;
                break;
            }
        }
        let l = node.adnl.build_address_list();
        if l.version + 5 < unix_now() || l.version > unix_now() {
            ctx.violation("list", format!("a list made at {} has version {}", unix_now(), l.version));
        }
        if !got && !ctx.violated() {
            ctx.violation("silent", "nothing arrives after some time");
        }
        if ctx.violated() {
            return;
        }
    }
}

/// Nodes behind the same address, and one elsewhere, all talk to each other.
async fn neighbours(ctx: &C, rng: &mut SmallRng) {
    let _op = ctx.op("neighbours");
    let ip = far(rng);
    let o = adnl::NodeOptions { use_loopback_for_neighbours: true, ..default_opts() };
    let a = TestNode::start_ext(ip, 0, vec![Ident::gen(rng), Ident::gen(rng)], o, Rec::echo(), None);
    let b = TestNode::start_ext(ip, 0, vec![Ident::gen(rng)], o, Rec::echo(), None);
    let c = TestNode::start_ext(Ipv4Addr::LOCALHOST, 0, vec![Ident::gen(rng)], o, Rec::echo(), None);
    let (ai, both) = (rng.gen_range(0..2), rng.gen::<bool>());
    if !a.know(ai, &b, 0) || (both && !b.know(0, &a, ai)) || !a.know(ai, &c, 0) {
        ctx.violation("neighbour-refused", "a node behind the same address is not accepted as a peer");
        return;
    }
    let mut asked: Vec<(&TestNode, usize, &TestNode, usize, &str)> = vec![(&a, ai, &b, 0, "neighbour"), (&a, ai, &c, 0, "elsewhere")];
    for step in 0..6 {
        if step == 2 || (step == 0 && both) {
            // the other side knows its peer by now
            asked.push((&b, 0, &a, ai, "neighbour, back"));
        }
        let (from, fi, to, ti, name) = asked[step % asked.len()];
        let len = *[4, 40, 1000, 3000, 20_000].choose(rng).unwrap();
        let q = rand_bytes(rng, len);
        let mut ok = false;
        if name == "elsewhere" {
            // what comes back would go to 192.0.2.x, where there is nobody
            for _ in 0..6 {
                from.adnl.send_custom_message(&from.id(fi), &to.id(ti), &q).ok();
                if to.rec.wait(1, Duration::from_millis(1500), |e| !e.query && e.data == q).await {
                    ok = true;
                    break;
                }
            }
        }
        for _ in 0..6 {
            if ok || name == "elsewhere" {
                break;
            }
            let (adnl, l, p, d) = (from.adnl.clone(), from.id(fi), to.id(ti), q.clone());
            match run_node(async move { adnl.query_raw(&l, &p, d.into(), Some(1500)).await }).await {
                Some(Ok(Some(r))) if r == echo_answer(&q) => {
                    ok = true;
                    break;
                }
                Some(Ok(Some(_))) => {
                    ctx.violation("answer", format!("{name}: another answer"));
                    return;
                }
                Some(Err(e)) => {
                    ctx.violation("unsent", format!("{name}: {e}"));
                    return;
                }
                _ => {}
            }
        }
        if !ok {
            ctx.violation("unreachable", format!("{name}: a message of {} bytes does not arrive or is not answered; it knows it as {:?}", q.len(), from.adnl.get_peer_address(&from.id(fi), &to.id(ti))));
            return;
        }
        ctx.count(if name == "elsewhere" { "far_exchanges" } else { "neighbour_exchanges" }, 1);
        ctx.case(("exchange", name, q.len(), both, step > 2));
    }
    ctx.check_panics("neighbours");
}

/// The node's own address list, what it reads back as, and the timeouts it computes.
async fn lists(ctx: &C, rng: &mut SmallRng) {
    let _op = ctx.op("lists");
    let o = opts(rng);
    let ip = [Ipv4Addr::LOCALHOST, far(rng), Ipv4Addr::from(rng.gen::<u32>()), Ipv4Addr::new(255, 255, 255, 255), Ipv4Addr::new(0, 0, 0, 1)][rng.gen_range(0..5)];
    let start = unix_now();
    let n = TestNode::build_ext(ip, 0, vec![Ident::gen(rng)], o, Rec::echo(), None);
    let a = n.adnl.socket_addr();
    if *a.ip() != ip || a.port() == 0 {
        ctx.violation("address", format!("a node made for {ip}:0 is at {a}"));
    }
    for k in 0..3 {
        let before = unix_now();
        let l = n.adnl.build_address_list();
        let after = unix_now();
        if l.expire_at != 0 || l.version < before || l.version > after || l.reinit_date != n.adnl.start_time() || l.reinit_date < start {
            ctx.violation("list", format!("version {} reinit {} expiry {} at {before}, started at {start}", l.version, l.reinit_date, l.expire_at));
        }
        if l.address.map(|x| (x.ip, x.port)) != Some((u32::from(ip), a.port() as u32)) {
            ctx.violation("list", format!("the address list of {a} has another address"));
        }
        // written and read by others
        let bytes = tl_proto::serialize(l);
        let mut r = Rd::new(&bytes);
        match AddrList::read(&mut r) {
            Ok(x) if r.left() == 0 && x.addrs == vec![(u32::from(ip), a.port() as u32)] && (x.version, x.reinit_date, x.expire_at, x.priority) == (l.version, l.reinit_date, 0, 0) => {}
            x => ctx.violation("list", format!("the address list of {a} is written as {:?}", x.ok())),
        }
        ctx.count("lists", 1);
        ctx.case(("list", ip.octets()[0], k));
        if k == 1 {
            sleep_ms(1100).await;
        }
    }
    for _ in 0..8 {
        let given = [None, Some(0), Some(rng.gen_range(0..10_000)), Some(u64::MAX), Some(o.query_min_timeout_ms)][rng.gen_range(0..5)];
        let want = given.unwrap_or(o.query_default_timeout_ms).max(o.query_min_timeout_ms);
        let t = n.adnl.compute_query_timeout(given);
        if t != want {
            ctx.violation("timeout", format!("{t} ms for {given:?}, at least {} and {} by default are configured", o.query_min_timeout_ms, o.query_default_timeout_ms));
        }
        ctx.count("timeouts", 1);
        ctx.case(("timeout", given.is_some(), want == o.query_min_timeout_ms));
    }
}

/// Counters against what was really done.
async fn counters(ctx: &C, rng: &mut SmallRng) {
    let _op = ctx.op("counters");
    let keys = rng.gen_range(1..4);
    let o = adnl::NodeOptions { transfer_timeout_sec: 1, ..default_opts() };
    let node = TestNode::start(rng, keys, o, Rec::echo());
    // (peers, channels, transfers, queries)
    let read = || {
        let m = node.adnl.metrics();
        (m.peer_count, m.channels_by_peers_len, m.channels_by_id_len, m.incoming_transfers_len, m.query_count)
    };
    let same = |want: (usize, usize, usize, usize, usize), what: &'static str| async move {
        ctx.count("counter_readings", 1);
        ctx.case(("counters", what, want.0, want.1, want.3 > 0, want.4 > 0));
        if !eventually(Duration::from_secs(8), || read() == want).await {
            ctx.violation("counters", format!("{what}: (peers, channels, ids, transfers, queries) are {:?}, they should be {want:?}", read()));
        }
    };
    same((0, 0, 0, 0, 0), "new").await;
    let mut ws: Vec<(usize, WirePeer)> = vec![];
    let mut chans = 0;
    for i in 0..rng.gen_range(2..6) {
        let k = rng.gen_range(0..keys);
        let mut w = WirePeer::new(rng, node.addr(), node.pk(k)).await;
        if i % 2 == 0 {
            node.know_wire(k, &w);
        } else if !w.ping(rng, 6, Duration::from_millis(1000)).await {
            ctx.violation("no-service", "an honest peer is not answered");
            return;
        }
        if rng.gen() {
            let mut ok = false;
            for _ in 0..4 {
                ok = ok || w.establish_channel(rng).await;
            }
            if !ok {
                ctx.violation("no-channel", "an honest peer gets no channel");
                return;
            }
            chans += 1;
        }
        ws.push((k, w));
        same((ws.len(), chans, 2 * chans, 0, 0), "peers").await;
        if ctx.violated() {
            return;
        }
    }
    // the same peer under two keys is two peers
    if keys > 1 {
        let (k, w) = &ws[0];
        let k2 = (*k + 1) % keys;
        let (me, a) = (w.me.clone(), w.addr);
        node.adnl.add_peer(adnl::NewPeerContext::Dht, &node.id(k2), &sid(&me.short), a, fid(&me.public)).ok();
        same((ws.len() + 1, chans, 2 * chans, 0, 0), "two keys").await;
        node.adnl.remove_peer(&node.id(k2), &sid(&me.short)).ok();
        same((ws.len(), chans, 2 * chans, 0, 0), "two keys, removed").await;
    }
    // pending queries, some given up, the rest timing out
    let n = rng.gen_range(1..6);
    let mut tasks = vec![];
    for i in 0..n {
        let (k, w) = &ws[i % ws.len()];
        let (adnl, l, p) = (node.adnl.clone(), node.id(*k), sid(&w.me.short));
        tasks.push(node_rt().spawn(async move { adnl.query_raw(&l, &p, vec![2u8; 12].into(), Some(20_000)).await }));
    }
    same((ws.len(), chans, 2 * chans, 0, n), "queries").await;
    let dropped = rng.gen_range(0..=n);
    for t in tasks.iter().take(dropped) {
        t.abort();
    }
    same((ws.len(), chans, 2 * chans, 0, n - dropped), "queries given up").await;
    for t in &tasks {
        t.abort();
    }
    same((ws.len(), chans, 2 * chans, 0, 0), "all given up").await;
    // half-received messages
    let t = rng.gen_range(1..4);
    for i in 0..t {
        let len = ws.len();
        let (_, w) = &mut ws[i % len];
        let data = Msg::Custom(rand_bytes(rng, 1500)).ser();
        let hash = sha256(&data);
        let part = Msg::Part { hash, total: data.len() as u32, offset: 0, data: data[..800].to_vec() };
        w.send(rng, vec![part]).await;
    }
    ctx.count("counter_readings", 1);
    let seen = eventually(Duration::from_millis(900), || node.adnl.metrics().incoming_transfers_len == t).await;
    ctx.count(if seen { "transfers_seen" } else { "transfers_missed" }, 1);
    if node.adnl.metrics().incoming_transfers_len > t {
        ctx.violation("counters", format!("{} transfers counted, {t} were begun", node.adnl.metrics().incoming_transfers_len));
    }
    same((ws.len(), chans, 2 * chans, 0, 0), "transfers given up").await;
    // and all peers removed
    while let Some((k, w)) = ws.pop() {
        let had = w.chan.is_some();
        match node.adnl.remove_peer(&node.id(k), &sid(&w.me.short)) {
            Ok(true) => {}
            r => ctx.violation("counters", format!("removing a known peer: {:?}", r.ok())),
        }
        chans -= had as usize;
        same((ws.len(), chans, 2 * chans, 0, 0), "removed").await;
        if ctx.violated() {
            return;
        }
    }
    ctx.check_panics("counters");
}
