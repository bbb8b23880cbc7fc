//! C03: the right local and remote identity on everything.
use std::collections::HashMap;
use std::time::Duration;

use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one message or query delivered (or one packet emitted) in a topology with several identities on one or both ends; non-trivial because at least two identity pairs are active at the same time; distinct by topology, identity pair, kind and channel state");
    let mut rng = ctx.rng(3);
    let mut round = 0u64;
    while ctx.within(30, 600) && (round < 6 || !ctx.quick()) {
        node_to_node(&ctx, &mut rng, round).await;
        shared_remote(&ctx, &mut rng, round).await;
        same_message(&ctx, &mut rng, round).await;
        round += 1;
    }
    ctx.require("attributed_events", 300);
    ctx.require("answers_checked", 100);
    ctx.require("wire_packets_attributed", 60);
    ctx.require("removals", 3);
    ctx.require("same_messages", 20);
}

/// Several peers send the same bytes in several packets at the same time, also to several local identities: everybody's
/// message arrives once and as theirs.
async fn same_message(ctx: &C, rng: &mut SmallRng, round: u64) {
    let keys = 2usize;
    let node = TestNode::start(rng, keys, default_opts(), Rec::echo());
    let count = rng.gen_range(2..4usize);
    // (local identity, sender); with `shared` the same remote identity talks to all local ones
    let shared = round % 3 == 2;
    let who = Ident::gen(rng);
    let mut peers = Vec::new();
    for i in 0..count {
        let (k, me) = if shared { (i % keys, who.clone()) } else { (rng.gen_range(0..keys), Ident::gen(rng)) };
        if shared && i >= keys {
            break;
        }
        let mut w = WirePeer::with_ident(me, rng, node.addr(), node.pk(k), std::net::Ipv4Addr::LOCALHOST).await;
        if !w.ping(rng, 8, Duration::from_secs(1)).await {
            return ctx.inconclusive("no contact");
        }
        if round % 2 == 1 {
            w.establish_channel(rng).await;
        }
        peers.push((k, w));
    }
    for case in 0..3u32 {
        let len = [1500usize, 4000, 9000][case as usize];
        let mut d = 0x5a3e_0001u32.to_le_bytes().to_vec();
        d.extend(rand_bytes(rng, len));
        let raw = Msg::Custom(d.clone()).ser();
        let (hash, total) = (sha256(&raw), raw.len() as u32);
        let step = rng.gen_range(500..1000usize);
        let parts: Vec<Msg> = raw.chunks(step).enumerate().map(|(i, c)| Msg::Part { hash, total, offset: (i * step) as u32, data: c.to_vec() }).collect();
        // every peer's parts in order, the peers interleaved in some way
        let mut next = vec![0usize; peers.len()];
        let turns = rng.gen::<bool>();
        let mut turn = 0;
        while next.iter().any(|n| *n < parts.len()) {
            let open: Vec<usize> = (0..peers.len()).filter(|i| next[*i] < parts.len()).collect();
            let i = if turns { open[turn % open.len()] } else { open[rng.gen_range(0..open.len())] };
            turn += 1;
            let m = parts[next[i]].clone();
            next[i] += 1;
            let w = &mut peers[i].1;
            if w.chan.is_some() {
                w.send_ch(rng, vec![m], false).await;
            } else {
                w.send(rng, vec![m]).await;
            }
            sleep_ms(2).await;
        }
        for (k, w) in &peers {
            let (l, p) = (node.idents[*k].short, w.me.short);
            let f = |e: &Ev| e.data == d && e.local == l && e.peer == p;
            node.rec.wait(1, Duration::from_secs(5), f).await;
            let n = node.rec.count(f);
            ctx.count("same_messages", 1);
            ctx.count("attributed_events", n as u64);
            ctx.case(("same message", peers.len(), shared, turns, case, w.chan.is_some()));
            if n != 1 {
                let all: Vec<_> = node.rec.events.lock().unwrap().iter().filter(|e| e.data == d).map(|e| (crate::rt::hex(&e.local[..2]), crate::rt::hex(&e.peer[..2]))).collect();
                return ctx.violation(
                    "mixed-up",
                    format!("{} peers send the same {len} bytes at once; the message of {} to {} arrived {n} times, all: {all:?}", peers.len(), crate::rt::hex(&p[..2]), crate::rt::hex(&l[..2])),
                );
            }
        }
    }
}

/// 3 identities against 3 identities, everything at once.
async fn node_to_node(ctx: &C, rng: &mut SmallRng, round: u64) {
    let n = 3usize;
    let a = std::sync::Arc::new(TestNode::start(rng, n, default_opts(), Rec::echo()));
    let b = std::sync::Arc::new(TestNode::start(rng, n, default_opts(), Rec::echo()));
    for i in 0..n {
        for j in 0..n {
            if !a.know(i, &b, j) || !b.know(j, &a, i) {
                ctx.violation("add-peer-refused", "a valid peer was not accepted");
                return;
            }
        }
    }
    // data -> (from node is a?, local identity of sender, identity addressed)
    let sent: std::sync::Arc<std::sync::Mutex<HashMap<Vec<u8>, (bool, usize, usize, bool)>>> = Default::default();
    let phases = ctx.pick(2, 4);
    for phase in 0..phases {
        let mut tasks = Vec::new();
        for i in 0..n {
            for j in 0..n {
                for from_a in [true, false] {
                    let (x, y) = if from_a { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
                    let seed: u64 = rng.gen();
                    let sent = sent.clone();
                    let ctx = ctx.clone();
                    tasks.push(tokio::spawn(async move {
                        let mut rng = SmallRng::seed_from_u64(seed);
                        let mut answered = 0;
                        for k in 0..4 {
                            let len = [8usize, 200, 900, 3000][k % 4];
                            let mut m = vec![0x51, 0x52, 0x53, 0x54];
                            m.extend(rand_bytes(&mut rng, len));
                            sent.lock().unwrap().insert(m.clone(), (from_a, i, j, false));
                            x.adnl.send_custom_message(&x.id(i), &y.id(j), &m).ok();
                            for attempt in 0..4 {
                                let mut q = vec![0x61, 0x62, 0x63, 0x64, attempt];
                                q.extend(rand_bytes(&mut rng, len));
                                sent.lock().unwrap().insert(q.clone(), (from_a, i, j, true));
                                let _op = ctx.op("query");
                                let (x2, l, p, q2) = (x.clone(), x.id(i), y.id(j), q.clone());
                                let r = run_node(async move { x2.adnl.query_raw(&l, &p, q2.into(), Some(2500)).await }).await;
                                match r {
                                    Some(Ok(Some(d))) => {
                                        if d != echo_answer(&q) {
                                            ctx.violation("wrong-answer", format!("identity {i} asked identity {j}: the answer belongs to something else"));
                                        }
                                        answered += 1;
                                        break;
                                    }
                                    Some(Ok(None)) => continue,
                                    Some(Err(e)) => {
                                        ctx.violation("query-error", format!("query between known peers failed: {e}"));
                                        break;
                                    }
                                    None => break,
                                }
                            }
                        }
                        answered
                    }));
                }
            }
        }
        let mut answered = 0;
        for t in tasks {
            answered += t.await.unwrap_or(0);
        }
        ctx.count("answers_checked", answered);
        if answered == 0 {
            ctx.violation("nothing-answered", "no query between any two identities was answered");
        }
        // Everybody who talks to everybody must be able to
        if answered < (n * n * 2 * 4) as u64 * 3 / 4 && udp_drops(a.port()) + udp_drops(b.port()) == 0 {
            ctx.violation("queries-lost", format!("only {answered} of {} queries between identities were answered although no datagram was lost", n * n * 8));
        }
        sleep_ms(150).await;
        for (at_a, node, other) in [(true, &a, &b), (false, &b, &a)] {
            for ev in node.rec.take() {
                let Some(&(from_a, i, j, q)) = sent.lock().unwrap().get(&ev.data) else {
                    ctx.violation("unsent", "something was delivered that nobody sent");
                    continue;
                };
                if from_a == at_a {
                    ctx.violation("own-message", "a node was delivered its own message");
                    continue;
                }
                if ev.local != node.idents[j].short || ev.peer != other.idents[i].short {
                    let li = node.idents.iter().position(|x| x.short == ev.local);
                    let pi = other.idents.iter().position(|x| x.short == ev.peer);
                    ctx.violation(
                        "misattributed",
                        format!("phase {phase}: sent by identity {i} to identity {j}, delivered as from {pi:?} to {li:?} (query: {q})"),
                    );
                }
                ctx.case(("nn", from_a, i, j, q, phase, round.min(1)));
                ctx.count("attributed_events", 1);
            }
        }
        // metrics: a channel per pair
        let m = a.adnl.metrics();
        ctx.count("channels_seen_max", (m.channels_by_peers_len as u64).saturating_sub(ctx.counter("channels_seen_max")));
        if phase == phases - 1 && round == 0 {
            ctx.sample(json!({"pairs": n * n, "channels": m.channels_by_peers_len, "ids": m.channels_by_id_len, "answered": answered}));
        }
    }
    ctx.check_panics("identities");
}

/// One remote identity talks to two local identities (and a second remote to both).
async fn shared_remote(ctx: &C, rng: &mut SmallRng, round: u64) {
    let node = TestNode::start(rng, 2, default_opts(), Rec::echo());
    let remote = Ident::gen(rng);
    let ip = std::net::Ipv4Addr::LOCALHOST;
    let mut w0 = WirePeer::with_ident(remote.clone(), rng, node.addr(), node.pk(0), ip).await;
    let mut w1 = WirePeer::with_ident(remote.clone(), rng, node.addr(), node.pk(1), ip).await;
    for w in [&mut w0, &mut w1] {
        if !w.ping(rng, 6, Duration::from_millis(1500)).await {
            ctx.violation("no-service", "an honest peer of one of several local identities is not answered");
            return;
        }
    }
    let order = round % 2 == 0;
    let mut both = [w0, w1];
    if !order {
        both.reverse();
    }
    for (k, w) in both.iter_mut().enumerate() {
        if !w.establish_channel(rng).await {
            ctx.violation("no-channel", format!("a peer that talks to two local identities could not establish its channel number {}", k + 1));
            return;
        }
    }
    let m = node.adnl.metrics();
    if (m.channels_by_peers_len, m.channels_by_id_len) != (2, 4) {
        ctx.violation(
            "channel-count",
            format!("one remote with channels to two local identities, but {} channels and {} ids exist", m.channels_by_peers_len, m.channels_by_id_len),
        );
    }
    let [mut x0, mut x1] = both;
    if !order {
        std::mem::swap(&mut x0, &mut x1);
    }
    let mut w = [x0, x1];
    // Interleaved traffic both ways
    for step in 0..ctx.pick(24, 80) {
        let i = rng.gen_range(0..2usize);
        let peer = sid(&remote.short);
        match step % 3 {
            0 => {
                // incoming over the channel
                let mut d = vec![1, 2, 3, 4];
                d.extend(rand_bytes(rng, 40));
                let qid: [u8; 32] = rng.gen();
                let mut ok = false;
                for _ in 0..5 {
                    let prio = rng.gen();
                    w[i].send_ch(rng, vec![Msg::Query { id: qid, data: d.clone() }], prio).await;
                    let want = echo_answer(&d);
                    let pk = node.pk(i);
                    if let Some(via) = w[i]
                        .recv_msg(Duration::from_millis(1500), |g, m| match m {
                            Msg::Answer { id, data } if *id == qid => {
                                if *data != want {
                                    ctx.violation("wrong-answer", "the answer to a query on a shared remote is wrong");
                                }
                                if g.via == Via::Handshake && g.contents.from != Some(pk) {
                                    ctx.violation("reply-from-other-identity", "a reply left from an identity that was not asked");
                                }
                                Some(g.via)
                            }
                            _ => None,
                        })
                        .await
                    {
                        let _ = via;
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    ctx.violation("channel-deaf", format!("a query over the channel of local identity {i} is not answered on that channel while the remote also talks to the other identity"));
                    return;
                }
                let Some(ev) = node.rec.find(|e| e.data == d) else { continue };
                if ev.local != node.idents[i].short || ev.peer != remote.short {
                    ctx.violation("misattributed", format!("query addressed to identity {i} was delivered for another"));
                }
                ctx.count("attributed_events", 1);
                ctx.case(("wire-in", i, order, step % 6));
            }
            1 => {
                // outgoing custom from a chosen identity
                let mut d = vec![5, 6, 7, 8];
                let n = [10usize, 700][rng.gen_range(0..2)];
                d.extend(rand_bytes(rng, n));
                let mut got = None;
                let pk = node.pk(i);
                for _ in 0..4 {
                    let before = [w[0].undecodable, w[1].undecodable];
                    if let Err(e) = node.adnl.send_custom_message(&node.id(i), &peer, &d) {
                        ctx.violation("send-error", format!("{e}"));
                        return;
                    }
                    got = w[i]
                        .recv_msg(Duration::from_millis(1500), |g, m| match m {
                            Msg::Custom(x) if *x == d => Some((g.via, g.contents.from)),
                            _ => None,
                        })
                        .await;
                    if got.is_some() {
                        break;
                    }
                    if w[i].undecodable > before[i] {
                        let _ = before;
                    }
                }
                match got {
                    None => {
                        ctx.violation("left-from-other-identity", format!("a message sent from local identity {i} never reached the peer under that identity"));
                        return;
                    }
                    Some((Via::Handshake, from)) if from != Some(pk) => {
                        ctx.violation("left-from-other-identity", "a handshake packet carries another local identity");
                    }
                    _ => {}
                }
                ctx.count("wire_packets_attributed", 1);
                ctx.case(("wire-out", i, order, n_class(d.len())));
            }
            _ => {
                // outgoing query from a chosen identity, answered on the wire
                let mut d = vec![9, 6, 7, 8];
                d.extend(rand_bytes(rng, 20));
                let (a, l, d2) = (node.adnl.clone(), node.id(i), d.clone());
                let t = node_rt().spawn(async move { a.query_raw(&l, &peer, d2.into(), Some(2000)).await });
                let qid = w[i]
                    .recv_msg(Duration::from_millis(1900), |_, m| match m {
                        Msg::Query { id, data } if *data == d => Some(*id),
                        _ => None,
                    })
                    .await;
                let Some(qid) = qid else {
                    ctx.violation("left-from-other-identity", format!("a query sent from local identity {i} never reached the peer under that identity"));
                    return;
                };
                let ans = rand_bytes(rng, 16);
                w[i].send_ch(rng, vec![Msg::Answer { id: qid, data: ans.clone() }], false).await;
                match t.await {
                    Ok(Ok(Some(x))) if x == ans => ctx.count("answers_checked", 1),
                    Ok(Ok(None)) => ctx.count("lost_answers", 1),
                    r => ctx.violation("wrong-answer", format!("query from identity {i}: {:?}", r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
                }
                ctx.count("wire_packets_attributed", 1);
                ctx.case(("wire-query", i, order));
            }
        }
    }
    for i in 0..2 {
        if w[i].undecodable > 0 {
            ctx.violation("undecodable", format!("the node sent {} packets under identity {i} that this identity's peer cannot open", w[i].undecodable));
        }
    }
    // ---- removal for one identity
    let r = rng.gen_range(0..2usize);
    let k = 1 - r;
    if !matches!(node.adnl.remove_peer(&node.id(r), &sid(&remote.short)), Ok(true)) {
        ctx.violation("remove-failed", "removing a known peer reports failure");
    }
    let m = node.adnl.metrics();
    if (m.channels_by_peers_len, m.channels_by_id_len) != (1, 2) {
        ctx.violation(
            "removal-disturbs-others",
            format!("after removing the peer for one local identity {} channels with {} ids remain instead of 1 with 2", m.channels_by_peers_len, m.channels_by_id_len),
        );
    }
    if node.adnl.get_peer_address(&node.id(k), &sid(&remote.short)).is_none() {
        ctx.violation("removal-disturbs-others", "the peer is gone for another local identity too");
    }
    if node.adnl.send_custom_message(&node.id(r), &sid(&remote.short), b"abcd").is_ok() {
        ctx.violation("removed-still-sends", "a message to a removed peer was accepted");
    }
    w[k].drain();
    let mut ok = false;
    for _ in 0..5 {
        let qid: [u8; 32] = rng.gen();
        w[k].send_ch(rng, vec![Msg::Query { id: qid, data: vec![1, 2, 3, 4, 5] }], false).await;
        if let Some(via) = w[k]
            .recv_msg(Duration::from_millis(1200), |g, m| match m {
                Msg::Answer { id, .. } if *id == qid => Some(g.via),
                _ => None,
            })
            .await
        {
            if via == Via::Handshake {
                ctx.violation("removal-disturbs-others", "the channel of the other local identity is no longer used after the removal");
            }
            ok = true;
            break;
        }
    }
    if !ok {
        ctx.violation("removal-disturbs-others", "the channel of the other local identity is dead after the removal");
    }
    // outgoing from the remaining identity still in the channel
    let d = vec![7, 7, 7, 7, r as u8];
    let mut via = None;
    for _ in 0..4 {
        node.adnl.send_custom_message(&node.id(k), &sid(&remote.short), &d).ok();
        via = w[k]
            .recv_msg(Duration::from_millis(1200), |g, m| matches!(m, Msg::Custom(x) if *x == d).then_some(g.via))
            .await;
        if via.is_some() {
            break;
        }
    }
    if !matches!(via, Some(Via::Channel { .. })) {
        ctx.violation("removal-disturbs-others", format!("messages of the other local identity now leave as {via:?}"));
    }
    // and the removed pair can come back
    if !w[r].ping(rng, 6, Duration::from_millis(1500)).await {
        ctx.violation("removed-cannot-return", "a removed peer that authenticates itself again is not served");
    }
    ctx.count("removals", 1);
    ctx.case(("removal", r, order));
    ctx.check_panics("shared remote");
}

fn n_class(n: usize) -> usize {
    n / 256
}
