//! C09: channels are created, replaced and dropped consistently.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::json;

use crate::c08::{restart, What};
use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one channel event (creation, offer, confirmation, replacement, removal, outage) with its consequences; non-trivial because traffic is exchanged before and after and the channel tables are counted; distinct by event, order of dates, path and side");
    let mut rng = ctx.rng(9);
    let mut round = 0u64;
    while ctx.within(45, 700) && (round < 1 || !ctx.quick()) {
        formation(&ctx, &mut rng, round).await;
        for _ in 0..ctx.pick(3, 8) {
            offers(&ctx, &mut rng, round).await;
        }
        stress(&ctx, &mut rng).await;
        let seed: u64 = rng.gen();
        let waiting = {
            let ctx = ctx.clone();
            tokio::spawn(async move { replaced_meanwhile(&ctx, seed).await })
        };
        patience(&ctx, &mut rng).await;
        waiting.await.ok();
        for _ in 0..3 {
            crate::c02::untouched(&ctx, &mut rng).await;
        }
        confirmations(&ctx, &mut rng).await;
        one_side_forgets(&ctx, &mut rng).await;
        let mut set = Vec::new();
        for hist in [false, true] {
            for what in [What::OutageOneSided, What::OutageBoth] {
                let seed: u64 = rng.gen();
                let ctx = ctx.clone();
                set.push(tokio::spawn(async move { restart(&ctx, seed, hist, what, round).await }));
            }
        }
        for t in set {
            t.await.ok();
        }
        round += 1;
    }
    ctx.require("formed", 4);
    ctx.require("offers", 20);
    ctx.require("removals", 100);
    ctx.require("restarts", 4);
    if clock_is_virtual() {
        ctx.require("untouched_channels", 2);
    }
    ctx.require("patient", 2);
    ctx.require("replaced_meanwhile", 2);
    ctx.require("given_up", 2);
    ctx.require("confirmations", 6);
}

fn tables(ctx: &C, n: &adnl::Node, what: &str, want: Option<usize>) {
    let m = n.metrics();
    if m.channels_by_id_len != 2 * m.channels_by_peers_len {
        ctx.violation("id-count", format!("{what}: {} channels but {} receiving channel ids", m.channels_by_peers_len, m.channels_by_id_len));
    }
    if let Some(w) = want {
        if m.channels_by_peers_len != w {
            ctx.violation("channel-count", format!("{what}: {} channels instead of {w}", m.channels_by_peers_len));
        }
    }
}

/// Two real nodes with all their datagrams observed.
async fn formation(ctx: &C, rng: &mut SmallRng, round: u64) {
    for mode in 0..4u32 {
        let net = Net::new(rng.gen());
        let (ia, ib) = (Ident::gen(rng), Ident::gen(rng));
        let prio = rng.gen();
        let opts = adnl::NodeOptions { force_use_priority_channels: prio, ..default_opts() };
        let a = TestNode::start_ext(next_ip(), 0, vec![ia.clone()], opts, Rec::echo(), None);
        let b = TestNode::start_ext(next_ip(), 0, vec![ib.clone()], opts, Rec::echo(), None);
        net.attach(a.addr());
        net.attach(b.addr());
        let hand = Arc::new(AtomicU64::new(0));
        let chan = Arc::new(AtomicU64::new(0));
        let (h2, c2) = (hand.clone(), chan.clone());
        let (sa, sb) = (ia.short, ib.short);
        let lossy = mode == 3;
        net.set(move |r, _, _, p| {
            if p[..32] == sa || p[..32] == sb {
                h2.fetch_add(1, Ordering::SeqCst);
            } else {
                c2.fetch_add(1, Ordering::SeqCst);
            }
            if lossy && r.gen_bool(0.25) {
                return vec![];
            }
            vec![(Duration::ZERO, p)]
        });
        a.know(0, &b, 0);
        if mode == 1 {
            b.know(0, &a, 0);
        }
        // mode 2: both start at once
        let n = if lossy { 60 } else { 12 };
        let mut ok = 0;
        for k in 0..n {
            let mut d = vec![1, 1, 1, 1];
            d.extend(rand_bytes(rng, if k % 3 == 2 { 2500 } else { 30 }));
            let one = |x: &TestNode, y: &TestNode, d: Vec<u8>| {
                let (x, l, p) = (x.adnl.clone(), x.id(0), y.id(0));
                run_node(async move { x.query_raw(&l, &p, d.into(), Some(400)).await.ok().flatten() })
            };
            if mode == 2 || k % 2 == 1 {
                b.know(0, &a, 0);
                let (r1, r2) = tokio::join!(one(&a, &b, d.clone()), one(&b, &a, d.clone()));
                for r in [r1, r2] {
                    if r.flatten().map_or(false, |r| r == echo_answer(&d)) {
                        ok += 1;
                    }
                }
            } else if one(&a, &b, d.clone()).await.flatten().map_or(false, |r| r == echo_answer(&d)) {
                ok += 1;
            }
        }
        let drops = udp_drops(a.port()) + udp_drops(b.port());
        if ok == 0 || (!lossy && drops == 0 && ok < n) {
            ctx.violation("messages-lost", format!("mode {mode}: only {ok} of at least {n} queries answered while the channel forms"));
        }
        let h0 = hand.load(Ordering::SeqCst);
        net.perfect();
        let (h2, c2) = (hand.clone(), chan.clone());
        net.set(move |_, _, _, p| {
            if p[..32] == sa || p[..32] == sb {
                h2.fetch_add(1, Ordering::SeqCst);
            } else {
                c2.fetch_add(1, Ordering::SeqCst);
            }
            vec![(Duration::ZERO, p)]
        });
        // After a few more exchanges everything must be in the channel
        for phase in 0..2 {
            let h1 = hand.load(Ordering::SeqCst);
            let c1 = chan.load(Ordering::SeqCst);
            for k in 0..6u8 {
                let (x, y) = if k % 2 == 0 { (&a, &b) } else { (&b, &a) };
                let (x, l, p) = (x.adnl.clone(), x.id(0), y.id(0));
                run_node(async move { x.query_raw(&l, &p, vec![2, 2, 2, 2, k].into(), Some(1000)).await.ok() }).await;
            }
            if phase == 1 && hand.load(Ordering::SeqCst) > h1 {
                ctx.violation("no-move-to-channel", format!("mode {mode}: {} handshake packets after {h0} earlier ones, nodes do not move to the channel", hand.load(Ordering::SeqCst) - h1));
            }
            if phase == 1 && chan.load(Ordering::SeqCst) == c1 {
                ctx.violation("no-move-to-channel", format!("mode {mode}: no channel packets after many exchanges"));
            }
        }
        tables(ctx, &a.adnl, "after formation", Some(1));
        tables(ctx, &b.adnl, "after formation", Some(1));
        ctx.count("formed", 1);
        ctx.case(("formation", mode, prio));
        if round == 0 {
            ctx.sample(json!({"mode": mode, "handshakes": hand.load(Ordering::SeqCst), "channel_packets": chan.load(Ordering::SeqCst)}));
        }
    }
    ctx.check_panics("channel formation");
}

/// Marked query through a given channel; the way the answer came back, if any.
async fn through(node: &TestNode, w: &mut WirePeer, ch: &Chan, rng: &mut SmallRng, prio: bool, expect: bool) -> (bool, Option<Via>) {
    for _ in 0..if expect { 5 } else { 1 } {
        let mut d = vec![3, 3, 3, 3];
        d.extend(rand_bytes(rng, 12));
        let qid: [u8; 32] = rng.gen();
        let c = w.channel_contents(rng, vec![Msg::Query { id: qid, data: d.clone() }]);
        let p = ch.seal(&c.ser(true), prio, None);
        w.send_raw(&p).await;
        let wait = Duration::from_millis(if expect { 1200 } else { 80 });
        let via = w.recv_msg(wait, |g, m| matches!(m, Msg::Answer { id, .. } if *id == qid).then_some(g.via)).await;
        let seen = node.rec.count(|e| e.data == d) > 0;
        if via.is_some() || (!expect && seen) {
            return (seen, via);
        }
    }
    (false, None)
}

/// Offers with older, equal and newer dates against one node.
async fn offers(ctx: &C, rng: &mut SmallRng, round: u64) {
    let node = TestNode::start(rng, 1, default_opts(), Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if !w.establish_channel(rng).await {
        ctx.violation("no-channel", "an honest peer could not establish a channel");
        return;
    }
    w.auto_channel = false;
    tables(ctx, &node.adnl, "first channel", Some(1));
    // Redo it with a date of our choice: a newer offer with a fresh key
    let mut cur = w.chan.clone().unwrap();
    let mut cur_date = unix_now();
    for step in 0..ctx.pick(10, 30) {
        let confirm = rng.gen_bool(0.4);
        let newer = step % 2 == 0;
        let date = if newer { cur_date + rng.gen_range(1..50) } else { cur_date - rng.gen_range(1..50_000) };
        let key = Ident::gen(rng);
        let node_key = cur.peer_key;
        let offer = if confirm {
            Msg::Confirm { key: key.public, peer_key: node_key, date }
        } else {
            Msg::Create { key: key.public, date }
        };
        let Some(new) = Chan::new(&w.me.short, &w.to_short, &key, &node_key, date) else { continue };
        // Offers travel in handshakes (possibly with a message behind) or inside the channel
        let inside = rng.gen_bool(0.3);
        if inside {
            let c = w.channel_contents(rng, vec![offer.clone()]);
            let p = cur.seal(&c.ser(true), rng.gen(), None);
            w.send_raw(&p).await;
        } else {
            w.send(rng, vec![offer.clone()]).await;
        }
        sleep_ms(40).await;
        w.drain();
        ctx.count("offers", 1);
        ctx.case(("offer", newer, confirm, inside));
        let what = format!("{} offer ({}, {})", if newer { "newer" } else { "older" }, if confirm { "confirm" } else { "create" }, if inside { "in the channel" } else { "by handshake" });
        if newer {
            w.chan = Some(new.clone());
            let (ok, _) = through(&node, &mut w, &new, rng, false, true).await;
            if !ok {
                // the offer itself may have been lost once
                w.send(rng, vec![offer]).await;
                sleep_ms(60).await;
                w.drain();
                let (ok, via) = through(&node, &mut w, &new, rng, true, true).await;
                if !ok {
                    ctx.violation("newer-offer-ignored", format!("{what}: the new channel does not work ({via:?})"));
                    return;
                }
            }
            let (seen, via) = through(&node, &mut w, &cur, rng, rng_bool(step), false).await;
            if seen || via.is_some() {
                ctx.violation("replaced-channel-alive", format!("{what}: the replaced channel still delivers"));
            }
            // Its own messages leave in the new channel
            let mut via = None;
            for _ in 0..4 {
                node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), &[8, 8, 8, 8, step as u8]).ok();
                via = w.recv_msg(Duration::from_millis(1000), |g, m| matches!(m, Msg::Custom(x) if *x == [8, 8, 8, 8, step as u8]).then_some(g.via)).await;
                if via.is_some() {
                    break;
                }
            }
            if !matches!(via, Some(Via::Channel { .. })) {
                ctx.violation("new-channel-unused", format!("{what}: messages leave as {via:?}"));
            }
            cur = new;
            cur_date = date;
        } else {
            w.chan = Some(cur.clone());
            let (ok, via) = through(&node, &mut w, &cur, rng, rng_bool(step), true).await;
            if !ok || !matches!(via, Some(Via::Channel { .. })) {
                ctx.violation("older-offer-replaced", format!("{what}: the current channel no longer works ({via:?})"));
                return;
            }
            let (seen, via) = through(&node, &mut w, &new, rng, false, false).await;
            if seen || via.is_some() {
                ctx.violation("older-offer-replaced", format!("{what}: the older channel became usable"));
            }
            w.chan = Some(cur.clone());
        }
        tables(ctx, &node.adnl, &what, Some(1));
        if ctx.violated() {
            return;
        }
    }
    // The same key again, whatever the date, changes nothing
    for d in [cur_date - 5, cur_date, cur_date + 5] {
        w.send(rng, vec![Msg::Create { key: cur.key.public, date: d }]).await;
        sleep_ms(30).await;
        w.drain();
        let (ok, _) = through(&node, &mut w, &cur, rng, false, true).await;
        if !ok {
            ctx.violation("repeated-offer-breaks", "a repeated offer of the current channel broke it");
        }
        tables(ctx, &node.adnl, "repeated offer", Some(1));
        ctx.case(("same key", d.cmp(&cur_date)));
    }
    // Removal forgets the channel
    node.adnl.remove_peer(&node.id(0), &sid(&w.me.short)).ok();
    ctx.count("removals", 1);
    tables(ctx, &node.adnl, "after removal", Some(0));
    let (seen, via) = through(&node, &mut w, &cur, rng, false, false).await;
    if seen || via.is_some() {
        ctx.violation("removed-channel-alive", "packets in the channel of a removed peer are still processed");
    }
    if !w.ping(rng, 6, Duration::from_millis(1200)).await {
        ctx.violation("no-return", "a removed peer cannot come back");
    }
    if round == 0 {
        ctx.sample(json!({"offers_tested": true, "channels": node.adnl.metrics().channels_by_peers_len}));
    }
    ctx.check_panics("offers");
}

fn rng_bool(step: i32) -> bool {
    step % 3 == 0
}

/// Offers race with removals and re-additions; afterwards the tables must agree.
async fn stress(ctx: &C, rng: &mut SmallRng) {
    let node = Arc::new(TestNode::start(rng, 2, default_opts(), Rec::echo()));
    let stop = Arc::new(AtomicBool::new(false));
    let peers: Vec<Ident> = (0..6).map(|_| Ident::gen(rng)).collect();
    let mut tasks = Vec::new();
    for (i, id) in peers.iter().enumerate() {
        for local in 0..2 {
            let (stop, id, node, seed) = (stop.clone(), id.clone(), node.clone(), rng.gen::<u64>());
            tasks.push(tokio::spawn(async move {
                let mut rng = SmallRng::seed_from_u64(seed ^ i as u64);
                let mut w = WirePeer::with_ident(id, &mut rng, node.addr(), node.pk(local), std::net::Ipv4Addr::LOCALHOST).await;
                let keys: Vec<[u8; 32]> = (0..4).map(|_| Ident::gen(&mut rng).public).collect();
                let mut date = unix_now();
                let mut k = 0;
                while !stop.load(Ordering::Relaxed) {
                    date += 1;
                    k += 1;
                    let m = if rng.gen() {
                        Msg::Create { key: keys[k % 4], date }
                    } else {
                        Msg::Confirm { key: keys[k % 4], peer_key: [0; 32], date }
                    };
                    w.send(&mut rng, vec![m]).await;
                    if k % 4 == 0 {
                        w.drain();
                        sleep_ms(2).await;
                    }
                }
                k
            }));
        }
    }
    // Removers in threads of their own
    let removed = Arc::new(AtomicU64::new(0));
    let threads: Vec<_> = (0..2)
        .map(|local| {
            let (stop, node, peers, removed) = (stop.clone(), node.clone(), peers.clone(), removed.clone());
            std::thread::spawn(move || {
                let mut k = 0usize;
                while !stop.load(Ordering::Relaxed) {
                    let p = sid(&peers[k % peers.len()].short);
                    if let Ok(true) = node.adnl.remove_peer(&node.id(local), &p) {
                        removed.fetch_add(1, Ordering::Relaxed);
                    }
                    k += 1;
                    if k % 4 == 0 {
                        std::thread::sleep(Duration::from_micros(150));
                    }
                }
            })
        })
        .collect();
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(ctx.pick(3000, 8000)) {
        sleep_ms(20).await;
        let m = node.adnl.metrics();
        ctx.count("samples", 1);
        if m.channels_by_peers_len > 12 {
            ctx.violation("channel-count", format!("{} channels for 12 pairs", m.channels_by_peers_len));
        }
    }
    stop.store(true, Ordering::Relaxed);
    let mut offers = 0;
    for t in tasks {
        offers += t.await.unwrap_or(0);
    }
    for t in threads {
        t.join().ok();
    }
    ctx.count("offers", offers as u64);
    ctx.count("removals", removed.load(Ordering::Relaxed));
    // Let the node work off what its socket and its tasks still hold: packets handled after a removal bring peers back
    let mut last = (0, 0, 0);
    let mut calm = 0;
    let mut m = node.adnl.metrics();
    for _ in 0..400 {
        for l in 0..2 {
            for p in &peers {
                node.adnl.remove_peer(&node.id(l), &sid(&p.short)).ok();
            }
        }
        sleep_ms(50).await;
        m = node.adnl.metrics();
        let now = (m.peer_count, m.channels_by_peers_len, m.channels_by_id_len);
        calm = if now == last && m.peer_count == 0 && rx_queue(node.port()) == 0 { calm + 1 } else { 0 };
        last = now;
        if calm >= 8 {
            break;
        }
    }
    if calm < 8 {
        ctx.count("stress_unsettled", 1);
    } else if m.channels_by_peers_len != 0 || m.channels_by_id_len != 0 {
        ctx.violation(
            "orphan-channels",
            format!("after every peer was removed {} channels and {} channel ids remain", m.channels_by_peers_len, m.channels_by_id_len),
        );
    }
    ctx.case(("stress", 0));
    ctx.check_panics("offers racing removals");
}

/// One real node forgets the other (and with it the channel); both must get on.
async fn one_side_forgets(ctx: &C, rng: &mut SmallRng) {
    for hist in [false, true] {
        let opts = adnl::NodeOptions { channel_reset_timeout_sec: 1, packet_history_enabled: hist, ..default_opts() };
        let a = TestNode::start(rng, 1, opts, Rec::echo());
        let b = TestNode::start(rng, 1, opts, Rec::echo());
        a.know(0, &b, 0);
        b.know(0, &a, 0);
        for cycle in 0..3 {
            for who in [0, 1] {
                let (x, y) = if who == 0 { (&a, &b) } else { (&b, &a) };
                let t = Instant::now();
                let mut streak = 0;
                let mut tries = 0;
                while streak < 4 {
                    tries += 1;
                    let (n, l, p) = (x.adnl.clone(), x.id(0), y.id(0));
                    let r = run_node(async move { n.query_raw(&l, &p, vec![4, 4, 4, 4, 4].into(), Some(250)).await.ok().flatten() }).await.flatten();
                    if r.map_or(false, |d| d == echo_answer(&[4, 4, 4, 4, 4])) {
                        streak += 1;
                    } else {
                        streak = 0;
                    }
                    if t.elapsed() > Duration::from_secs(12) {
                        ctx.violation("not-resumed", format!("one side forgot the other (cycle {cycle}, history {hist}): {tries} queries did not bring traffic back"));
                        return;
                    }
                }
            }
            let m = a.adnl.metrics();
            if m.channels_by_peers_len > 1 {
                ctx.violation("channel-count", "more than one channel for one peer");
            }
            tables(ctx, &a.adnl, "after resuming", None);
            tables(ctx, &b.adnl, "after resuming", None);
            let (x, y) = if cycle % 2 == 0 { (&a, &b) } else { (&b, &a) };
            x.adnl.remove_peer(&x.id(0), &y.id(0)).ok();
            tables(ctx, &x.adnl, "after removal", Some(0));
            x.know(0, y, 0);
            ctx.count("removals", 1);
            ctx.case(("forget", cycle, hist));
        }
    }
    ctx.check_panics("one side forgets");
}

/// Unanswered queries end a channel only after the reset timeout without any packet through it.
async fn patience(ctx: &C, rng: &mut SmallRng) {
    const RESET: u32 = 3;
    for prio in [false, true] {
        let opts = adnl::NodeOptions { channel_reset_timeout_sec: RESET, ..default_opts() };
        let n = TestNode::start(rng, 1, opts, Rec::echo());
        let mut w = WirePeer::new(rng, n.addr(), n.pk(0)).await;
        n.know_wire(0, &w);
        if !w.establish_channel(rng).await {
            ctx.inconclusive("no channel formed");
            return;
        }
        let wid = sid(&w.me.short);
        let unanswered = |ms: u64| {
            let (x, l, p) = (n.adnl.clone(), n.id(0), wid);
            run_node(async move { x.query_raw(&l, &p, vec![9, 9, 9, 9].into(), Some(ms)).await.ok().flatten() })
        };
        // A packet through the channel known to have been processed by the node
        macro_rules! speak {
            () => {{
                let mut heard = false;
                for _ in 0..10 {
                    w.drain();
                    let (qid, v): ([u8; 32], u64) = (rng.gen(), rng.gen());
                    let q = Msg::Query { id: qid, data: W::new().u32(id::PING).u64(v).done() };
                    w.send_ch(rng, vec![q], prio).await;
                    let got = w.recv_msg(Duration::from_millis(700), |_, m| matches!(m, Msg::Answer { id, .. } if *id == qid).then_some(())).await;
                    if got.is_some() {
                        heard = true;
                        break;
                    }
                }
                heard
            }};
        }
        if !speak!() {
            ctx.inconclusive("the channel does not work");
            return;
        }
        let mut fine = true;
        // Some unanswered queries, well within the timeout; then silence longer than it, then one more, each time with a packet before
        for step in 0..3 {
            let last = Instant::now();
            if step == 1 {
                unanswered(50).await;
                if !speak!() {
                    fine = false;
                }
                sleep_ms(RESET as u64 * 1000 + 2100).await;
                unanswered(50).await;
            } else {
                for _ in 0..4 {
                    unanswered(100).await;
                }
            }
            if step != 1 && last.elapsed() > Duration::from_secs(RESET as u64 - 1) {
                continue;
            }
            if n.adnl.metrics().channels_by_peers_len != 1 || !speak!() {
                fine = false;
            }
            if !fine {
                ctx.violation("channel-given-up-early", format!("step {step}: unanswered queries ended a channel before the reset timeout passed without packets (priority {prio})"));
                return;
            }
            ctx.count("patient", 1);
            ctx.case(("patience", step, prio));
        }
        // Now nothing at all
        let t = Instant::now();
        let mut gone = false;
        while t.elapsed() < Duration::from_secs(RESET as u64 + 12) {
            unanswered(100).await;
            sleep_ms(300).await;
            if n.adnl.metrics().channels_by_peers_len == 0 {
                gone = true;
                break;
            }
        }
        if !gone {
            ctx.violation("channel-never-given-up", format!("queries through a dead channel went unanswered for {:?} with a reset timeout of {RESET} s, yet it stays", t.elapsed()));
            return;
        }
        if t.elapsed() < Duration::from_secs(RESET as u64 - 1) {
            ctx.violation("channel-given-up-early", format!("a channel was ended after {:?} of unanswered queries", t.elapsed()));
        }
        tables(ctx, &n.adnl, "after giving a channel up", Some(0));
        ctx.count("given_up", 1);
        ctx.case(("given up", 0, prio));
    }
    ctx.check_panics("unanswered queries");
}

/// What a node confirms is the offer it was made.
async fn confirmations(ctx: &C, rng: &mut SmallRng) {
    for back in [0u32, 1, 30, 5000, 0, 77, 100_000, 3] {
        let node = TestNode::start(rng, 1, default_opts(), Rec::echo());
        let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
        w.auto_channel = false;
        let date = unix_now() - back;
        let key = w.chan_key.public;
        let mut confirmed = None;
        for _ in 0..6 {
            w.send(rng, vec![Msg::Create { key, date }]).await;
            sleep_ms(30).await;
            node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), &[7, 7, 7, 7]).ok();
            confirmed = w.recv_msg(Duration::from_millis(900), |_, m| match m {
                Msg::Confirm { peer_key, date, .. } => Some((*peer_key, *date)),
                _ => None,
            })
            .await;
            if confirmed.is_some() {
                break;
            }
        }
        ctx.case(("confirmation", back, 0));
        match confirmed {
            None => {
                ctx.violation("not-confirmed", "a channel offer is not confirmed by the packets that follow it");
                return;
            }
            Some(c) if c != (key, date) => {
                ctx.violation("confirms-other-offer", format!("offer dated {date} confirmed as one dated {} (key {})", c.1, c.0 == key));
                return;
            }
            _ => ctx.count("confirmations", 1),
        }
    }
}

/// Queries begun through a channel say nothing about the one that replaced it.
async fn replaced_meanwhile(ctx: &C, seed: u64) {
    let mut rng = SmallRng::seed_from_u64(seed);
    let rng = &mut rng;
    const RESET: u32 = 1;
    for times in 1..3usize {
        let opts = adnl::NodeOptions { channel_reset_timeout_sec: RESET, ..default_opts() };
        let n = TestNode::start(rng, 1, opts, Rec::echo());
        let mut w = WirePeer::new(rng, n.addr(), n.pk(0)).await;
        n.know_wire(0, &w);
        if !w.establish_channel(rng).await {
            ctx.inconclusive("no channel formed");
            return;
        }
        let wid = sid(&w.me.short);
        let mut waiting = Vec::new();
        for ms in [100, 3500, 4200, 5500] {
            let (x, l, p) = (n.adnl.clone(), n.id(0), wid);
            waiting.push(tokio::spawn(run_node(async move { x.query_raw(&l, &p, vec![9, 9, 9, 9].into(), Some(ms)).await.ok().flatten() })));
        }
        sleep_ms(400).await;
        // newer ones
        for k in 0..times {
            w.chan_key = Ident::gen(rng);
            w.chan = None;
            w.auto_channel = true;
            let date = unix_now() + 1 + k as u32;
            let mut made = false;
            for _ in 0..6 {
                let m = vec![Msg::Create { key: w.chan_key.public, date }, Msg::Query { id: rng.gen(), data: W::new().u32(id::PING).u64(1).done() }];
                w.send(rng, m).await;
                let end = Instant::now() + Duration::from_millis(700);
                while let Some(left) = end.checked_duration_since(Instant::now()) {
                    if w.recv(left).await.is_none() || w.chan.is_some() {
                        break;
                    }
                }
                if w.chan.is_some() {
                    made = true;
                    break;
                }
            }
            if !made {
                ctx.violation("not-replaced", "a newer channel offer is not confirmed");
                return;
            }
        }
        // it is used all the time
        let mut gap = Duration::ZERO;
        let mut last = Instant::now();
        let mut heard = 0;
        while waiting.iter().any(|t| !t.is_finished()) {
            w.drain();
            let (qid, v): ([u8; 32], u64) = (rng.gen(), rng.gen());
            let q = Msg::Query { id: qid, data: W::new().u32(id::PING).u64(v).done() };
            w.send_ch(rng, vec![q], false).await;
            let got = w.recv_msg(Duration::from_millis(300), |_, m| matches!(m, Msg::Answer { id, .. } if *id == qid).then_some(())).await;
            if got.is_some() {
                gap = gap.max(last.elapsed());
                last = Instant::now();
                heard += 1;
            }
            sleep_ms(30).await;
        }
        if last.elapsed() > Duration::from_millis(600) {
            // still understood?
            let mut understood = false;
            for _ in 0..8 {
                w.drain();
                let qid: [u8; 32] = rng.gen();
                let q = Msg::Query { id: qid, data: W::new().u32(id::PING).u64(5).done() };
                w.send_ch(rng, vec![q], false).await;
                understood |= w.recv_msg(Duration::from_millis(500), |_, m| matches!(m, Msg::Answer { id, .. } if *id == qid).then_some(())).await.is_some();
            }
            if !understood && gap < Duration::from_millis(700) {
                ctx.violation("channel-given-up-early", format!("a channel in use ({heard} packets answered, at most {gap:?} apart) was given up when queries begun through its predecessor went unanswered ({times} offers)"));
                return;
            }
        }
        ctx.count("replaced_meanwhile", 1);
        ctx.case(("replaced meanwhile", times));
    }
}
