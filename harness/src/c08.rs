//! C08: restarts are recognised, stale sessions rejected.
use std::sync::Arc;
use std::time::{Duration, Instant};

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one packet with given dates and confirmations, or one restart or outage of a node followed until traffic flows both ways again; non-trivial because a packet with valid dates from the same peer is accepted right before and after; distinct by rule, distance, path and configuration");
    if !clock_is_virtual() {
        ctx.inconclusive("the wall clock of the process cannot be moved");
        return;
    }
    let mut rng = ctx.rng(8);
    let mut round = 0u64;
    while ctx.within(40, 700) && (round < 2 || !ctx.quick()) {
        for hist in [false, true] {
            dates(&ctx, &mut rng, hist, round).await;
            confirms(&ctx, &mut rng, hist).await;
            forgets_numbers(&ctx, &mut rng, hist).await;
        }
        for priority in [false, true] {
            numbers_anew(&ctx, &mut rng, priority).await;
        }
        let seeds: Vec<u64> = (0..4).map(|_| rng.gen()).collect();
        let races: Vec<_> = seeds
            .into_iter()
            .map(|seed| {
                let ctx = ctx.clone();
                tokio::spawn(async move { date_race(&ctx, seed, round).await })
            })
            .collect();
        for r in races {
            r.await.ok();
        }
        let seeds: Vec<u64> = (0..4).map(|_| rng.gen()).collect();
        let races: Vec<_> = seeds
            .into_iter()
            .map(|seed| {
                let ctx = ctx.clone();
                tokio::spawn(async move { replay_race(&ctx, seed, round).await })
            })
            .collect();
        for r in races {
            r.await.ok();
        }
        let mut set = Vec::new();
        for hist in [false, true] {
            for what in [What::B, What::A, What::Both] {
                let seed: u64 = rng.gen();
                let ctx = ctx.clone();
                set.push(tokio::spawn(async move { restart(&ctx, seed, hist, what, round).await }));
            }
        }
        for t in set {
            t.await.ok();
        }
        round += 1;
    }
    ctx.require("accepted", 30);
    ctx.require("rejected", 40);
    ctx.require("restarts", 6);
    ctx.require("told_start", 2);
    ctx.require("own_confirmations", 20);
    ctx.require("date_races", 500);
    ctx.require("replay_races", 500);
    ctx.require("numbers_anew", 3000);
}

fn mark(rng: &mut SmallRng) -> Vec<u8> {
    let mut v = vec![0x21, 0x22, 0x23, 0x24];
    v.extend(rand_bytes(rng, 20));
    v
}

/// Sends a marked handshake with the given dates; true if delivered within `wait`.
async fn probe(s: &TestNode, w: &mut WirePeer, rng: &mut SmallRng, reinit: Option<(u32, u32)>, confirm: Option<u64>, expect: bool) -> bool {
    for _ in 0..if expect { 4 } else { 1 } {
        let d = mark(rng);
        let mut c = w.handshake_contents(rng, vec![Msg::Custom(d.clone())]);
        c.reinit = reinit;
        c.confirm_seqno = confirm;
        let me = w.me.clone();
        WirePeer::sign(&mut c, &me);
        w.send_contents(rng, &c).await;
        let ok = s.rec.wait(1, Duration::from_millis(if expect { 1500 } else { 60 }), |e| e.data == d).await;
        if ok {
            return true;
        }
    }
    false
}

async fn dates(ctx: &C, rng: &mut SmallRng, hist: bool, round: u64) {
    let tol = [60u32, 10][(round % 2) as usize];
    let opts = adnl::NodeOptions { packet_history_enabled: hist, clock_tolerance_sec: tol, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let start = node.adnl.start_time();
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    w.start = unix_now() - 1000;
    if !w.ping(rng, 5, Duration::from_millis(1500)).await {
        ctx.violation("no-service", "an honest peer is not answered");
        return;
    }
    let base = w.start;
    let mut known = base;
    // (name, local, target, accepted); a packet that is accepted with a newer date raises `known`
    for step in 0..ctx.pick(26, 80) {
        let now = unix_now();
        let older = rng.gen_range(1..600);
        let cases: Vec<(&str, u32, u32, bool)> = vec![
            ("same", known, start, true),
            ("same, receiver's start unknown", known, 0, true),
            ("older", known.saturating_sub(older), start, false),
            ("older by one", known - 1, 0, false),
            ("future beyond tolerance", now + tol + [3, 4, tol / 2, tol - 1, tol + 5, 1000, 100_000][rng.gen_range(0..7)], start, false),
            ("far future", u32::MAX - rng.gen_range(0..3), 0, false),
            ("later receiver start", known, start + rng.gen_range(1..1000), false),
            ("later receiver start, max", known, u32::MAX, false),
            ("earlier receiver start", known, start - rng.gen_range(1..1000), false),
            ("newer", known + 1, start, true),
        ];
        let (name, l, t, ok) = cases[step % cases.len()];
        let got = probe(&node, &mut w, rng, Some((l, t)), Some(0), ok).await;
        ctx.case(("dates", name, hist, tol, l == t));
        ctx.count(if ok { "accepted" } else { "rejected" }, 1);
        if got != ok {
            let verb = if ok { "was not processed" } else { "was processed" };
            ctx.violation(if ok { "valid-rejected" } else { "stale-accepted" }, format!("reinit date {name}: a message {verb} (history {hist}, known {known}, local {l}, target {t}, receiver started {start}, now {now})"));
            if ok {
                return;
            }
        }
        if got && l > known {
            known = l;
        }
        // Who addresses an earlier start must learn the current one, or it could never resume
        if name == "earlier receiver start" && !got {
            let mut told = false;
            for _ in 0..5 {
                w.drain();
                probe(&node, &mut w, rng, Some((l, t)), Some(0), false).await;
                let end = Instant::now() + Duration::from_millis(1000);
                while let Some(left) = end.checked_duration_since(Instant::now()) {
                    match w.recv(left).await {
                        Some(g) if g.contents.reinit.map_or(false, |r| r.0 == start) => {
                            told = true;
                            break;
                        }
                        Some(_) => {}
                        None => break,
                    }
                }
                if told {
                    break;
                }
            }
            ctx.count("told_start", told as u64);
            ctx.case(("told", hist, tol));
            if !told {
                ctx.violation("start-not-told", format!("a peer that addresses an earlier start of the node ({t}) is not told the current one ({start})"));
                return;
            }
        }
        // tolerated future
        if step + 1 == ctx.pick(26, 80) {
            let l = unix_now() + tol - 3;
            let got = probe(&node, &mut w, rng, Some((l, start)), Some(0), true).await;
            ctx.case(("dates", "future within tolerance", hist, tol, false));
            if !got {
                ctx.violation("valid-rejected", "a reinit date within the clock tolerance was refused");
            } else {
                ctx.count("accepted", 1);
                w.start = l;
                if probe(&node, &mut w, rng, Some((l - 1, start)), Some(0), false).await {
                    ctx.violation("stale-accepted", "a session older than the newest one (which is slightly in the future) was accepted");
                }
            }
        }
    }
    if round == 0 {
        ctx.sample(json!({"tolerance": tol, "history": hist, "delivered": node.rec.len()}));
    }
    ctx.check_panics("reinit dates");
}

async fn confirms(ctx: &C, rng: &mut SmallRng, hist: bool) {
    let opts = adnl::NodeOptions { packet_history_enabled: hist, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    for chan in [false, true] {
        if !chan {
            if !w.ping(rng, 5, Duration::from_millis(1500)).await {
                ctx.violation("no-service", "an honest peer is not answered");
                return;
            }
        } else if !w.establish_channel(rng).await {
            ctx.violation("no-channel", "an honest peer could not establish a channel");
            return;
        }
        for prio in [false, true] {
            if !chan && prio {
                continue;
            }
            // Learn how far the node counts: make it send and read the newest number
            let mut newest = 0u64;
            for _ in 0..6 {
                let qid: [u8; 32] = rng.gen();
                let ping = Msg::Query { id: qid, data: W::new().u32(id::PING).u64(3).done() };
                if chan {
                    w.send_ch(rng, vec![ping], prio).await;
                } else {
                    w.send(rng, vec![ping]).await;
                }
                while let Some(g) = w.recv(Duration::from_millis(60)).await {
                    let p = matches!(g.via, Via::Channel { prio: true });
                    if p == prio {
                        newest = newest.max(g.contents.seqno.unwrap_or(0));
                    }
                }
            }
            if newest == 0 {
                ctx.count("no_numbers_seen", 1);
                continue;
            }
            for (off, ok) in [(0i64, true), (-1, true), (1, false), (2, false), (1 << 20, false), (50, false), (i64::MAX - 1000, false)] {
                let confirm = (newest as i64 + off) as u64;
                let mut delivered = false;
                for _ in 0..if ok { 4 } else { 1 } {
                    let d = mark(rng);
                    if chan {
                        let mut c = w.channel_contents(rng, vec![Msg::Custom(d.clone())]);
                        c.confirm_seqno = Some(confirm);
                        let p = w.chan.as_ref().unwrap().seal(&c.ser(true), prio, None);
                        w.send_raw(&p).await;
                    } else {
                        let mut c = w.handshake_contents(rng, vec![Msg::Custom(d.clone())]);
                        c.confirm_seqno = Some(confirm);
                        let me = w.me.clone();
                        WirePeer::sign(&mut c, &me);
                        w.send_contents(rng, &c).await;
                    }
                    delivered = node.rec.wait(1, Duration::from_millis(if ok { 1500 } else { 60 }), |e| e.data == d).await;
                    if delivered {
                        break;
                    }
                }
                if delivered && !ok && off < 1000 {
                    // unless the node has sent more than we had seen
                    while let Some(g) = w.recv(Duration::from_millis(300)).await {
                        if matches!(g.via, Via::Channel { prio: true }) == prio {
                            newest = newest.max(g.contents.seqno.unwrap_or(0));
                        }
                    }
                    if newest >= confirm || udp_drops(w.addr.port()) > 0 {
                        ctx.count("moved_on", 1);
                        continue;
                    }
                }
                ctx.case(("confirm", chan, prio, off, hist));
                ctx.count(if ok { "accepted" } else { "rejected" }, 1);
                if delivered != ok {
                    ctx.violation(
                        if ok { "valid-rejected" } else { "unsent-confirmed" },
                        format!("confirmation of number {confirm} when the node had sent {newest} (channel {chan}, priority {prio}, history {hist}): delivered = {delivered}"),
                    );
                }
            }
        }
    }
    ctx.check_panics("confirmations");
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum What {
    A,
    B,
    Both,
    OutageOneSided,
    OutageBoth,
}

async fn ask(a: &Arc<adnl::Node>, l: &adnl::NodeIdShort, p: &adnl::NodeIdShort, n: u32) -> Option<bool> {
    let (a, l, p) = (a.clone(), *l, *p);
    let mut q = vec![0x55, 0x44, 0x33, 0x22];
    q.extend(n.to_le_bytes());
    let want = echo_answer(&q);
    run_node(async move { a.query_raw(&l, &p, q.into(), Some(250)).await.ok().flatten().map(|d| d == want) }).await.flatten()
}

/// Two nodes talk over a channel, one (or both) restarts or the network fails for a while.
pub async fn restart(ctx: &C, seed: u64, hist: bool, what: What, round: u64) {
    use rand::SeedableRng;
    let rng = &mut SmallRng::seed_from_u64(seed);
    let reset = 1;
    let opts = adnl::NodeOptions { packet_history_enabled: hist, channel_reset_timeout_sec: reset, ..default_opts() };
    let net = Net::new(rng.gen());
    let (ia, ib) = (Ident::gen(rng), Ident::gen(rng));
    let (ipa, ipb) = (next_ip(), next_ip());
    let mut a = TestNode::start_ext(ipa, 0, vec![ia.clone()], opts, Rec::echo(), None);
    let mut b = TestNode::start_ext(ipb, 0, vec![ib.clone()], opts, Rec::echo(), None);
    let (pa, pb) = (a.port(), b.port());
    net.attach(a.addr());
    net.attach(b.addr());
    a.know(0, &b, 0);
    // A long session before the interruption
    let warm = if matches!(what, What::OutageOneSided | What::OutageBoth) { 700 } else { 40 };
    let mut n = 0u32;
    let mut good = 0;
    let t = Instant::now();
    while good < warm && t.elapsed() < Duration::from_secs(25) {
        n += 1;
        match ask(&a.adnl, &a.id(0), &b.id(0), n).await {
            Some(true) => good += 1,
            Some(false) => ctx.violation("wrong-answer", "answer differs"),
            None => {}
        }
    }
    if good < warm {
        ctx.violation("no-traffic", format!("only {good} of {n} queries answered on a perfect network (history {hist})"));
        return;
    }
    if ask(&b.adnl, &b.id(0), &a.id(0), 1).await.is_none() && ask(&b.adnl, &b.id(0), &a.id(0), 2).await.is_none() {
        ctx.violation("no-traffic", format!("the peer that was asked before cannot ask back (history {hist})"));
    }
    // The interruption. A restart takes at least a second, so that start times differ.
    match what {
        What::OutageOneSided | What::OutageBoth => {
            net.set(|_, _, _, _| vec![]);
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(3500) {
                n += 1;
                ask(&a.adnl, &a.id(0), &b.id(0), n).await;
                if what == What::OutageBoth {
                    ask(&b.adnl, &b.id(0), &a.id(0), n).await;
                }
            }
            net.perfect();
        }
        _ => {
            let redo = |old: TestNode, ident: &Ident, ip, port| {
                old.adnl.shutdown();
                let ident = ident.clone();
                async move {
                    drop(old);
                    // the socket is closed once the tasks of the old node are gone
                    let t = Instant::now();
                    loop {
                        sleep_ms(1100).await;
                        if std::net::UdpSocket::bind(("0.0.0.0", port)).is_ok() || t.elapsed() > Duration::from_secs(6) {
                            break;
                        }
                    }
                    TestNode::start_ext(ip, port, vec![ident], opts, Rec::echo(), None)
                }
            };
            // The proxy holds the declared address: it must be re-attached after the restart
            net.close();
            if what != What::A {
                b = redo(b, &ib, ipb, pb).await;
            }
            if what != What::B {
                a = redo(a, &ia, ipa, pa).await;
                a.know(0, &b, 0);
            }
            net.attach(a.addr());
            net.attach(b.addr());
        }
    }
    // Now A asks B until it works, then B asks A
    let mut tries = [0u32; 2];
    let mut took = [Duration::ZERO; 2];
    for dir in 0..2 {
        let t = Instant::now();
        let (x, y) = if dir == 0 { (&a, &b) } else { (&b, &a) };
        let mut streak = 0;
        loop {
            tries[dir] += 1;
            n += 1;
            match ask(&x.adnl, &x.id(0), &y.id(0), n).await {
                Some(true) => streak += 1,
                Some(false) => ctx.violation("wrong-answer", "answer differs after a restart"),
                None => streak = 0,
            }
            if streak >= 5 {
                break;
            }
            // reset timeout (1 s) and a generous margin
            if t.elapsed() > Duration::from_secs(12) {
                ctx.violation(
                    "not-resumed",
                    format!("{what:?} (history {hist}): {} asks {} in vain: {} queries in {:?} after the interruption", ["A", "B"][dir], ["B", "A"][dir], tries[dir], t.elapsed()),
                );
                break;
            }
        }
        took[dir] = t.elapsed();
    }
    ctx.count("restarts", 1);
    ctx.case(("restart", what, hist));
    if round == 0 {
        ctx.sample(json!({"what": format!("{what:?}"), "history": hist, "queries_until_resumed": tries, "millis": [took[0].as_millis() as u64, took[1].as_millis() as u64]}));
    }
    ctx.check_panics("restart");
}

/// After a peer's restart the node confirms only what came since, or the peer would refuse its packets.
async fn forgets_numbers(ctx: &C, rng: &mut SmallRng, hist: bool) {
    let opts = adnl::NodeOptions { packet_history_enabled: hist, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    w.start = unix_now() - 500;
    for session in 0..4 {
        for _ in 0..[25, 4, 9, 2][session] {
            if !w.ping(rng, 5, Duration::from_millis(1500)).await {
                ctx.violation("no-service", format!("an honest peer is not answered in session {session} (history {hist})"));
                return;
            }
        }
        for _ in 0..3 {
            node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), &[2, 2, 2, 2]).ok();
        }
        while let Some(g) = w.recv(Duration::from_millis(60)).await {
            let c = g.contents.confirm_seqno.unwrap_or(0);
            ctx.count("own_confirmations", 1);
            if c > w.seqno {
                ctx.violation("confirms-unsent", format!("the node confirms number {c} in session {session} in which the peer sent only {} packets (history {hist})", w.seqno));
                return;
            }
        }
        ctx.case(("forgets", session, hist));
        w.start += 2;
        w.seqno = 0;
    }
}

/// With packet history: after a restart every number is new again, whatever numbers came before.
async fn numbers_anew(ctx: &C, rng: &mut SmallRng, priority: bool) {
    let node = TestNode::start(rng, 1, adnl::NodeOptions { packet_history_enabled: true, ..default_opts() }, Rec::new(|_| Act::Answer(None)));
    let start = node.adnl.start_time();
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    w.start = unix_now() - 1_000_000;
    if !w.establish_channel(rng).await {
        ctx.violation("no-service", "a peer gets no channel");
        return;
    }
    let first = 256 + rng.gen_range(0..256u64);
    for (session, last) in [511, first, 1023, 300].into_iter().enumerate() {
        let date = w.start + 1 + session as u32;
        let mut seqno = 1;
        while seqno <= last {
            let numbers: Vec<u64> = (seqno..=(seqno + 31).min(last)).collect();
            let marks: Vec<Vec<u8>> = numbers.iter().map(|_| mark(rng)).collect();
            let mut missing = numbers.len();
            for _ in 0..6 {
                for (n, m) in numbers.iter().zip(&marks) {
                    if node.rec.count(|e| &e.data == m) > 0 {
                        continue;
                    }
                    let mut c = w.channel_contents(rng, vec![Msg::Custom(m.clone())]);
                    c.reinit = Some((date, start));
                    c.seqno = Some(*n);
                    let p = w.chan.as_ref().expect("channel").seal(&c.ser(true), priority, None);
                    w.send_raw(&p).await;
                }
                if node.rec.wait(numbers.len(), Duration::from_millis(400), |e| marks.contains(&e.data)).await {
                    missing = 0;
                    break;
                }
                missing = marks.iter().filter(|m| node.rec.count(|e| &e.data == *m) == 0).count();
            }
            if missing > 0 {
                let n = numbers.iter().zip(&marks).find(|(_, m)| node.rec.count(|e| &e.data == *m) == 0).map(|(n, _)| *n);
                ctx.violation("old-number-remembered", format!("packet {n:?} of session {session} of a peer is never accepted ({missing} missing, priority {priority})"));
                return;
            }
            ctx.count("numbers_anew", numbers.len() as u64);
            node.rec.take();
            seqno = numbers[numbers.len() - 1] + 1;
        }
        ctx.case(("numbers anew", session, priority));
    }
}

/// Packets of a restarted peer that are handled at the same time: none of them may be delivered
/// once more when it is repeated afterwards (clearing the history must not forget any of them).
async fn replay_race(ctx: &C, seed: u64, round: u64) {
    let mut rng = SmallRng::seed_from_u64(seed);
    let rng = &mut rng;
    let node = TestNode::start(rng, 1, adnl::NodeOptions { packet_history_enabled: true, ..default_opts() }, Rec::new(|_| Act::Answer(None)));
    let start = node.adnl.start_time();
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    w.start = unix_now() - 1_000_000;
    if !w.establish_channel(rng).await {
        ctx.violation("no-service", "a peer gets no channel");
        return;
    }
    let end = Instant::now() + Duration::from_secs(if ctx.quick() { 6 } else { 60 });
    let mut date = w.start;
    let packet = |w: &mut WirePeer, rng: &mut SmallRng, date: u32, seqno: u64, d: &[u8]| {
        let mut c = w.channel_contents(rng, vec![Msg::Custom(d.to_vec())]);
        c.reinit = Some((date, start));
        c.seqno = Some(seqno);
        w.chan.as_ref().expect("channel").seal(&c.ser(true), false, None)
    };
    while Instant::now() < end && !ctx.violated() {
        date += 1;
        let n = rng.gen_range(4..10u64);
        let marks: Vec<Vec<u8>> = (0..n).map(|_| mark(rng)).collect();
        let out: Vec<_> = (0..n).map(|i| packet(&mut w, rng, date, i + 1, &marks[i as usize])).collect();
        // what the peer sent before it restarted may come among them
        let mut burst = out.clone();
        for _ in 0..rng.gen_range(0..4) {
            let (far, other) = (rng.gen_range(10_000..1_000_000u64), mark(rng));
            burst.push(packet(&mut w, rng, date - 1, far, &other));
        }
        burst.shuffle(rng);
        for p in &burst {
            w.send_raw(p).await;
        }
        let all = |e: &Ev| marks.contains(&e.data);
        node.rec.wait(n as usize, Duration::from_millis(500), all).await;
        for p in &out {
            w.send_raw(p).await;
        }
        let barrier = mark(rng);
        tokio::time::sleep(Duration::from_micros(200)).await;
        let mut served = false;
        for seqno in 20..30 {
            let p = packet(&mut w, rng, date, seqno, &barrier);
            w.send_raw(&p).await;
            served = node.rec.wait(1, Duration::from_millis(500), |e| e.data == barrier).await;
            if served {
                break;
            }
        }
        if !served {
            ctx.violation("deaf-after-restart", "packets from before and after a peer's restart came together; no packet with the new date was accepted then");
        }
        if let Some(i) = (0..n as usize).find(|i| node.rec.count(|e| e.data == marks[*i]) > 1) {
            ctx.violation("replayed-after-restart", format!("{n} packets with a new reinit date came together; number {} was delivered again when it was repeated", i + 1));
        }
        ctx.count("replay_races", 1);
        node.rec.take();
    }
    ctx.case(("replay race", round));
}

/// Packets with several dates are handled at the same time: once one with the newest is delivered, those with older dates
/// are not processed any more.
async fn date_race(ctx: &C, seed: u64, round: u64) {
    let mut rng = SmallRng::seed_from_u64(seed);
    let rng = &mut rng;
    let node = TestNode::start(rng, 1, default_opts(), Rec::new(|_| Act::Answer(None)));
    let start = node.adnl.start_time();
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    w.start = unix_now() - 1_000_000;
    if !w.establish_channel(rng).await {
        ctx.violation("no-service", "a peer gets no channel");
        return;
    }
    let end = Instant::now() + Duration::from_secs(if ctx.quick() { 6 } else { 40 });
    let mut newest = w.start;
    let packet = |w: &mut WirePeer, rng: &mut SmallRng, date: u32, d: &[u8]| {
        let mut c = w.channel_contents(rng, vec![Msg::Custom(d.to_vec())]);
        c.reinit = Some((date, start));
        w.chan.as_ref().expect("channel").seal(&c.ser(true), false, None)
    };
    while Instant::now() < end && !ctx.violated() {
        let n = rng.gen_range(2..6u32);
        let mut order: Vec<u32> = (1..=n).collect();
        order.shuffle(rng);
        let marker = mark(rng);
        let mut out = Vec::new();
        for i in order {
            let other = mark(rng);
            out.push(packet(&mut w, rng, newest + i, if i == n { &marker } else { &other }));
        }
        for p in &out {
            w.send_raw(p).await;
        }
        newest += n;
        if !node.rec.wait(1, Duration::from_millis(500), |e| e.data == marker).await {
            continue;
        }
        // this one comes too late
        let (stale, barrier) = (mark(rng), mark(rng));
        let age = rng.gen_range(1..n);
        let p = packet(&mut w, rng, newest - age, &stale);
        w.send_raw(&p).await;
        tokio::time::sleep(Duration::from_micros(100)).await;
        let p = packet(&mut w, rng, newest, &barrier);
        w.send_raw(&p).await;
        node.rec.wait(1, Duration::from_millis(500), |e| e.data == barrier).await;
        if node.rec.count(|e| e.data == stale) > 0 {
            ctx.violation("stale-accepted", format!("after packets with dates up to {newest} were handled at the same time, a message with a date older by {age} was processed"));
        }
        ctx.count("date_races", 1);
        node.rec.take();
    }
    ctx.case(("date race", round));
}
