//! C07: with packet history enabled a packet is accepted at most once.
use std::collections::HashMap;
use std::time::Duration;

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Via2 {
    Hand,
    Ord,
    Prio,
}

pub async fn run(ctx: C) {
    ctx.rule("one case = one packet (sequence number, copies, path) sent to a node with history enabled; non-trivial because every number is sent again later and both acceptance within the window and rejection are judged; distinct by path, pattern, distance to the newest number and position in its window");
    let mut rng = ctx.rng(7);
    let mut round = 0u64;
    while ctx.within(30, 600) && (round < 3 || !ctx.quick()) {
        for via in [Via2::Hand, Via2::Ord, Via2::Prio] {
            sequences(&ctx, &mut rng, via, round).await;
            concurrent(&ctx, &mut rng, via).await;
        }
        mixed(&ctx, &mut rng).await;
        numbers(&ctx, &mut rng).await;
        after_reinit(&ctx, &mut rng).await;
        round += 1;
    }
    ctx.require("fresh_accepted", 1500);
    ctx.require("replays", 1500);
    ctx.require("concurrent_bursts", 200);
    ctx.require("too_old", 100);
    ctx.require("mixed", 100);
    ctx.require("own_numbers", 400);
}

struct St {
    node: TestNode,
    w: WirePeer,
    via: Via2,
    /// accepted deliveries per sequence number
    sent: HashMap<u64, Vec<Vec<u8>>>,
    max: u64,
}

async fn start(ctx: &C, rng: &mut SmallRng, via: Via2) -> Option<St> {
    let opts = adnl::NodeOptions { packet_history_enabled: true, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if !w.ping(rng, 5, Duration::from_millis(1500)).await {
        ctx.violation("no-service", "an honest peer is not answered with history enabled");
        return None;
    }
    if via != Via2::Hand && !w.establish_channel(rng).await {
        ctx.violation("no-channel", "an honest peer could not establish a channel with history enabled");
        return None;
    }
    let max = w.seqno;
    Some(St { node, w, via, sent: Default::default(), max })
}

impl St {
    fn packet(&mut self, rng: &mut SmallRng, seqno: u64) -> (Vec<u8>, Vec<u8>) {
        let mut d = vec![0x41, 0x42, 0x43, 0x44];
        d.extend(rand_bytes(rng, 16));
        let msgs = vec![Msg::Custom(d.clone())];
        let p = match self.via {
            Via2::Hand => {
                let mut c = self.w.handshake_contents(rng, msgs);
                c.seqno = Some(seqno);
                let me = self.w.me.clone();
                WirePeer::sign(&mut c, &me);
                seal_handshake(rng, &self.w.to_short, &self.w.to_pub, &c.ser(true), None)
            }
            v => {
                let mut c = self.w.channel_contents(rng, msgs);
                c.seqno = Some(seqno);
                self.w.chan.as_ref().unwrap().seal(&c.ser(true), v == Via2::Prio, None)
            }
        };
        self.sent.entry(seqno).or_default().push(d.clone());
        (p, d)
    }
    async fn expect(&self, ctx: &C, want: &[(u64, Vec<u8>)], what: &str) {
        let end = std::time::Instant::now() + Duration::from_millis(2500);
        let mut missing: Vec<u64> = Vec::new();
        while std::time::Instant::now() < end {
            let have: std::collections::HashSet<Vec<u8>> = self.node.rec.events.lock().unwrap().iter().map(|e| e.data.clone()).collect();
            missing = want.iter().filter(|(_, d)| !have.contains(d)).map(|x| x.0).collect();
            if missing.is_empty() {
                break;
            }
            sleep_ms(5).await;
        }
        ctx.count("fresh_accepted", (want.len() - missing.len()) as u64);
        if !missing.is_empty() {
            if udp_drops(self.node.port()) > 0 {
                ctx.count("kernel_drops", 1);
                return;
            }
            ctx.violation(
                "fresh-rejected",
                format!("{what} ({:?}): {} of {} new packets within the window were not accepted, e.g. number {} with newest {}", self.via, missing.len(), want.len(), missing[0], self.max),
            );
        }
    }
    /// At most one delivery per sequence number, ever.
    fn at_most_once(&self, ctx: &C, what: &str) {
        let mut owner: HashMap<&[u8], u64> = HashMap::new();
        for (s, ds) in &self.sent {
            for d in ds {
                owner.insert(d, *s);
            }
        }
        let mut n: HashMap<u64, u32> = HashMap::new();
        for e in self.node.rec.events.lock().unwrap().iter() {
            if let Some(s) = owner.get(e.data.as_slice()) {
                *n.entry(*s).or_default() += 1;
            }
        }
        if let Some((s, k)) = n.iter().filter(|(_, k)| **k > 1).max_by_key(|x| x.1) {
            ctx.violation("accepted-twice", format!("{what} ({:?}): packets with sequence number {s} were processed {k} times (newest {})", self.via, self.max));
        }
    }
}

async fn sequences(ctx: &C, rng: &mut SmallRng, via: Via2, round: u64) {
    let Some(mut s) = start(ctx, rng, via).await else { return };
    let mut packets: HashMap<u64, Vec<u8>> = HashMap::new();
    let steps = ctx.pick(33, 77);
    for step in 0..steps {
        // A batch of fresh numbers
        let base = s.max;
        let mut fresh: Vec<u64> = match step % 11 {
            0 => (base + 1..base + 40).collect(),
            1 => (base + 1..base + 150).rev().collect(),
            2 => {
                // straddle a multiple of 256
                let edge = (base / 256 + 1) * 256;
                (edge - 6..edge + 6).filter(|x| *x > base).collect()
            }
            3 => {
                let mut v: Vec<u64> = (base + 1..base + 250).collect();
                v.shuffle(rng);
                v
            }
            4 => vec![base + 256, base + 257, base + 1, base + 2],
            5 => vec![(base / 256 + 1) * 256],
            6 => vec![base + rng.gen_range(300..700)],
            7 => {
                // holes left before the newest
                (base + 1..base + 200).filter(|x| x % 3 != 0).collect()
            }
            9 | 10 => {
                // a jump, then late numbers just below the new top, those right below it last
                let top = if step % 11 == 9 { (base / 256 + rng.gen_range(2..6)) * 256 + rng.gen_range(0..256) } else { base + rng.gen_range(257..1500) };
                let mut v: Vec<u64> = (top - 250..top).filter(|x| *x > base && rng.gen_bool(0.6)).collect();
                v.shuffle(rng);
                v.insert(0, top);
                v
            }
            _ => {
                // the holes, late but within 256 of the newest
                (base.saturating_sub(199)..base).filter(|x| *x > 0 && !s.sent.contains_key(x) && *x > base.saturating_sub(254)).collect()
            }
        };
        // Some numbers may have been used by the set-up
        let setup = 60u64;
        if step < 2 {
            fresh.retain(|x| *x > setup || *x > base);
        }
        let top = fresh.iter().copied().max().unwrap_or(base).max(base);
        let mut want = Vec::new();
        // Without an ordering guarantee only those near the top of the batch are certain
        for chunk in fresh.chunks(40) {
            for n in chunk {
                if s.sent.contains_key(n) || *n + 255 < top || *n <= setup_floor(&s) {
                    continue;
                }
                let (p, d) = s.packet(rng, *n);
                s.w.send_raw(&p).await;
                packets.insert(*n, p);
                want.push((*n, d));
                ctx.case(("fresh", via, step % 11, top - n, n % 64 == 0, n % 256 < 2));
            }
            sleep_ms(3).await;
        }
        s.max = top;
        s.expect(ctx, &want, "sequence").await;
        // Replays: identical copies and other packets with the same number
        let mut olds: Vec<u64> = packets.keys().copied().collect();
        olds.sort();
        let n = olds.len();
        let mut pick: Vec<u64> = olds[n.saturating_sub(12)..].to_vec();
        pick.extend((0..28).map(|_| olds[rng.gen_range(0..n)]));
        for n in pick {
            let p = if rng.gen() { packets[&n].clone() } else { s.packet(rng, n).0 };
            s.w.send_raw(&p).await;
            ctx.count("replays", 1);
            ctx.case(("replay", via, (s.max - n).min(600) / 8, n % 256 == 0, n % 64 == 0));
        }
        // Never used numbers far behind
        let mut old_marks = Vec::new();
        if s.max > 1200 {
            for _ in 0..8 {
                let n = rng.gen_range(1..s.max - 1030);
                if s.sent.contains_key(&n) {
                    continue;
                }
                let (p, d) = s.packet(rng, n);
                s.w.send_raw(&p).await;
                old_marks.push((n, d));
                ctx.count("too_old", 1);
                ctx.case(("old", via, n % 256 == 0));
            }
        }
        sleep_ms(30).await;
        s.at_most_once(ctx, "replays");
        for (n, d) in &old_marks {
            if s.node.rec.count(|e| e.data == *d) > 0 {
                ctx.violation("old-accepted", format!("number {n} was accepted when {} had been seen", s.max));
            }
        }
        if ctx.violated() {
            return;
        }
    }
    // Extremes at the end of the number space
    for n in [1u64 << 32, (1 << 32) + 1, u64::MAX - 512, u64::MAX - 256, u64::MAX - 255, u64::MAX - 1, u64::MAX] {
        let (p, d) = s.packet(rng, n);
        s.w.send_raw(&p).await;
        s.max = n;
        s.expect(ctx, &[(n, d)], "large numbers").await;
        for _ in 0..3 {
            s.w.send_raw(&p).await;
            let (q, _) = s.packet(rng, n);
            s.w.send_raw(&q).await;
        }
        ctx.count("replays", 6);
        ctx.case(("extreme", via, n));
    }
    sleep_ms(60).await;
    s.at_most_once(ctx, "large numbers");
    if round == 0 {
        ctx.sample(json!({"path": format!("{via:?}"), "numbers": s.sent.len(), "deliveries": s.node.rec.len()}));
    }
    ctx.check_panics("packet history");
}

/// Numbers the set-up may have used.
fn setup_floor(s: &St) -> u64 {
    // `start` leaves at most this many in use; they are below every number we choose first
    if s.sent.is_empty() {
        s.max
    } else {
        *s.sent.keys().min().unwrap() - 1
    }
}

async fn concurrent(ctx: &C, rng: &mut SmallRng, via: Via2) {
    let Some(mut s) = start(ctx, rng, via).await else { return };
    // Copies leave from several sockets at once
    let socks: Vec<_> = (0..4).map(|_| std::net::UdpSocket::bind("127.0.0.1:0").unwrap()).collect();
    let to = s.w.to;
    for burst in 0..ctx.pick(90usize, 400) {
        let step = [1u64, 1, 1, 255, 256, 513][rng.gen_range(0..6)];
        let n = s.max + step;
        let mut copies = Vec::new();
        let same = rng.gen_bool(0.5);
        let (p, _) = s.packet(rng, n);
        for _ in 0..8 {
            copies.push(if same { p.clone() } else { s.packet(rng, n).0 });
        }
        std::thread::scope(|sc| {
            let bar = std::sync::Arc::new(std::sync::Barrier::new(socks.len()));
            for (i, k) in socks.iter().enumerate() {
                let (bar, mine) = (bar.clone(), [copies[2 * i].clone(), copies[2 * i + 1].clone()]);
                sc.spawn(move || {
                    bar.wait();
                    for m in mine {
                        k.send_to(&m, to).ok();
                    }
                });
            }
        });
        s.max = n;
        // the next burst may push this number out of the window
        s.node.rec.wait(burst + 1, Duration::from_millis(500), |_| true).await;
        ctx.count("concurrent_bursts", 1);
        ctx.case(("burst", via, same, step));
        if burst % 10 == 9 {
            sleep_ms(10).await;
            s.at_most_once(ctx, "concurrent copies");
            if ctx.violated() {
                return;
            }
        }
    }
    sleep_ms(50).await;
    s.at_most_once(ctx, "concurrent copies");
    // each burst must have been accepted once
    let got = s.node.rec.len();
    if got < s.sent.len() && udp_drops(s.node.port()) == 0 {
        ctx.violation("fresh-rejected", format!("{via:?}: only {got} of {} numbers sent in concurrent copies were accepted", s.sent.len()));
    }
    ctx.count("fresh_accepted", got as u64);
    ctx.check_panics("concurrent copies");
}

/// A restarted peer starts counting anew; what it sent before stays rejected.
async fn after_reinit(ctx: &C, rng: &mut SmallRng) {
    let Some(mut s) = start(ctx, rng, Via2::Hand).await else { return };
    let mut old = Vec::new();
    // every position of the window is used before and after
    for _ in 0..14 {
        let mut want = Vec::new();
        for n in s.max + 1..s.max + 41 {
            let (p, d) = s.packet(rng, n);
            s.w.send_raw(&p).await;
            want.push((n, d.clone()));
            old.push((n, p, d));
        }
        s.max += 40;
        s.expect(ctx, &want, "before a restart").await;
    }
    // restart
    s.w.start += 2;
    s.w.their_start = 0;
    s.w.seqno = 0;
    if !s.w.ping(rng, 5, Duration::from_millis(1500)).await {
        ctx.violation("restart-refused", "a peer that restarted and counts from one again is not served");
        return;
    }
    let first = s.w.seqno + 1;
    let before = s.node.rec.len();
    let mut fresh = 0;
    s.max = first - 1;
    for _ in 0..14 {
        let mut want = Vec::new();
        for n in s.max + 1..s.max + 41 {
            let (p, d) = s.packet(rng, n);
            s.w.send_raw(&p).await;
            want.push((n, d));
        }
        s.max += 40;
        fresh += want.len();
        s.expect(ctx, &want, "after a restart").await;
    }
    for (_, p, _) in old.iter().rev().take(60) {
        s.w.send_raw(p).await;
        ctx.count("replays", 1);
    }
    sleep_ms(40).await;
    let after = s.node.rec.len();
    if after > before + fresh {
        ctx.violation("accepted-twice", "packets from before a peer's restart were accepted again");
    }
    ctx.case(("reinit", 0));
    ctx.check_panics("restart with history");
}

/// Ordinary and priority packets count independently.
async fn mixed(ctx: &C, rng: &mut SmallRng) {
    let Some(mut s) = start(ctx, rng, Via2::Ord).await else { return };
    let far = rng.gen_range(300..3000);
    for (step, ahead) in [(0, 0), (1, 0), (2, far), (3, 0)] {
        // the two directions of distance: the same numbers, then one path far ahead of the other
        let (first, second) = if step % 2 == 0 { (Via2::Ord, Via2::Prio) } else { (Via2::Prio, Via2::Ord) };
        let base = s.max;
        for (via, base) in [(first, base + ahead), (second, base)] {
            s.via = via;
            let mut want = Vec::new();
            for n in base + 1..base + 40 {
                if s.sent.get(&n).map_or(0, |v| v.len()) > 1 {
                    continue;
                }
                let (p, d) = s.packet(rng, n);
                s.w.send_raw(&p).await;
                want.push((n, d));
            }
            ctx.count("mixed", want.len() as u64);
            ctx.case(("mixed", via, step));
            s.expect(ctx, &want, "ordinary and priority packets with the same numbers").await;
            if ctx.violated() {
                return;
            }
        }
        s.max = base + 40 + ahead;
    }
    ctx.check_panics("ordinary and priority packets");
}

/// A node never gives two packets of one path the same number, whatever it sends and from however many threads.
async fn numbers(ctx: &C, rng: &mut SmallRng) {
    for (chan, prio) in [(false, false), (false, true), (true, false), (true, true)] {
        let opts = adnl::NodeOptions { packet_history_enabled: true, force_use_priority_channels: prio, ..default_opts() };
        let node = TestNode::start(rng, 1, opts, Rec::echo());
        let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
        w.auto_channel = chan;
        if !w.ping(rng, 5, Duration::from_millis(1500)).await || chan && !w.establish_channel(rng).await {
            ctx.violation("no-service", "an honest peer is not answered with history enabled");
            return;
        }
        let mut seen: [std::collections::HashSet<u64>; 2] = Default::default();
        let mut n = 0;
        for round in 0..10 {
            // answers and own messages, the latter from several threads
            let threads: Vec<_> = (0..4u8)
                .map(|t| {
                    let (a, l, p) = (node.adnl.clone(), node.id(0), sid(&w.me.short));
                    std::thread::spawn(move || {
                        for i in 0..4 {
                            a.send_custom_message(&l, &p, &[6, 6, 6, 6, t, i]).ok();
                        }
                    })
                })
                .collect();
            for i in 0..6 {
                let q = Msg::Query { id: rng.gen(), data: vec![5, 5, 5, 5, i] };
                if chan && i % 2 == 0 {
                    w.send_ch(rng, vec![q], i % 4 == 0).await;
                } else {
                    w.send(rng, vec![q]).await;
                }
            }
            for t in threads {
                t.join().ok();
            }
            while let Some(g) = w.recv(Duration::from_millis(40)).await {
                let p = matches!(g.via, Via::Channel { prio: true });
                let Some(s) = g.contents.seqno else { continue };
                n += 1;
                if !seen[p as usize].insert(s) {
                    ctx.violation("number-reused", format!("the node sent two packets with number {s} (channel {chan}, forced priority {prio}, via {:?})", g.via));
                    return;
                }
            }
            ctx.case(("own numbers", chan, prio, round));
        }
        ctx.count("own_numbers", n);
    }
    ctx.check_panics("numbers of the node's packets");
}
