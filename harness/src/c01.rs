//! C01: custom messages and queries arrive byte-identical or not at all.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use rand::seq::SliceRandom;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

fn payload(rng: &mut impl Rng, len: usize) -> Vec<u8> {
    // First four bytes are a "constructor" that is neither ping nor anything built in
    let mut v = rand_bytes(rng, len.max(4));
    v[..4].copy_from_slice(&[0x11, 0x22, 0x33, 0x44]);
    v
}

fn sizes(rng: &mut impl Rng, quick: bool) -> Vec<usize> {
    let mut v = vec![4, 5, 7, 8, 64, 253, 254, 255, 256, 500];
    for c in [880usize, 912, 940, 944, 970, 972, 980, 984, 1008, 1012, 1016, 1024] {
        for d in 0..4 {
            v.push(c + d);
        }
    }
    for k in 1..=6usize {
        for d in [-44i64, -41, -13, -12, -11, -8, -4, -1, 0, 1, 4, 12, 40] {
            v.push((1024 * k as i64 + d) as usize);
        }
    }
    v.extend([10_000, 16_384, 20_001, 30_000, 40_000]);
    for _ in 0..if quick { 30 } else { 300 } {
        v.push(rng.gen_range(4..24_000));
    }
    v.shuffle(rng);
    v
}

pub async fn run(ctx: C) {
    ctx.rule("one case = one payload handed to the node (custom message, query or answer) or one crafted multipart transfer; distinct by kind, size and link condition; a case is non-trivial when its delivery was decided (delivered bytes compared, or loss injected)");
    ctx.assume("kernel socket-buffer drops are read from /proc/net/udp; a missing delivery in a loss-free run counts only if the kernel dropped nothing");
    lossless(&ctx).await;
    if !ctx.violated() {
        big(&ctx).await;
    }
    if !ctx.violated() {
        let c = ctx.clone();
        let slow = tokio::spawn(async move { slow_parts(&c).await });
        crafted(&ctx).await;
        slow_repeat(&ctx).await;
        slow.await.ok();
    }
    let mut round = 0;
    while ctx.within(22, 600) && (round < 6 || !ctx.quick()) {
        faulty(&ctx, round).await;
        round += 1;
    }
    ctx.require("delivered", 100);
    ctx.require("delivered_multipart", 40);
    ctx.require("delivered_big", 4);
    ctx.require("slow_parts_delivered", 3);
}

/// Messages of hundreds of datagrams (well above every 16-bit size).
async fn big(ctx: &C) {
    let mut rng = ctx.rng(9);
    let mut list = vec![65_480usize, 65_536, 66_000, 131_072 + 500];
    if !ctx.quick() {
        list.extend([65_492, 65_520, 65_524, 65_535, 65_537, 90_001, 131_072, 150_003, 200_000, 262_144, 300_000]);
    }
    for version in [None, Some(0u16)] {
        let opts = everscale_network::adnl::NodeOptions { version, ..default_opts() };
        let a = TestNode::start(&mut rng, 1, opts, Rec::echo());
        let b = TestNode::start(&mut rng, 1, opts, Rec::echo());
        a.know(0, &b, 0);
        b.know(0, &a, 0);
        for &size in &list {
            let data = payload(&mut rng, size);
            let (mut custom, mut answered, mut undropped) = (false, false, 0);
            for _ in 0..12 {
                if (custom && answered) || undropped == 3 || ctx.violated() {
                    break;
                }
                b.rec.take();
                let (d1, d2) = (udp_drops(b.port()), udp_drops(a.port()));
                if !custom {
                    if let Err(e) = a.adnl.send_custom_message(&a.id(0), &b.id(0), &data) {
                        ctx.violation("send-refused", format!("sending a custom message of {size} bytes failed: {e}"));
                        return;
                    }
                    b.rec.wait(1, Duration::from_secs(3), |e| !e.query).await;
                    for e in b.rec.take() {
                        if e.data != data {
                            ctx.violation("altered", format!("custom message of {size} bytes arrived altered ({} bytes)", e.data.len()));
                        }
                        custom = true;
                        ctx.count("delivered_big", 1);
                    }
                }
                if !answered {
                    let q = payload(&mut rng, size);
                    if let Ok(Some(ans)) = a.adnl.query_raw(&a.id(0), &b.id(0), q.clone().into(), Some(3000)).await {
                        if ans != echo_answer(&q) {
                            ctx.violation("altered-answer", format!("answer to a query of {size} bytes arrived altered ({} bytes)", ans.len()));
                        }
                        answered = true;
                        ctx.count("delivered_big", 1);
                    }
                }
                if udp_drops(b.port()) == d1 && udp_drops(a.port()) == d2 {
                    undropped += 1;
                }
            }
            ctx.case(("big", size, version));
            if !(custom && answered) && undropped == 3 {
                ctx.violation("lost-big", format!("message of {size} bytes (version {version:?}): custom message delivered: {custom}, query answered: {answered}, over a loss-free link, 3 attempts"));
                return;
            }
        }
    }
}

/// Sequential and mildly concurrent traffic between two nodes over plain loopback.
async fn lossless(ctx: &C) {
    let mut rng = ctx.rng(1);
    for version in [None, Some(0u16)] {
        for fresh in [false, true] {
            let opts = everscale_network::adnl::NodeOptions { version, ..default_opts() };
            let mk = |rng: &mut _| TestNode::start(rng, 1, opts, Rec::echo());
            let mut a = mk(&mut rng);
            let mut b = mk(&mut rng);
            a.know(0, &b, 0);
            b.know(0, &a, 0);
            let mut list = sizes(&mut rng, ctx.quick());
            if fresh {
                list.truncate(ctx.pick(40, 150));
            } else if version.is_some() {
                list.truncate(60);
            }
            for size in list {
                if ctx.violated() {
                    return;
                }
                if fresh {
                    // New nodes: the message travels with the channel offer, in a handshake
                    a = mk(&mut rng);
                    b = mk(&mut rng);
                    a.know(0, &b, 0);
                    b.know(0, &a, 0);
                    if rng.gen() {
                        // ... or with the channel confirmation
                        b.adnl.send_custom_message(&b.id(0), &a.id(0), &payload(&mut rng, 8)).ok();
                        a.rec.wait(1, Duration::from_secs(5), |e| !e.query).await;
                    }
                }
                // Custom message
                let mut ok = false;
                let mut undropped = 0;
                for _attempt in 0..6 {
                    if undropped == 3 {
                        break;
                    }
                    let data = payload(&mut rng, size);
                    b.rec.take();
                    let drops = udp_drops(b.port());
                    if let Err(e) = a.adnl.send_custom_message(&a.id(0), &b.id(0), &data) {
                        ctx.violation("send-refused", format!("sending a custom message of {size} bytes failed: {e}"));
                        return;
                    }
                    let got = b.rec.wait(1, Duration::from_secs(4), |e| !e.query).await;
                    if !got && udp_drops(b.port()) > drops {
                        continue;
                    }
                    undropped += 1;
                    // late copies
                    if size % 7 == 0 {
                        sleep_ms(15).await;
                    }
                    let evs = b.rec.take();
                    for e in &evs {
                        if e.data != data {
                            ctx.violation("altered", format!("custom message of {size} bytes arrived altered ({} bytes)", e.data.len()));
                            return;
                        }
                    }
                    if evs.len() > 1 {
                        ctx.violation("duplicated", format!("custom message of {size} bytes delivered {} times", evs.len()));
                        return;
                    }
                    if evs.len() == 1 {
                        ok = true;
                        ctx.count("delivered", 1);
                        if size > 1024 {
                            ctx.count("delivered_multipart", 1);
                        }
                        break;
                    }
                }
                ctx.case(("custom", size, version, fresh));
                if !ok && undropped == 0 {
                    ctx.count("undecided_kernel_drops", 1);
                } else if !ok {
                    ctx.violation("lost", format!("custom message of {size} bytes (version {version:?}, fresh peers {fresh}) never arrived over a loss-free link, 3 attempts"));
                    return;
                }
                // Query and answer of the same size
                let mut ok = false;
                let mut undropped = 0;
                for _ in 0..6 {
                    if undropped == 3 {
                        break;
                    }
                    let q = payload(&mut rng, size);
                    b.rec.take();
                    let (d1, d2) = (udp_drops(b.port()), udp_drops(a.port()));
                    let r = a.adnl.query_raw(&a.id(0), &b.id(0), q.clone().into(), Some(4000)).await;
                    let evs = b.rec.take();
                    for e in &evs {
                        if e.data != q {
                            ctx.violation("altered-query", format!("query of {size} bytes arrived altered"));
                            return;
                        }
                    }
                    if evs.len() > 1 {
                        ctx.violation("duplicated-query", format!("query of {size} bytes delivered {} times", evs.len()));
                        return;
                    }
                    match r {
                        Ok(Some(ans)) => {
                            if ans != echo_answer(&q) {
                                ctx.violation("altered-answer", format!("answer to a query of {size} bytes arrived altered ({} bytes)", ans.len()));
                                return;
                            }
                            ok = true;
                            ctx.count("delivered", 2);
                            if size > 1024 {
                                ctx.count("delivered_multipart", 2);
                            }
                            break;
                        }
                        Ok(None) => {
                            if udp_drops(b.port()) > d1 || udp_drops(a.port()) > d2 {
                                continue;
                            }
                            undropped += 1;
                        }
                        Err(e) => {
                            ctx.violation("query-refused", format!("query of {size} bytes failed: {e}"));
                            return;
                        }
                    }
                }
                ctx.case(("query", size, version, fresh));
                if !ok && undropped == 0 {
                    ctx.count("undecided_kernel_drops", 1);
                } else if !ok {
                    ctx.violation("lost-query", format!("query of {size} bytes got no answer over a loss-free link, 3 attempts"));
                    return;
                }
            }
        }
    }
    // Concurrent bursts
    let a = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
    let b = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
    a.know(0, &b, 0);
    b.know(0, &a, 0);
    a.adnl.query_raw(&a.id(0), &b.id(0), payload(&mut rng, 8).into(), Some(3000)).await.ok();
    for burst in 0..ctx.pick(25, 300) {
        b.rec.take();
        let drops = udp_drops(b.port());
        let mut sent: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut budget = 40_000usize;
        while budget > 4000 {
            let s = rng.gen_range(4..6000usize).min(budget);
            budget -= s;
            let d = payload(&mut rng, s);
            a.adnl.send_custom_message(&a.id(0), &b.id(0), &d).ok();
            // the same bytes twice now and then: two transfers with equal content
            sent.insert(d, 0);
        }
        let n = sent.len();
        b.rec.wait(n, Duration::from_secs(4), |e| !e.query).await;
        for e in b.rec.take() {
            match sent.get_mut(&e.data) {
                Some(c) => *c += 1,
                None => {
                    ctx.violation("altered", "a message that was never sent was delivered in a concurrent burst");
                    return;
                }
            }
        }
        ctx.case(("burst", burst, n));
        let missing = sent.values().filter(|c| **c == 0).count();
        let dup = sent.values().filter(|c| **c > 1).count();
        ctx.count("delivered", (n - missing) as u64);
        if dup > 0 {
            ctx.violation("duplicated", format!("{dup} of {n} messages of a burst delivered more than once"));
            return;
        }
        if missing > 0 && udp_drops(b.port()) == drops {
            ctx.violation("lost", format!("{missing} of {n} messages of a burst never arrived over a loss-free link"));
            return;
        }
    }
    ctx.sample(json!({"kind": "burst", "messages": 25, "max_len": 6000}));
}

/// Transfers assembled by hand: any split, any order, repeated parts, interleaved transfers.
async fn crafted(ctx: &C) {
    let mut rng = ctx.rng(2);
    let node = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
    let mut w = WirePeer::new(&mut rng, node.addr(), node.pk(0)).await;
    let n = ctx.pick(250, 3000);
    for i in 0..n {
        if ctx.violated() || !ctx.within(20, 500) {
            break;
        }
        let mode = i % 6;
        let mut transfers = Vec::new();
        for _ in 0..if mode == 5 { 3 } else { 1 } {
            let len = rng.gen_range(60..6000);
            let data = payload(&mut rng, len);
            let full = Msg::Custom(data.clone()).ser();
            let hash = sha256(&full);
            let mut parts = Vec::new();
            let mut o = 0;
            while o < full.len() {
                let l = if mode == 1 {
                    // sizes that differ a lot
                    [1, 4, 33, 700, 1000][rng.gen_range(0..5)]
                } else {
                    rng.gen_range(200..1024)
                }
                .min(full.len() - o);
                parts.push(Msg::Part {
                    hash,
                    total: full.len() as u32,
                    offset: o as u32,
                    data: full[o..o + l].to_vec(),
                });
                o += l;
            }
            transfers.push((data, parts));
        }
        let mut seq: Vec<Msg> = transfers.iter().flat_map(|(_, p)| p.clone()).collect();
        match mode {
            0 | 1 => {}
            2 | 5 => seq.shuffle(&mut rng),
            3 => {
                // repeat parts that are not the last to arrive
                let k = seq.len();
                seq.shuffle(&mut rng);
                for _ in 0..if k > 1 { k } else { 0 } {
                    let j = rng.gen_range(0..seq.len() - 1).min(seq.len() - 1);
                    let m = seq[j].clone();
                    let at = rng.gen_range(j..seq.len() - 1) + 1;
                    if at < seq.len() {
                        seq.insert(at, m);
                    }
                    if seq.len() > 80 {
                        break;
                    }
                }
            }
            _ => {
                // a second, different part for an offset already received must not change anything
                seq.shuffle(&mut rng);
                if seq.len() > 1 {
                    let j = rng.gen_range(0..seq.len() - 1);
                    if let Msg::Part { hash, total, offset, mut data } = seq[j].clone() {
                        for b in data.iter_mut() {
                            *b ^= 0x5a;
                        }
                        seq.insert(j + 1, Msg::Part { hash, total, offset, data });
                    }
                }
            }
        }
        if seq.len() > 90 {
            continue;
        }
        node.rec.take();
        let drops = udp_drops(node.port());
        // Parts of one case are sent one after another; each is handled in its own task, so for the
        // cases whose meaning depends on the order we leave a gap after every packet.
        let ordered = mode >= 3;
        for m in &seq {
            w.send(&mut rng, vec![m.clone()]).await;
            if ordered && mode != 5 {
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        let want = transfers.len();
        node.rec.wait(want, Duration::from_secs(4), |_| true).await;
        let evs = node.rec.take();
        ctx.case(("crafted", mode, seq.len(), transfers[0].0.len()));
        if i < 6 {
            ctx.sample(json!({"kind":"crafted transfer","mode":mode,"parts":seq.len(),"bytes":transfers[0].0.len()}));
        }
        for e in &evs {
            if !transfers.iter().any(|t| t.0 == e.data) {
                ctx.violation("altered", format!("crafted transfer (mode {mode}): delivered bytes were never sent"));
                return;
            }
        }
        ctx.count("crafted_delivered", evs.len() as u64);
        if mode == 4 {
            // A conflicting copy may at worst kill the transfer when handled out of order
            ctx.count("conflicting_part_cases", 1);
            if evs.is_empty() {
                ctx.count("conflicting_part_lost", 1);
            }
            continue;
        }
        if evs.len() < want && udp_drops(node.port()) == drops {
            ctx.violation("lost-transfer", format!("complete multipart transfer (mode {mode}, {} parts) was not delivered", seq.len()));
            return;
        }
    }
    let (c, l) = (ctx.counter("conflicting_part_cases"), ctx.counter("conflicting_part_lost"));
    if c >= 10 && l * 2 > c {
        ctx.violation("conflicting-part", format!("a later part with other bytes for an offset already received destroyed the transfer in {l} of {c} cases"));
    }
}

/// The same message again, slowly, while the clean-up of the first transfer is due.
async fn slow_repeat(ctx: &C) {
    let mut rng = ctx.rng(3);
    let opts = everscale_network::adnl::NodeOptions { transfer_timeout_sec: 1, ..default_opts() };
    let node = TestNode::start(&mut rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(&mut rng, node.addr(), node.pk(0)).await;
    let mut failed = 0;
    for attempt in 0..3 {
        let data = payload(&mut rng, 1800);
        let full = Msg::Custom(data.clone()).ser();
        let hash = sha256(&full);
        let part = |a: usize, b: usize| Msg::Part {
            hash,
            total: full.len() as u32,
            offset: a as u32,
            data: full[a..b].to_vec(),
        };
        let parts = [part(0, 900), part(900, full.len())];
        let t0 = Instant::now();
        w.send(&mut rng, vec![parts[0].clone()]).await;
        sleep_ms(5).await;
        w.send(&mut rng, vec![parts[1].clone()]).await;
        let first = node.rec.wait(1, Duration::from_secs(3), |e| e.data == data).await;
        tokio::time::sleep_until((t0 + Duration::from_millis(800)).into()).await;
        let t1 = Instant::now();
        w.send(&mut rng, vec![parts[0].clone()]).await;
        tokio::time::sleep_until((t0 + Duration::from_millis(1350)).into()).await;
        w.send(&mut rng, vec![parts[1].clone()]).await;
        let gap = t1.elapsed();
        let second = node.rec.wait(2, Duration::from_secs(2), |e| e.data == data).await;
        ctx.case(("slow-repeat", attempt));
        if second {
            ctx.count("slow_repeat_delivered", 1);
            return;
        }
        if first && gap < Duration::from_millis(900) {
            failed += 1;
        }
    }
    if failed >= 2 {
        ctx.violation("repeat-lost", "a repeated multipart message was lost because the expired clean-up of an earlier equal transfer removed it");
    }
}

/// A transfer lives as long as its parts keep arriving, also beyond the transfer timeout.
async fn slow_parts(ctx: &C) {
    let mut rng = ctx.rng(4);
    let opts = everscale_network::adnl::NodeOptions { transfer_timeout_sec: 2, ..default_opts() };
    let node = TestNode::start(&mut rng, 1, opts, Rec::echo());
    let mut lost = 0;
    for attempt in 0..4 {
        let mut set = Vec::new();
        for k in 0..4usize {
            let mut w = WirePeer::new(&mut rng, node.addr(), node.pk(0)).await;
            let data = payload(&mut rng, 5500 + 100 * k);
            let full = Msg::Custom(data.clone()).ser();
            let seed: u64 = rng.gen();
            set.push(async move {
                let mut rng = SmallRng::seed_from_u64(seed);
                let hash = sha256(&full);
                let mut worst = Duration::ZERO;
                let mut last = Instant::now();
                for (i, c) in full.chunks(600).enumerate() {
                    if i > 0 {
                        sleep_ms(700 + 100 * k as u64).await;
                    }
                    let p = Msg::Part { hash, total: full.len() as u32, offset: (i * 600) as u32, data: c.to_vec() };
                    w.send(&mut rng, vec![p]).await;
                    worst = worst.max(last.elapsed());
                    last = Instant::now();
                }
                (data, worst)
            });
        }
        let mut bad = None;
        for (data, worst) in futures_util::future::join_all(set).await {
            ctx.case(("slow-parts", attempt, data.len()));
            if node.rec.wait(1, Duration::from_secs(3), |e| e.data == data).await {
                ctx.count("slow_parts_delivered", 1);
            } else if worst < Duration::from_millis(1500) {
                bad = Some(data.len());
            }
        }
        match bad {
            None => return,
            Some(n) => {
                lost += 1;
                if lost >= 2 && udp_drops(node.port()) == 0 {
                    ctx.violation("slow-transfer-lost", format!("a message of {n} bytes whose parts came every 0.7-1 s was lost, though a transfer times out only after 2 s without any"));
                    return;
                }
            }
        }
    }
}

/// Traffic through a link that drops, duplicates, delays, truncates and flips bits.
async fn faulty(ctx: &C, round: u64) {
    let mut rng = ctx.rng(100 + round);
    let net = Net::new(ctx.seed ^ round);
    let mk = |rng: &mut rand::rngs::SmallRng| TestNode::start_ext(next_ip(), 0, vec![Ident::gen(rng)], default_opts(), Rec::echo(), None);
    let a = Arc::new(mk(&mut rng));
    let b = Arc::new(mk(&mut rng));
    net.attach(a.addr());
    net.attach(b.addr());
    a.know(0, &b, 0);
    b.know(0, &a, 0);
    let (drop, dup, delay, corrupt) = [
        (0.0, 0.0, 0.5, 0.0),
        (0.15, 0.0, 0.0, 0.0),
        (0.0, 0.3, 0.3, 0.0),
        (0.1, 0.1, 0.3, 0.1),
        (0.0, 0.0, 0.0, 0.3),
        (0.3, 0.3, 0.5, 0.3),
    ][round as usize % 6];
    let altered = Arc::new(Mutex::new(0u64));
    let alt = altered.clone();
    net.set(move |r, _, _, p| {
        let mut out = Vec::new();
        if r.gen_bool(drop) {
            return out;
        }
        let copies = if r.gen_bool(dup) { 2 } else { 1 };
        for _ in 0..copies {
            let d = if r.gen_bool(delay) { r.gen_range(1..25) } else { 0 };
            let mut q = p.clone();
            if r.gen_bool(corrupt) {
                *alt.lock().unwrap() += 1;
                match r.gen_range(0..3) {
                    0 => {
                        let i = r.gen_range(0..q.len());
                        q[i] ^= 1 << r.gen_range(0..8);
                    }
                    1 => q.truncate(r.gen_range(1..q.len())),
                    _ => q.extend_from_slice(&[0; 4]),
                }
            }
            out.push((Duration::from_millis(d), q));
        }
        out
    });
    let mut sent = std::collections::HashSet::new();
    let mut queries = Vec::new();
    for i in 0..ctx.pick(60, 200) {
        let len = [rng.gen_range(4..900), rng.gen_range(900..2200), rng.gen_range(2200..9000)][i % 3];
        let d = payload(&mut rng, len);
        sent.insert(d.clone());
        let (x, y) = if rng.gen_bool(0.7) { (&a, &b) } else { (&b, &a) };
        if i % 3 == 2 {
            let (x, lid, pid) = (x.clone(), x.id(0), y.id(0));
            let d2 = d.clone();
            queries.push((d, tokio::spawn(async move { x.adnl.query_raw(&lid, &pid, d2.into(), Some(1000)).await })));
        } else {
            x.adnl.send_custom_message(&x.id(0), &y.id(0), &d).ok();
        }
        ctx.case(("faulty", round % 6, len));
        if i % 4 == 3 {
            sleep_ms(4).await;
        }
    }
    for (q, h) in queries {
        if let Ok(Ok(Some(ans))) = h.await {
            ctx.count("faulty_answers", 1);
            if ans != echo_answer(&q) {
                ctx.violation("altered-answer", "answer arrived altered over a faulty link");
            }
        }
    }
    sleep_ms(100).await;
    for n in [&a, &b] {
        for e in n.rec.take() {
            ctx.count("faulty_delivered", 1);
            if !sent.contains(&e.data) {
                ctx.violation("altered", format!("faulty link delivered {} bytes that were never sent", e.data.len()));
            }
        }
    }
    ctx.count("datagrams_altered", *altered.lock().unwrap());
    ctx.count("datagrams_seen", net.seen.load(std::sync::atomic::Ordering::Relaxed));
    // Afterwards the link works again
    net.perfect();
    let mut ok = false;
    for _ in 0..5 {
        let d = payload(&mut rng, 2500);
        if let Ok(Some(ans)) = a.adnl.query_raw(&a.id(0), &b.id(0), d.clone().into(), Some(2000)).await {
            ok = ans == echo_answer(&d);
            break;
        }
    }
    ctx.case(("heal", round));
    if !ok {
        ctx.violation("no-recovery", "after the faults stopped a 2500-byte query was not answered in 5 attempts");
    }
}
