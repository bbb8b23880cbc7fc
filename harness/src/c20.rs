//! C20: RLDP transfers always drain, hostile parts do no harm.
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use everscale_network::rldp;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::nodes::*;
use crate::rldpw::*;
use crate::rt::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one hostile sequence of RLDP messages while honest queries run, or one transfer ended in a certain way and followed until its entries are gone; non-trivial because fields take extreme and inconsistent values in every order, on transfers of both directions, and transfers end by success, refusal, error, timeout, cancellation, abandonment or loss of the peer; distinct by kind of sequence or end and by size class");
    let mut rng = ctx.rng(20);
    let mut tasks = Vec::new();
    let only: Option<u64> = std::env::var("EVMON_ONLY").ok().and_then(|x| x.parse().ok());
    for i in (0..3u64).filter(|i| only.map_or(true, |x| x == *i)) {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = 0;
            while ctx.within(25, 600) && (round < 3 || !ctx.quick()) && !ctx.violated() {
                match i {
                    0 => hostile(&ctx, &mut rng, round).await,
                    1 => drain(&ctx, &mut rng, round).await,
                    _ => drain_cancelled(&ctx, &mut rng, round).await,
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    if let Some(s) = spinning("node").await {
        ctx.violation("spinning", format!("node threads are busy although nothing is sent: {s}"));
    }
    ctx.require("hostile_messages", 1500);
    ctx.require("honest_served", 30);
    ctx.require("drained", 3);
    ctx.require("transfers_followed", 100);
    ctx.check_panics("rldp");
}

fn opts(max_ms: u64) -> rldp::NodeOptions {
    rldp::NodeOptions { query_min_timeout_ms: max_ms / 3, query_max_timeout_ms: max_ms, ..Default::default() }
}

fn odd32(rng: &mut SmallRng) -> u32 {
    match rng.gen_range(0..12) {
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => u32::MAX - rng.gen_range(0..3),
        4 => 0x00ff_ffff,
        5 => 0x0100_0000,
        6 => 0x8000_0000,
        7 => 56_403 + rng.gen_range(0..3),
        8 => rng.gen_range(0..10),
        9 => 65_535,
        10 => rng.gen_range(0..3000),
        _ => rng.gen(),
    }
}
fn odd_size(rng: &mut SmallRng) -> u32 {
    [0, 1, 2, 7, 8, 9, 15, 16, 63, 64, 65, 100, 767, 768, 769, 1024, 65_535, 65_536, 65_544, 66_304, u32::MAX][rng.gen_range(0..21)]
}
fn odd_part(rng: &mut SmallRng, tid: &[u8; 32]) -> RM {
    let size = if rng.gen() { 768 } else { odd_size(rng) };
    let total_len = match rng.gen_range(0..4) {
        0 => odd32(rng),
        1 => rng.gen_range(1..5000),
        2 => 768 * rng.gen_range(1..6),
        _ => [10_485_760, 2_000_000, 2_000_001, 43_317_504, 56_403 * 8, 56_404 * 8][rng.gen_range(0..6)],
    };
    let total = match rng.gen_range(0..6) {
        0 => u64::MAX,
        1 => 1 << 32 | total_len as u64,
        2 => 0,
        3 => 10_485_760,
        _ => total_len as u64,
    };
    let len = match rng.gen_range(0..7) {
        0 => 0,
        1 => 1,
        2 => 767,
        3 => (size as usize).min(900),
        4 => (size as usize / 8 * 8).min(900),
        5 => rng.gen_range(0..900),
        _ => 768,
    };
    RM::Part {
        tid: *tid,
        fec: Fec { total: total_len, size, count: if rng.gen() { odd32(rng) } else { total_len.div_ceil(size.max(1)) } },
        part: if rng.gen_range(0..3) == 0 { odd32(rng) } else { 0 },
        total,
        seqno: if rng.gen() { odd32(rng) } else { rng.gen_range(0..8) },
        data: rand_bytes(rng, len),
    }
}
fn odd_control(rng: &mut SmallRng, tid: &[u8; 32]) -> RM {
    let part = if rng.gen() { 0 } else { odd32(rng) };
    if rng.gen() {
        RM::Confirm { tid: *tid, part, seqno: odd32(rng) }
    } else {
        RM::Complete { tid: *tid, part }
    }
}
fn any(rng: &mut SmallRng, tid: &[u8; 32]) -> RM {
    if rng.gen_range(0..3) == 0 {
        odd_control(rng, tid)
    } else {
        odd_part(rng, tid)
    }
}

/// One hostile sequence; a short name for the evidence.
fn sequence(rng: &mut SmallRng) -> (&'static str, Vec<RM>) {
    let tid = rand32(rng);
    let qid = rand32(rng);
    let qlen = [10usize, 40, 760, 3000, 9000][rng.gen_range(0..5)];
    let payload = rand_bytes(rng, qlen);
    let query = rquery(&qid, 1 << 20, &payload);
    match rng.gen_range(0..12) {
        0 => ("anything", (0..rng.gen_range(1..8)).map(|_| any(rng, &tid)).collect()),
        1 => {
            // many odd symbols of one set of parameters
            let first = odd_part(rng, &tid);
            let RM::Part { fec, part, total, data, .. } = first.clone() else { unreachable!() };
            let mut v = vec![first];
            for i in 0..rng.gen_range(1..30) {
                let seqno = if rng.gen_range(0..4) == 0 { odd32(rng) } else { i };
                let len = if rng.gen_range(0..6) == 0 { rng.gen_range(0..900) } else { data.len() };
                v.push(RM::Part { tid, fec: fec.clone(), part, total, seqno, data: rand_bytes(rng, len) });
            }
            ("same parameters", v)
        }
        2 => {
            // a true transfer with one field changed in one packet
            let mut v = transfer(&tid, &query, 4);
            let i = rng.gen_range(0..v.len());
            if let RM::Part { fec, part, total, seqno, data, .. } = &mut v[i] {
                match rng.gen_range(0..8) {
                    0 => fec.total = odd32(rng),
                    1 => fec.size = odd_size(rng),
                    2 => fec.count = odd32(rng),
                    3 => *part = odd32(rng),
                    4 => *total = odd32(rng) as u64,
                    5 => *seqno = odd32(rng),
                    6 => data.truncate(rng.gen_range(0..768)),
                    _ => data.extend([0; 9]),
                }
            }
            ("one field changed", v)
        }
        3 => {
            // all symbols of another length
            let mut v = transfer(&tid, &query, 2);
            let n = [0usize, 1, 8, 64, 760, 767, 769, 776, 900][rng.gen_range(0..9)];
            for m in &mut v {
                if let RM::Part { data, .. } = m {
                    data.resize(n, 1);
                }
            }
            ("other symbol length", v)
        }
        4 => {
            // a whole transfer of something that is no query
            let n = [0usize, 1, 3, 4, 40, 47, 48, 49, 800][rng.gen_range(0..9)];
            let junk = rand_bytes(rng, n);
            ("no query", transfer(&tid, &junk, 2))
        }
        5 => {
            // a query cut short or with a wrong length
            let mut q = query.clone();
            match rng.gen_range(0..3) {
                0 => q.truncate(rng.gen_range(0..q.len())),
                1 => q[48] = 0xfe,
                _ => q[49] = 0xff,
            }
            ("query cut", transfer(&tid, &q, 2))
        }
        6 => {
            // controls for a transfer that answers: sent while the answer is being sent
            let mut v = transfer(&tid, &query, 2);
            for _ in 0..12 {
                v.push(odd_control(rng, &negate(&tid)));
            }
            ("controls for the answer", v)
        }
        7 => {
            // completes of parts ahead
            let mut v = transfer(&tid, &query, 2);
            for p in [0u32, 1, 2, u32::MAX, 0, u32::MAX - 1] {
                v.push(RM::Complete { tid: negate(&tid), part: p });
                v.push(RM::Confirm { tid: negate(&tid), part: p, seqno: odd32(rng) });
            }
            ("completes ahead", v)
        }
        8 => {
            // claims a bigger block than the transfer
            let v = (0..4)
                .map(|i| RM::Part { tid, fec: Fec { total: 10_000_000, size: 768, count: 13_021 }, part: 0, total: 1000, seqno: i, data: vec![0; 768] })
                .collect();
            ("block above total", v)
        }
        9 => {
            // parts in the wrong order
            let mut v = transfer(&tid, &query, 3);
            for (i, m) in v.iter_mut().enumerate() {
                if let RM::Part { part, .. } = m {
                    *part = (i % 3) as u32;
                }
            }
            ("parts out of order", v)
        }
        10 => {
            // repair symbols with ids at the end of the range
            let v = (0..20)
                .map(|i| RM::Part { tid, fec: Fec { total: 3000, size: 768, count: 4 }, part: 0, total: 3000, seqno: [0x00ff_ffff - i, 0x0100_0000 + i, u32::MAX - i, 0x00ff_fff0 + i][i as usize % 4], data: rand_bytes(rng, 768) })
                .collect();
            ("last symbol ids", v)
        }
        _ => {
            // the other side's id in use already
            let mut v = transfer(&tid, &query, 1);
            v.extend(transfer(&negate(&tid), &query, 1));
            ("both ids", v)
        }
    }
}

async fn hostile(ctx: &C, rng: &mut SmallRng, round: u64) {
    let mut o = opts(1500);
    if round % 2 == 1 {
        o.max_answer_size = u32::MAX;
    }
    let a = Arc::new(RNode::start(rng, o, Rec::echo()));
    let friend = Arc::new(RNode::start(rng, opts(5000), Rec::echo()));
    a.know(&friend);
    friend.know(&a);
    // hostile: what its queries and answers look like is decided by a seed
    let seed: u64 = rng.gen();
    let n = Mutex::new(0u64);
    let p = RPeer::new(rng, &a, move |tid, q| {
        let mut n = n.lock().unwrap();
        *n += 1;
        let mut r = SmallRng::seed_from_u64(seed ^ *n);
        let back = negate(tid);
        let mut v: Vec<RM> = Vec::new();
        match r.gen_range(0..6) {
            0 => v.extend((0..20).map(|_| any(&mut r, &back))),
            1 => {
                // both directions
                v.extend((0..20).map(|i| if i % 2 == 0 { any(&mut r, &back) } else { any(&mut r, tid) }));
            }
            2 => v.extend([0u32, 1, u32::MAX, 2].map(|part| RM::Complete { tid: *tid, part })),
            3 => {
                let x: Vec<u8> = (0..2000).map(|_| r.gen()).collect();
                v.extend(transfer(&back, &ranswer(&q.id, &x), 2));
                let i = r.gen_range(0..v.len());
                v[i] = odd_part(&mut r, &back);
            }
            4 => {
                let x: Vec<u8> = (0..r.gen_range(0..1000)).map(|_| r.gen()).collect();
                v.extend(transfer(&back, &x, 2));
            }
            _ => {
                let (_, mut s) = sequence(&mut r);
                for m in &mut s {
                    match m {
                        RM::Part { tid, .. } | RM::Confirm { tid, .. } | RM::Complete { tid, .. } => *tid = back,
                    }
                }
                v.extend(s);
            }
        }
        v.into_iter().map(|m| (Duration::ZERO, m)).collect()
    })
    .await;
    let stop = Arc::new(AtomicBool::new(false));
    // honest queries in both directions all the time
    let mut honest = Vec::new();
    for (x, y) in [(a.clone(), friend.clone()), (friend.clone(), a.clone())] {
        let (stop, ctx, seed) = (stop.clone(), ctx.clone(), rng.gen::<u64>());
        honest.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            while !stop.load(Ordering::SeqCst) {
                let len = rng.gen_range(30..4000);
                let q = rand_bytes(&mut rng, len);
                let mut ok = false;
                for _ in 0..4 {
                    if let Some(Ok(Some(x))) = x.query(y.n.idents[0].short, q.clone()).await {
                        ok = true;
                        if x != echo_answer(&q) {
                            ctx.violation("altered", "an honest query got a wrong answer while hostile messages came in");
                        }
                        break;
                    }
                }
                if !ok && !ctx.violated() {
                    ctx.violation("not-served", "honest queries are not answered while hostile messages come in");
                }
                ctx.count("honest_served", 1);
                sleep_ms(40).await;
            }
        }));
    }
    // queries to the hostile one
    let asking = {
        let (stop, a, peer, seed, ctx) = (stop.clone(), a.clone(), p.s.me.short, rng.gen::<u64>(), ctx.clone());
        tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            while !stop.load(Ordering::SeqCst) {
                let mut many = Vec::new();
                for _ in 0..6 {
                    let len = rng.gen_range(30..4000);
                    let q = rand_bytes(&mut rng, len);
                    let a = a.clone();
                    many.push(tokio::spawn(async move { a.query(peer, q).await.is_some() }));
                }
                let n = Instant::now();
                for t in many {
                    t.await.ok();
                    ctx.count("hostile_answers", 1);
                }
                if n.elapsed() > Duration::from_secs(20) {
                    ctx.violation("endless-query", format!("a query to a hostile peer took {:?}", n.elapsed()));
                }
            }
        })
    };
    let end = Instant::now() + Duration::from_millis(ctx.pick(5000, 15_000));
    let mut last = Vec::new();
    while Instant::now() < end && !ctx.violated() {
        for _ in 0..10 {
            let (name, s) = sequence(rng);
            ctx.count("hostile_messages", s.len() as u64);
            ctx.case((name, s.len() / 4, round % 2, s.first().map_or(8, |m| sha256(&m.ser())[0] % 8)));
            for m in &s {
                p.send(m);
            }
            last.push((name, s.len()));
        }
        sleep_ms(60).await;
        if panic_count() > 0 {
            break;
        }
    }
    stop.store(true, Ordering::SeqCst);
    for t in honest {
        t.await.ok();
    }
    asking.await.ok();
    if panic_count() > 0 {
        ctx.violation("hostile-panic", format!("the node panicked on hostile RLDP messages (last: {:?})", &last[last.len().saturating_sub(10)..]));
        return;
    }
    drop(p);
    drained(ctx, &a, 1500, "hostile messages").await;
}

/// All entries are gone in time; 4 x max timeout is the longest the code takes on purpose.
async fn drained(ctx: &C, a: &RNode, max_ms: u64, after: &str) {
    if !eventually(Duration::from_millis(max_ms * 5 + 4000), || a.rldp.metrics().transfers_cache_len == 0).await {
        // entries that only take longer than usual are not what this is about
        sleep_ms(2000).await;
        let n = a.rldp.metrics().transfers_cache_len;
        if n > 0 {
            ctx.violation("leak", format!("{n} transfer entries stay long after {after}"));
        }
    }
    a.rldp.gc();
    let n = a.rldp.metrics().peer_count;
    if n > 0 {
        ctx.violation("leak", format!("{n} peers still have queries counted long after {after}"));
    }
    ctx.count("drained", 1);
}

/// Transfers that end in all kinds of ways, then nothing may be left.
async fn drain(ctx: &C, rng: &mut SmallRng, round: u64) {
    let max = 900;
    for way in 0..9u32 {
        if ctx.violated() {
            return;
        }
        let n = ctx.pick(12u32, 40);
        let rec = Rec::new(|e| match e.data[4] {
            0 => Act::Answer(Some(sha256(&e.data).repeat(1 + e.data[5] as usize % 50))),
            1 => Act::Answer(None),
            2 => Act::Reject,
            3 => Act::Fail,
            _ => Act::After(Duration::from_millis(250), Some(sha256(&e.data).repeat(60))),
        });
        let a = Arc::new(RNode::start(rng, opts(max), rec));
        let name = [
            "answered queries",
            "queries of every outcome",
            "incomplete transfers",
            "answers nobody confirms",
            "answers to removed peers",
            "answers completed ahead",
            "queries to silent peers",
            "queries to removed and unknown peers",
            "refused transfers",
        ][way as usize];
        let silent = AtomicBool::new(way == 6);
        let p = Arc::new(
            RPeer::new(rng, &a, move |tid, q| {
                if silent.load(Ordering::SeqCst) {
                    return vec![];
                }
                transfer(&negate(tid), &ranswer(&q.id, b"yes"), 2).into_iter().map(|m| (Duration::ZERO, m)).collect()
            })
            .await,
        );
        if way == 3 || (way == 6 && round % 2 == 1) {
            p.s.set(|_| vec![]);
        }
        let mut tasks = Vec::new();
        for i in 0..n {
            let len = [40usize, 1000, 5000][i as usize % 3];
            let mut q = rand_bytes(rng, len);
            q[4] = match way {
                1 => (i % 5) as u8,
                3 | 4 => 4,
                _ => 0,
            };
            let (tid, qid) = (rand32(rng), rand32(rng));
            let parts = transfer(&tid, &rquery(&qid, 1 << 20, &q), 1);
            let (a, p) = (a.clone(), p.clone());
            let unknown = rand32(rng);
            let cut = rng.gen_range(1..parts.len());
            let big = rand_bytes(rng, 20_000);
            let far: bool = rng.gen();
            tasks.push(tokio::spawn(async move {
                match way {
                    0 => {
                        a.query(p.s.me.short, q.clone()).await;
                        p.ask(&tid, &rquery(&qid, 1 << 20, &q), Duration::from_secs(3)).await;
                    }
                    1 => {
                        p.ask(&tid, &rquery(&qid, if far { 0 } else { 1 << 20 }, &q), Duration::from_millis(600)).await;
                    }
                    2 => {
                        for m in &parts[..cut.min(parts.len() - 2).max(1).min(if parts.len() > 2 { 9 } else { 1 })] {
                            if let RM::Part { fec, part, total, seqno, data, tid } = m {
                                // never complete: the total is larger
                                p.send(&RM::Part { tid: *tid, fec: fec.clone(), part: *part, total: total + 5000, seqno: *seqno, data: data.clone() });
                            }
                        }
                    }
                    3 => {
                        // a peer that never confirms anything
                        for m in &parts {
                            p.s.send(m.msg());
                        }
                    }
                    4 => {
                        for m in &parts {
                            p.send(m);
                        }
                        sleep_ms(150).await;
                        a.n.adnl.remove_peer(&a.n.id(0), &sid(&p.s.me.short)).ok();
                    }
                    5 => {
                        for m in &parts {
                            p.send(m);
                        }
                        for _ in 0..20 {
                            for part in [0, 1, 2, 3] {
                                p.send(&RM::Complete { tid: negate(&tid), part });
                            }
                            sleep_ms(3).await;
                        }
                    }
                    6 => {
                        a.query(p.s.me.short, q).await;
                    }
                    7 => {
                        if far {
                            a.query(unknown, q).await;
                        } else {
                            let (a2, p2) = (a.clone(), p.clone());
                            tokio::spawn(async move {
                                sleep_ms(3).await;
                                a2.n.adnl.remove_peer(&a2.n.id(0), &sid(&p2.s.me.short)).ok();
                            });
                            a.query(p.s.me.short, big).await;
                        }
                    }
                    _ => {
                        for m in &parts {
                            if let RM::Part { fec, part, seqno, data, tid, .. } = m {
                                p.send(&RM::Part { tid: *tid, fec: fec.clone(), part: *part, total: 1 << 40, seqno: *seqno, data: data.clone() });
                            }
                        }
                    }
                }
            }));
        }
        // there must be something to drain
        let seen = eventually(Duration::from_secs(2), || a.rldp.metrics().transfers_cache_len > 0).await;
        for t in tasks {
            t.await.ok();
        }
        if way == 3 || way == 6 {
            // a peer that vanishes for good
            sleep_ms(100).await;
        }
        let p = if way == 3 { None } else { Some(p) };
        drained(ctx, &a, max, name).await;
        drop(p);
        if seen {
            ctx.count("transfers_followed", n as u64);
        }
        ctx.case((name, round % 4, seen));
    }
}

/// Queries dropped at any point.
async fn drain_cancelled(ctx: &C, rng: &mut SmallRng, round: u64) {
    let max = 900;
    let a = Arc::new(RNode::start(rng, opts(max), Rec::echo()));
    let slow: u64 = rng.gen_range(0..200);
    let p = RPeer::new(rng, &a, move |tid, q| transfer(&negate(tid), &ranswer(&q.id, &[5; 3000]), 2).into_iter().map(|m| (Duration::from_millis(slow), m)).collect()).await;
    let n = ctx.pick(60, 300);
    let mut tasks = Vec::new();
    for i in 0..n {
        let len = [40usize, 3000, 60_000][i % 3];
        let q = rand_bytes(rng, len);
        let after = Duration::from_micros(rng.gen_range(0..(slow * 1500 + 30_000)));
        let (r, local, to) = (a.rldp.clone(), a.n.id(0), sid(&p.s.me.short));
        tasks.push(node_rt().spawn(async move { tokio::time::timeout(after, r.query(&local, &to, q, None)).await.is_err() }));
        if i % 8 == 7 {
            sleep_ms(20).await;
        }
    }
    let mut cancelled = 0;
    for t in tasks {
        cancelled += matches!(t.await, Ok(true)) as u64;
    }
    ctx.count("cancelled", cancelled);
    ctx.count("transfers_followed", n as u64);
    drained(ctx, &a, max, "cancelled queries").await;
    // aborted tasks and a dropped future that never ran
    for _ in 0..10 {
        let (r, local, to) = (a.rldp.clone(), a.n.id(0), sid(&p.s.me.short));
        let q = rand_bytes(rng, 500);
        let t = node_rt().spawn(async move { r.query(&local, &to, q, None).await.is_ok() });
        if rng.gen() {
            sleep_ms(5).await;
        }
        t.abort();
    }
    drained(ctx, &a, max, "aborted queries").await;
    let q = rand_bytes(rng, 100);
    if !matches!(a.query(p.s.me.short, q).await, Some(Ok(Some(_)))) && !ctx.violated() {
        ctx.violation("not-served", "after cancelled queries a query is not answered");
    }
    ctx.case(("cancelled", round, slow / 50));
}
