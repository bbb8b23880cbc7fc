//! C18: RLDP carries queries and answers of any size intact over lossy links.
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use everscale_network::rldp;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::nodes::*;
use crate::rldpw::*;
use crate::rt::*;
use crate::tl::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one RLDP query whose payload the handler saw and whose answer the caller got; non-trivial because sizes sit at symbol, part and compression boundaries, payloads include ones that look compressed, and links lose, repeat and delay packets; distinct by size classes, compression, kind of link and payload, and outcome");
    let mut rng = ctx.rng(18);
    // independent drivers side by side
    let mut tasks = Vec::new();
    for i in 0..5u64 {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = 0;
            while ctx.within(30, 600) && (round < if i < 2 { 3 } else { 6 } || !ctx.quick()) && !ctx.violated() {
                match i {
                    0 => sizes(&ctx, &mut rng, round).await,
                    1 => lossy(&ctx, &mut rng, round).await,
                    2 => scripted(&ctx, &mut rng, round).await,
                    3 => looks_compressed(&ctx, &mut rng, round).await,
                    _ => completes(&ctx, &mut rng).await,
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    ctx.require("round_trips", 100);
    ctx.require("multi_part", 3);
    ctx.require("lossy_round_trips", 20);
    ctx.require("repair_only", 6);
    ctx.require("lost_confirmations", 2);
    ctx.require("repeated_completions", 2);
    ctx.check_panics("rldp");
}

fn opts(fast: bool, compress: bool) -> rldp::NodeOptions {
    rldp::NodeOptions {
        force_compression: compress,
        query_wave_len: if fast { 40 } else { 10 },
        query_wave_interval_ms: if fast { 4 } else { 10 },
        query_min_timeout_ms: 2500,
        ..Default::default()
    }
}

fn fill(rng: &mut SmallRng, len: usize, kind: u8) -> Vec<u8> {
    match kind % 3 {
        0 => rand_bytes(rng, len),
        1 => vec![rng.gen(); len],
        _ => {
            let p = rand_bytes(rng, 37);
            (0..len).map(|i| p[i % 37]).collect()
        }
    }
}

/// The handler: a query `[u32 answer length][u8 kind][..]` is answered by that many bytes.
fn answer_for(q: &[u8]) -> Vec<u8> {
    if q.len() < 5 {
        return echo_answer(q);
    }
    let len = u32::from_le_bytes(q[..4].try_into().unwrap()) as usize;
    let h = sha256(q);
    let mut rng = SmallRng::seed_from_u64(u64::from_le_bytes(h[..8].try_into().unwrap()));
    fill(&mut rng, len.min(9_000_000), q[4])
}
fn query_of(rng: &mut SmallRng, len: usize, answer: usize, kind: u8) -> Vec<u8> {
    let mut q = fill(rng, len, kind / 3);
    if len >= 5 {
        q[..4].copy_from_slice(&(answer as u32).to_le_bytes());
        q[4] = kind % 3;
        if len >= 21 {
            let t: [u8; 16] = rng.gen();
            q[5..21].copy_from_slice(&t);
        }
    }
    q
}
fn server() -> Arc<Rec> {
    Rec::new(|e| Act::Answer(Some(answer_for(&e.data))))
}
fn class(n: usize) -> usize {
    match n {
        0..=300 => n / 50,
        301..=4000 => 10 + n / 768,
        4001..=100_000 => 20,
        100_001..=400_000 => 21,
        400_001..=1_990_000 => 22,
        1_990_001..=2_010_000 => 23,
        _ => 24 + n / 2_000_000,
    }
}

/// One query from `a` to `b`; what arrived where must be exact. Some(true): answered.
async fn trip(ctx: &C, a: &RNode, b: &RNode, q: Vec<u8>, what: &str) -> Option<bool> {
    let want = answer_for(&q);
    let before = b.rec.count(|e| e.data == q);
    let r = a.query(b.n.idents[0].short, q.clone()).await;
    ctx.count("queries", 1);
    let altered = b.rec.find(|e| e.data.len() == q.len() && e.data != q && e.data.get(5..21) == q.get(5..21) && q.len() >= 21);
    if altered.is_some() {
        ctx.violation("altered-query", format!("the handler got an altered query of {} bytes ({what})", q.len()));
    }
    match r {
        Some(Ok(Some(x))) => {
            if x != want {
                ctx.violation("altered-answer", format!("a query of {} bytes got {} bytes that are not the {} bytes answered ({what})", q.len(), x.len(), want.len()));
            }
            if b.rec.count(|e| e.data == q) == before {
                ctx.violation("altered-query", format!("a query of {} bytes was answered but the handler did not get its bytes ({what})", q.len()));
            }
            ctx.count("round_trips", 1);
            if q.len() > SLICE - 100 || want.len() > SLICE - 100 {
                ctx.count("multi_part", 1);
            }
            Some(true)
        }
        Some(Ok(None)) => {
            ctx.count("unanswered", 1);
            Some(false)
        }
        Some(Err(e)) => {
            ctx.violation("query-error", format!("a query of {} bytes failed: {e} ({what})", q.len()));
            None
        }
        None => None,
    }
}

async fn must(ctx: &C, a: &RNode, b: &RNode, q: Vec<u8>, what: &str, tries: usize) {
    let start = Instant::now();
    let all = async {
        for _ in 0..tries {
            match trip(ctx, a, b, q.clone(), what).await {
                Some(true) => return true,
                None => break,
                _ => {}
            }
        }
        false
    };
    // (a transfer that goes on without ever completing does not time out by itself)
    if tokio::time::timeout(Duration::from_secs(100), all).await == Ok(true) {
        return;
    }
    if !ctx.violated() {
        ctx.violation("lost", format!("a query of {} bytes (answer {} bytes) got no answer in {tries} tries ({:?}, {what})", q.len(), answer_for(&q).len(), start.elapsed()));
    }
}

async fn sizes(ctx: &C, rng: &mut SmallRng, round: u64) {
    let compress = round % 2 == 1;
    let a = RNode::start(rng, opts(true, compress), server());
    let back = rng.gen();
    let b = RNode::start(rng, opts(true, back), server());
    a.know(&b);
    let mut list: Vec<(usize, usize)> = vec![(4, 0), (5, 0), (5, 1), (253, 254), (254, 255), (255, 256), (256, 257), (257, 258)];
    for _ in 0..10 {
        // around whole symbols: the envelopes take 56 and 40 bytes
        let n = rng.gen_range(1..5usize) * 768;
        list.push(((n - 70) + rng.gen_range(0..30), (n - 50) + rng.gen_range(0..20)));
    }
    for _ in 0..4 {
        list.push((rng.gen_range(5..5000), rng.gen_range(0..60_000)));
    }
    list.push((rng.gen_range(100_000..400_000), rng.gen_range(100_000..700_000)));
    for (q, s) in list {
        let kind = rng.gen();
        must(ctx, &a, &b, query_of(rng, q, s, kind), "direct", 2).await;
        ctx.case(("direct", class(q), class(s), compress, kind % 9));
        if ctx.violated() {
            return;
        }
    }
    // parts of 2 000 000 bytes
    let big = [SLICE - 57 + rng.gen_range(0..4usize), SLICE - 41 + rng.gen_range(0..3usize), SLICE + 1, 2_700_000, 2 * SLICE - 48 + rng.gen_range(0..16usize), 4_300_000];
    let x = big[round as usize % big.len()];
    let y = big[(round as usize + 2) % big.len()];
    for (q, s) in [(x, 30), (40, y), (x, y)] {
        // random bytes, so that compression does not make them small
        must(ctx, &a, &b, query_of(rng, q, s, 0), "direct, several parts", 2).await;
        ctx.case(("direct", class(q), class(s), compress));
        if ctx.violated() {
            return;
        }
    }
    // many at once in both directions
    b.know(&a);
    let (a, b) = (Arc::new(a), Arc::new(b));
    let mut tasks = Vec::new();
    for i in 0..20 {
        let (n, kind) = (rng.gen_range(21..20_000), rng.gen());
        let q = query_of(rng, n, 50_000, kind);
        let (a, b, ctx) = (a.clone(), b.clone(), ctx.clone());
        tasks.push(tokio::spawn(async move {
            if i % 2 == 0 {
                must(&ctx, &a, &b, q, "many at once", 2).await
            } else {
                must(&ctx, &b, &a, q, "many at once", 2).await
            }
        }));
    }
    for t in tasks {
        t.await.ok();
    }
    ctx.case(("many at once", compress));
}

async fn lossy(ctx: &C, rng: &mut SmallRng, round: u64) {
    let ip = next_ip();
    let ip2 = next_ip();
    let mut o = opts(round % 2 == 0, round % 3 == 1);
    o.query_min_timeout_ms = 2500;
    let a = RNode::start_ext(rng, ip, o, server());
    let b = RNode::start_ext(rng, ip2, o, server());
    let net = Net::new(rng.gen());
    net.attach(a.n.addr());
    net.attach(b.n.addr());
    a.know(&b);
    let (a, b) = (Arc::new(a), Arc::new(b));
    for kind in ["loss", "heavy loss", "repeats", "reorder", "all", "silent back channel"] {
        let (drop, dup, delay): (u32, u32, u64) = match kind {
            "loss" => (5, 0, 0),
            "heavy loss" => (20, 0, 0),
            "repeats" => (0, 40, 0),
            "reorder" => (0, 0, 30),
            "all" => (8, 20, 15),
            _ => (3, 0, 0),
        };
        let back = (b.n.port(), a.n.port());
        let from = Instant::now() + Duration::from_millis(if kind == "silent back channel" { 1300 } else { 0 });
        net.set(move |r, s, d, p| {
            if r.gen_range(0..100) < drop || ((s, d) == back && Instant::now() < from) {
                return vec![];
            }
            let n = 1 + (r.gen_range(0..100) < dup) as usize;
            (0..n).map(|_| (Duration::from_millis(if delay > 0 { r.gen_range(0..delay) } else { 0 }), p.clone())).collect()
        });
        let mut tasks = Vec::new();
        for i in 0..4 {
            // large ones need many repair symbols
            let (q, s) = match i {
                0 => (rng.gen_range(400_000..900_000), 1000),
                1 => (200, rng.gen_range(400_000..900_000)),
                2 => (rng.gen_range(21..3000), rng.gen_range(0..3000)),
                _ => (rng.gen_range(3000..100_000), rng.gen_range(3000..100_000)),
            };
            let q = query_of(rng, q, s, 0);
            let (a, b, ctx) = (a.clone(), b.clone(), ctx.clone());
            let sig = (kind, class(q.len()), class(s), round % 6);
            tasks.push(tokio::spawn(async move {
                must(&ctx, &a, &b, q, kind, 3).await;
                ctx.count("lossy_round_trips", 1);
                ctx.case(sig);
            }));
        }
        for t in tasks {
            t.await.ok();
        }
        if ctx.violated() {
            return;
        }
    }
    // several parts with some loss
    net.set(|r, _, _, p| if r.gen_range(0..100) < 3 { vec![] } else { vec![(Duration::ZERO, p)] });
    let q = if round % 2 == 0 { query_of(rng, 2_400_000, 10, 0) } else { query_of(rng, 100, 2_400_000, 0) };
    must(ctx, &a, &b, q, "several parts, loss", 3).await;
    ctx.case(("several parts, loss", round % 2));
    // most confirmations and completions get lost: they have to be repeated
    net.set(|r, _, _, p| if p.len() < 600 && r.gen_range(0..100) < 65 { vec![] } else { vec![(Duration::ZERO, p)] });
    let q = if round % 2 == 1 { query_of(rng, 2_400_000, 10, 0) } else { query_of(rng, 100, 2_400_000, 0) };
    must(ctx, &a, &b, q, "several parts, confirmations get lost", 4).await;
    ctx.count("lost_confirmations", 1);
    ctx.case(("several parts, lost confirmations", round % 2));
}

/// Whoever repeats packets of a finished part (its completion was lost) is told again that it is complete.
async fn completes(ctx: &C, rng: &mut SmallRng) {
    let mut o = opts(true, false);
    o.query_min_timeout_ms = 6000;
    let n = RNode::start(rng, o, server());
    let p = RPeer::new(rng, &n, |_, _| vec![]).await;
    let tid = rand32(rng);
    let count = rng.gen_range(2..4usize);
    let len = (count - 1) * SLICE + rng.gen_range(1000..60_000usize);
    let parts = transfer(&tid, &rquery(&rand32(rng), 1 << 20, &rand_bytes(rng, len)), 20);
    let seen = |k: u32| p.log.lock().unwrap().iter().filter(|m| matches!(m, RM::Complete { part, tid: t } if *part == k && *t == tid)).count();
    for k in 0..count as u32 - 1 {
        let of: Vec<&RM> = parts.iter().filter(|m| matches!(m, RM::Part { part, .. } if *part == k)).collect();
        for _ in 0..10 {
            for (i, m) in of.iter().enumerate() {
                p.send(m);
                if i % 20 == 19 {
                    sleep_ms(2).await;
                }
            }
            for _ in 0..20 {
                if seen(k) > 0 {
                    break;
                }
                sleep_ms(20).await;
            }
            if seen(k) > 0 {
                break;
            }
        }
        if seen(k) == 0 {
            return ctx.violation("lost", format!("part {k} of a transfer is never completed although all its symbols are sent again and again"));
        }
        sleep_ms(150).await;
        // any finished part
        let old = rng.gen_range(0..k + 1);
        let of: Vec<&RM> = parts.iter().filter(|m| matches!(m, RM::Part { part, .. } if *part == old)).collect();
        let before = seen(old);
        let mut ok = false;
        for _ in 0..60 {
            p.send(of[rng.gen_range(0..of.len())]);
            sleep_ms(10).await;
            if seen(old) > before {
                ok = true;
                break;
            }
        }
        ctx.count("repeated_completions", 1);
        ctx.case(("completion again", k, old, count));
        if !ok {
            ctx.violation("not-completed", format!("packets of the finished part {old} are repeated 60 times but its completion is not"));
        }
    }
}

/// The same for transfers which are finished as a whole.
async fn told_again(ctx: &C, rng: &mut SmallRng, p: &RPeer, tid: &[u8; 32], parts: &[RM], what: &str) {
    let seen = || p.log.lock().unwrap().iter().filter(|m| matches!(m, RM::Complete { part: 0, tid: t } if t == tid)).count();
    p.s.barrier().await;
    for _ in 0..2 {
        let before = seen();
        let mut ok = false;
        for _ in 0..100 {
            p.send(&parts[rng.gen_range(0..parts.len())]);
            sleep_ms(10).await;
            if seen() > before {
                ok = true;
                break;
            }
        }
        ctx.count("repeated_completions", 1);
        if !ok {
            ctx.violation("not-completed", format!("packets of a finished {what} are repeated 100 times but its completion is not"));
        }
    }
}

/// A scripted peer that ignores some symbols: the others (also only repair symbols) must do.
async fn scripted(ctx: &C, rng: &mut SmallRng, round: u64) {
    let a = RNode::start(rng, opts(true, false), server());
    // the peer answers from the node's own recipe
    let lose: Vec<bool> = (0..4).map(|_| rng.gen()).collect();
    let shuffle: bool = rng.gen();
    let p = RPeer::new(rng, &a, move |tid, q| {
        let data = ranswer(&q.id, &answer_for(&q.data));
        let mut parts = transfer(&negate(tid), &data, 8);
        if parts.len() > 12 {
            let mut i = 0;
            parts.retain(|_| {
                i += 1;
                !(i <= 4 && lose[i - 1])
            });
            if shuffle {
                parts.reverse();
            }
        }
        let n = parts.len();
        (0..n).map(|i| (Duration::from_millis(i as u64 / 5), parts[i].clone())).collect()
    })
    .await;
    // the node asks
    for len in [30usize, 3000, 30_000] {
        let q = query_of(rng, len, [2, 3000, 20_000][round as usize % 3], 0);
        let mut ok = false;
        for _ in 0..3 {
            match a.query(p.s.me.short, q.clone()).await {
                Some(Ok(Some(x))) => {
                    if x != answer_for(&q) {
                        ctx.violation("altered-answer", "the answer of a scripted peer was altered");
                    }
                    ok = true;
                    break;
                }
                Some(Err(e)) => ctx.violation("query-error", format!("a query to a scripted peer failed: {e}")),
                _ => {}
            }
        }
        if !ok {
            ctx.violation("lost", format!("a scripted peer's answer to a query of {len} bytes did not arrive"));
        }
        ctx.count("round_trips", 1);
        let of = p.queries.lock().unwrap().iter().find(|x| x.1.data == q).map(|x| (x.0, x.1.id));
        if let Some((tid, id)) = of {
            let late = transfer(&negate(&tid), &ranswer(&id, &answer_for(&q)), 30);
            told_again(ctx, rng, &p, &negate(&tid), &late, "answer").await;
        }
        if !p.queries.lock().unwrap().iter().any(|x| x.1.data == q) {
            ctx.violation("altered-query", "a scripted peer did not get the bytes of the query");
        }
        ctx.case(("node asks", len, round % 3, shuffle));
    }
    // the peer asks
    for len in [4usize, 25, 3000, 40_000] {
        let q = query_of(rng, len, 5000, 0);
        let (tid, qid) = (rand32(rng), rand32(rng));
        match p.ask(&tid, &rquery(&qid, 1 << 20, &q), Duration::from_secs(12)).await {
            Some(x) => match read_ranswer(&x) {
                Ok((i, d)) if i == qid && d == answer_for(&q) => {}
                _ => ctx.violation("altered-answer", "the answer to a scripted peer is not the one given"),
            },
            None => ctx.violation("lost", format!("a scripted peer's query of {len} bytes is not answered")),
        }
        if !a.rec.events.lock().unwrap().iter().any(|e| e.data == q) {
            ctx.violation("altered-query", "the handler did not get the bytes of a scripted peer's query");
        }
        ctx.count("round_trips", 1);
        let late = transfer(&tid, &rquery(&qid, 1 << 20, &q), 30);
        told_again(ctx, rng, &p, &tid, &late, "query").await;
        ctx.case(("peer asks", len));
    }
    // only repair symbols, or every third symbol
    for mode in 0..2u32 {
        let len = [2000usize, 60_000, 500_000, 900_000][rng.gen_range(0..4)];
        let q = query_of(rng, len, 30, 0);
        let ok = repair_only(ctx, rng, &q, mode).await;
        ctx.count("repair_only", 1);
        if !ok && !ctx.violated() {
            ctx.violation("lost", format!("a transfer of {len} bytes does not finish when {}", if mode == 0 { "all source symbols are lost" } else { "every third symbol is lost" }));
        }
        ctx.case(("repair", mode, len, round % 3));
    }
}

async fn repair_only(ctx: &C, rng: &mut SmallRng, q: &[u8], mode: u32) -> bool {
    for _ in 0..2 {
        let mut o = opts(true, false);
        o.query_min_timeout_ms = 3000;
        let a = RNode::start(rng, o, server());
        let s = crate::serve::Serve::new(rng, a.n.addr(), a.n.pk(0)).await;
        a.knows(&s);
        let c = std::sync::Mutex::new(Collect::new());
        let n = AtomicU32::new(0);
        let got: Arc<std::sync::Mutex<Option<Vec<u8>>>> = Default::default();
        let g2 = got.clone();
        s.set(move |m| {
            let Msg::Custom(d) = m else { return vec![] };
            let Ok(m) = RM::read(d) else { return vec![] };
            let RM::Part { tid, seqno, fec, .. } = &m else { return vec![] };
            let i = n.fetch_add(1, Ordering::SeqCst);
            let mut c = c.lock().unwrap();
            if (mode == 0 && *seqno < fec.count) || (mode == 1 && i % 3 == 0) {
                // confirms make the node go on
                return if i % 10 == 9 && !c.done { vec![(Duration::ZERO, RM::Confirm { tid: *tid, part: c.part, seqno: *seqno }.msg())] } else { vec![] };
            }
            let was = c.done;
            let mut out: Vec<(Duration, Msg)> = c.add(&m).into_iter().map(|m| (Duration::ZERO, m.msg())).collect();
            if c.done && !was {
                if let Ok(q) = read_rquery(&c.data) {
                    for p in transfer(&negate(tid), &ranswer(&q.id, b"fine"), 1) {
                        out.push((Duration::ZERO, p.msg()));
                    }
                    *g2.lock().unwrap() = Some(q.data);
                }
            }
            out
        });
        let _g = ctx.op("query");
        let r = a.query(s.me.short, q.to_vec()).await;
        if got.lock().unwrap().as_ref().is_some_and(|x| x != q) {
            ctx.violation("altered-query", "symbols sent by the node decode to other bytes");
        }
        if matches!(r, Some(Ok(Some(ref x))) if x == b"fine") {
            return true;
        }
    }
    false
}

/// Payloads that are the output of the compression themselves.
async fn looks_compressed(ctx: &C, rng: &mut SmallRng, round: u64) {
    let b = RNode::start(rng, opts(true, round % 2 == 1), Rec::new(|e| Act::Answer(Some(e.data[4..].to_vec()))));
    let a = RNode::start(rng, opts(true, false), server());
    a.know(&b);
    for i in 0..4u32 {
        let inner_len = rng.gen_range(0..2000);
        let inner = fill(rng, inner_len, i as u8);
        let mut z = zstd::encode_all(&inner[..], 3).unwrap();
        z.extend(zstd::encode_all(&(inner.len() as u32).to_be_bytes()[..], 3).unwrap());
        z.push(0x80);
        // as an answer: 4 bytes, then the payload
        let mut q = rand_bytes(rng, 4);
        if i % 2 == 0 {
            q.extend(&z);
        } else {
            // a skippable frame in front makes the query look compressed as a whole
            let junk = rand_bytes(rng, 12);
            q = vec![0x50, 0x2a, 0x4d, 0x18, 12, 0, 0, 0];
            q.extend(junk);
            q.extend(&z);
        }
        let mut ok = false;
        for _ in 0..3 {
            let r = a.query(b.n.idents[0].short, q.clone()).await;
            if let Some(Ok(Some(x))) = r {
                if x != q[4..] {
                    ctx.violation("altered-answer", format!("a payload of {} bytes that looks compressed arrived as {} other bytes", q.len(), x.len()));
                }
                ok = true;
                break;
            }
        }
        if !b.rec.events.lock().unwrap().iter().any(|e| e.data == q) {
            ctx.violation("altered-query", format!("a query of {} bytes that looks compressed did not reach the handler as it was sent", q.len()));
        }
        if !ok && !ctx.violated() {
            ctx.violation("lost", "a query that looks compressed got no answer");
        }
        ctx.count("round_trips", 1);
        ctx.case(("looks compressed", i % 2, inner_len / 300));
    }
    // data which only nearly looks compressed, from a peer that sends it as it is
    let sets: Arc<std::sync::Mutex<Vec<u8>>> = Default::default();
    let s2 = sets.clone();
    let p = RPeer::new(rng, &a, move |tid, q| now_all(transfer(&negate(tid), &ranswer(&q.id, &s2.lock().unwrap()), 2))).await;
    for kind in 0..6u32 {
        let inner_len = rng.gen_range(5..3000usize);
        let inner = fill(rng, inner_len, round as u8);
        let len = inner.len() as u32;
        let mut z = zstd::encode_all(&inner[..], 3).unwrap();
        let wrong = match kind {
            0 => len + 1,
            1 => len - 1,
            2 => len.swap_bytes(),
            3 => len + 4,
            _ => len,
        };
        z.extend(zstd::encode_all(&wrong.to_be_bytes()[..], 3).unwrap());
        match kind {
            4 => z.push(0x81),
            5 => {
                z.push(0);
                z.push(0x80)
            }
            _ => z.push(0x80),
        }
        *sets.lock().unwrap() = z.clone();
        let q = query_of(rng, 40, 2, 0);
        let mut ok = false;
        for _ in 0..3 {
            if let Some(Ok(Some(x))) = a.query(p.s.me.short, q.clone()).await {
                if x != z {
                    ctx.violation("altered-answer", format!("an answer of {} bytes that only nearly looks compressed (kind {kind}) arrived as {} other bytes", z.len(), x.len()));
                }
                ok = true;
                break;
            }
        }
        if !ok && !ctx.violated() {
            ctx.violation("lost", format!("an answer that nearly looks compressed (kind {kind}) did not arrive"));
        }
        let mut d = q.clone();
        d.extend(&z);
        p.ask(&rand32(rng), &rquery(&rand32(rng), 1 << 20, &d), Duration::from_secs(8)).await;
        if !a.rec.events.lock().unwrap().iter().any(|e| e.data == d) {
            ctx.violation("altered-query", format!("a query that ends like compressed data (kind {kind}) did not reach the handler as it was sent"));
        }
        ctx.count("round_trips", 1);
        ctx.case(("nearly compressed", kind, inner_len / 500));
    }
}
fn now_all(parts: Vec<RM>) -> Vec<(Duration, RM)> {
    parts.into_iter().map(|p| (Duration::ZERO, p)).collect()
}
