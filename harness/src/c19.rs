//! C19: an RLDP answer belongs to its query, queries are handled once, limits are enforced.
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use everscale_network::rldp;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::nodes::*;
use crate::rldpw::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one RLDP query followed from call or first packet to its end, or one burst of queries to a peer; non-trivial because answers with foreign ids, swapped between concurrent queries or of another kind compete with the right ones, packets repeat, sizes sit at the limits (also after decompression) and bursts exceed the limit while others fail or are cancelled; distinct by scenario, plan, size class and limit");
    let mut rng = ctx.rng(19);
    let mut tasks = Vec::new();
    let only: Option<u64> = std::env::var("EVMON_ONLY").ok().and_then(|x| x.parse().ok());
    for i in (0..5u64).filter(|i| only.map_or(true, |x| x == *i)) {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = 0;
            while ctx.within(25, 600) && (round < 3 || !ctx.quick()) && !ctx.violated() {
                match i {
                    0 => binding(&ctx, &mut rng, round).await,
                    1 => once(&ctx, &mut rng, round).await,
                    2 => query_limit(&ctx, &mut rng, round).await,
                    3 => answer_limit(&ctx, &mut rng, round).await,
                    _ => in_flight(&ctx, &mut rng, round).await,
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    if !ctx.violated() {
        gc_race(&ctx, &mut rng).await;
    }
    if !ctx.violated() {
        timeouts(&ctx, &mut rng).await;
    }
    if !ctx.violated() {
        neighbours(&ctx, &mut rng).await;
    }
    ctx.require("not_held_up", 4);
    ctx.require("silent_queries", 10);
    ctx.require("right_answers", 30);
    ctx.require("wrong_answers", 60);
    ctx.require("repeated_transfers", 30);
    ctx.require("over_limit_queries", 20);
    ctx.require("over_limit_answers", 20);
    ctx.require("bursts", 6);
    ctx.check_panics("rldp");
}

fn opts() -> rldp::NodeOptions {
    rldp::NodeOptions { query_min_timeout_ms: 1500, query_max_timeout_ms: 6000, max_peer_queries: 64, ..Default::default() }
}
fn refuse() -> Arc<Rec> {
    Rec::new(|_| Act::Reject)
}
fn now(parts: Vec<RM>) -> Vec<(Duration, RM)> {
    parts.into_iter().map(|p| (Duration::ZERO, p)).collect()
}
fn squeeze(data: &[u8]) -> Vec<u8> {
    let mut z = zstd::encode_all(data, 3).unwrap();
    z.extend(zstd::encode_all(&(data.len() as u32).to_be_bytes()[..], 3).unwrap());
    z.push(0x80);
    z
}

const PLANS: usize = 11;

/// The peer answers by the 5th byte of the query; what may be delivered is noted.
async fn binding(ctx: &C, rng: &mut SmallRng, round: u64) {
    let a = RNode::start(rng, opts(), refuse());
    // query id of the caller's query is only known at the peer: token of the query -> allowed answers
    let allowed: Arc<Mutex<HashMap<Vec<u8>, HashSet<Vec<u8>>>>> = Default::default();
    let held: Arc<Mutex<HashMap<u8, (/*tid*/ [u8; 32], RQuery)>>> = Default::default();
    let al = allowed.clone();
    let p = RPeer::new(rng, &a, move |tid, q| {
        let plan = q.data[4];
        let token = q.data.clone();
        let good = sha256(&q.data).repeat(3);
        let back = negate(tid);
        let ok = |x: &Vec<u8>| {
            al.lock().unwrap().entry(token.clone()).or_default().insert(x.clone());
        };
        match plan {
            0 => {
                ok(&good);
                // three times, since single packets may get lost
                (0..3).flat_map(|i| transfer(&back, &ranswer(&q.id, &good), 1).into_iter().map(move |m| (Duration::from_millis(i * 250), m))).collect()
            }
            // another query id
            1 => {
                let mut id = q.id;
                id[(good[0] % 32) as usize] ^= 1 << (good[1] % 8);
                now(transfer(&back, &ranswer(&id, b"for another id"), 1))
            }
            2 => now(transfer(&back, &ranswer(&[0; 32], b"for no id"), 1)),
            // the transfer's id instead of the query's
            3 => now(transfer(&back, &ranswer(tid, b"for the transfer id"), 1)),
            // other kinds of messages
            4 => now(transfer(&back, &W::new().u32(id::RLDP_MESSAGE).raw(&q.id).bytes(b"a message").done(), 1)),
            5 => now(transfer(&back, &rquery(&q.id, 1000, b"a query"), 1)),
            6 => now(transfer(&back, &ranswer(&q.id, &good)[..40], 1)),
            // swapped with the next query that comes with this plan
            7 => match { let x = held.lock().unwrap().remove(&7); x } {
                None => {
                    held.lock().unwrap().insert(7, (*tid, q.clone()));
                    vec![]
                }
                Some((t2, q2)) => {
                    let mut out = now(transfer(&negate(&t2), &ranswer(&q.id, b"swapped"), 1));
                    out.extend(now(transfer(&back, &ranswer(&q2.id, b"swapped"), 1)));
                    out
                }
            },
            // right answer in a transfer of another id
            8 => {
                let mut t = back;
                t[31] ^= 1;
                let mut out = now(transfer(&t, &ranswer(&q.id, b"in another transfer"), 1));
                out.extend(now(transfer(tid, &ranswer(&q.id, b"in the query's own transfer"), 1)));
                out
            }
            // two different ones: either, but not both and nothing else
            9 => {
                ok(&good);
                let other = b"second answer".to_vec();
                ok(&other);
                let mut out = now(transfer(&back, &ranswer(&q.id, &good), 0));
                out.extend(now(transfer(&back, &ranswer(&q.id, &other), 0)));
                out
            }
            // late
            _ => {
                ok(&good);
                (0..3).flat_map(|i| transfer(&back, &ranswer(&q.id, &good), 1).into_iter().map(move |m| (Duration::from_millis(700 + i * 200), m))).collect()
            }
        }
    })
    .await;
    let mut tasks = Vec::new();
    let n = ctx.pick(44, 88);
    let a = Arc::new(a);
    for k in 0..n {
        let plan = (k % PLANS) as u8;
        let len = [60, 2000, 8000][k / PLANS % 3];
        let mut q = rand_bytes(rng, len);
        q[4] = plan;
        let (a, ctx, allowed, peer) = (a.clone(), ctx.clone(), allowed.clone(), p.s.me.short);
        tasks.push(tokio::spawn(async move {
            let r = a.query(peer, q.clone()).await;
            let may = allowed.lock().unwrap().get(&q).cloned().unwrap_or_default();
            match r {
                Some(Ok(Some(x))) => {
                    if !may.contains(&x) {
                        ctx.violation("foreign-answer", format!("a query was completed by {:?}, which was not sent as its answer (plan {plan})", String::from_utf8_lossy(&x[..x.len().min(40)])));
                    }
                    ctx.count("right_answers", 1);
                    1u8
                }
                Some(r) => {
                    if matches!(plan, 0 | 10) {
                        ctx.violation("answer-lost", format!("an answered query ended with {r:?} (plan {plan})"));
                    }
                    ctx.count("wrong_answers", 1);
                    0
                }
                None => 2,
            };
            ctx.case(("binding", plan, len, round % 3));
        }));
        sleep_ms(15).await;
    }
    for t in tasks {
        t.await.ok();
    }
    // and the node still serves
    let mut q = rand_bytes(rng, 80);
    q[4] = 0;
    if !matches!(a.query(p.s.me.short, q).await, Some(Ok(Some(_)))) && !ctx.violated() {
        ctx.violation("answer-lost", "after foreign answers a query is not answered any more");
    }
}

/// Every transfer is handled once, whatever is repeated.
async fn once(ctx: &C, rng: &mut SmallRng, round: u64) {
    // by hand: repeats of single packets and of the whole transfer, slow handlers
    let rec = Rec::new(|e| {
        let a = Some(sha256(&e.data).repeat(1 + e.data[5] as usize % 60));
        match e.data[4] % 3 {
            0 => Act::After(Duration::from_millis(300), a),
            1 => Act::Answer(None),
            _ => Act::Answer(a),
        }
    });
    let a = RNode::start(rng, opts(), rec);
    let p = Arc::new(RPeer::new(rng, &a, |_, _| vec![]).await);
    let mut sent = Vec::new();
    for k in 0..ctx.pick(15, 30) {
        let len = [30usize, 700, 5000, 30_000][k % 4];
        let q = rand_bytes(rng, len);
        let (tid, qid) = (rand32(rng), rand32(rng));
        let parts = transfer(&tid, &rquery(&qid, 1 << 20, &q), 2);
        let style = k % 3;
        for x in &parts {
            for _ in 0..[1, 3, 2][style] {
                p.send(&x.clone());
            }
        }
        sent.push((q, tid, parts, style));
        sleep_ms(10).await;
    }
    // the whole again: at once, while handlers run, and long after
    for pause in [0u64, 150, 500, 1500] {
        sleep_ms(pause).await;
        for (_, _, parts, _) in &sent {
            for x in parts.iter() {
                p.send(x);
            }
            ctx.count("repeated_transfers", 1);
            sleep_ms(3).await;
        }
    }
    for (q, tid, parts, style) in &sent {
        let q = q.clone();
        let mut n = 0;
        for _ in 0..20 {
            n = a.rec.count(|e| e.data == q);
            if n > 0 {
                break;
            }
            // lost somewhere: again
            for x in parts.iter() {
                p.send(x);
                sleep_ms(1).await;
            }
            sleep_ms(100).await;
        }
        if n != 1 {
            ctx.violation(if n == 0 { "not-handled" } else { "handled-twice" }, format!("a query of {} bytes whose packets were repeated was handled {n} times", q.len()));
        }
        if q[4] % 3 != 1 {
            let want = sha256(&q).repeat(1 + q[5] as usize % 60);
            let ok = eventually(Duration::from_secs(4), || p.answers.lock().unwrap().contains_key(&negate(tid))).await;
            let got = p.answers.lock().unwrap().get(&negate(tid)).and_then(|x| read_ranswer(x).ok());
            if !ok || got.as_ref().map(|x| &x.1) != Some(&want) {
                ctx.violation("answer-lost", "a query whose packets were repeated did not get its answer");
            }
        }
        ctx.case(("once", style, q.len() / 1000, q[4] % 3));
    }
    sleep_ms(400).await;
    for (q, ..) in &sent {
        if a.rec.count(|e| e.data == *q) != 1 {
            ctx.violation("handled-twice", "a query was handled again later");
        }
    }
    // between two nodes over a link that repeats everything
    let ips = (next_ip(), next_ip());
    let x = RNode::start_ext(rng, ips.0, opts(), refuse());
    let y = RNode::start_ext(rng, ips.1, opts(), Rec::new(|e| if e.data[4] % 2 == 0 { Act::After(Duration::from_millis(100), Some(sha256(&e.data).to_vec())) } else { Act::Answer(Some(sha256(&e.data).to_vec())) }));
    let net = Net::new(rng.gen());
    net.attach(x.n.addr());
    net.attach(y.n.addr());
    x.know(&y);
    net.set(|r, _, _, p| {
        let n = r.gen_range(1..4);
        (0..n).map(|i| (Duration::from_millis(if i == 0 { 0 } else { r.gen_range(0..400) }), p.clone())).collect()
    });
    let x = Arc::new(x);
    let mut tasks = Vec::new();
    for _ in 0..12 {
        let len = rng.gen_range(30..9000);
        let q = rand_bytes(rng, len);
        let (x, ctx, peer) = (x.clone(), ctx.clone(), y.n.idents[0].short);
        tasks.push(tokio::spawn(async move {
            match x.query(peer, q.clone()).await {
                Some(Ok(Some(a))) => {
                    if a != sha256(&q) {
                        ctx.violation("foreign-answer", "a query over a repeating link got another answer");
                    }
                    ctx.count("right_answers", 1);
                }
                Some(r) => ctx.violation("answer-lost", format!("a query over a repeating link ended with {r:?}")),
                None => {}
            }
            q
        }));
    }
    let mut qs = Vec::new();
    for t in tasks {
        if let Ok(q) = t.await {
            qs.push(q);
        }
    }
    sleep_ms(500).await;
    for q in qs {
        let n = y.rec.count(|e| e.data == q);
        if n != 1 && !ctx.violated() {
            ctx.violation(if n == 0 { "not-handled" } else { "handled-twice" }, format!("a query over a repeating link was handled {n} times"));
        }
        ctx.case(("once, link", q.len() / 3000, round % 3));
    }
}

/// Queries around the size limit of the asked node.
async fn query_limit(ctx: &C, rng: &mut SmallRng, round: u64) {
    let max = [2000u32, 50_000, 3_000_000][round as usize % 3];
    let mut o = opts();
    o.max_answer_size = max;
    let rec = Rec::new(|e| Act::Answer(Some(sha256(&e.data).to_vec())));
    let a = RNode::start(rng, o, rec.clone());
    let p = RPeer::new(rng, &a, |_, _| vec![]).await;
    let max = max as usize;
    // whole transfer sizes; the envelope takes up to 56 bytes
    for total in [max - 64 - rng.gen_range(0..40usize), max - 64, max + 1, max + 2, max + 769, 2 * max] {
        let mut q = rand_bytes(rng, total - 60);
        let (tid, qid) = (rand32(rng), rand32(rng));
        let mut t = rquery(&qid, 1 << 20, &q);
        while t.len() < total {
            let b = rng.gen();
            q.push(b);
            t = rquery(&qid, 1 << 20, &q);
        }
        let under = t.len() <= max;
        if under {
            let r = p.ask(&tid, &t, Duration::from_secs(15)).await;
            if r.is_none() || rec.count(|e| e.data == q) != 1 {
                ctx.violation("limit-too-low", format!("a query transfer of {} bytes is not handled although {max} are allowed", t.len()));
            }
            ctx.count("under_limit_queries", 1);
        } else {
            for style in 0..3 {
                let tid = rand32(rng);
                let mut parts = transfer(&tid, &t, 2);
                for x in &mut parts {
                    if let RM::Part { total, .. } = x {
                        match style {
                            // the truth
                            0 => {}
                            // a total below the limit
                            1 => *total = max as u64,
                            // a total that only fits the limit when cut to 32 bits
                            _ => *total |= 1 << 32,
                        }
                    }
                }
                for (i, x) in parts.iter().enumerate() {
                    p.send(x);
                    if i % 20 == 19 {
                        sleep_ms(2).await;
                    }
                }
                ctx.count("over_limit_queries", 1);
                ctx.case(("query limit", max, style, total.cmp(&(max + 3))));
            }
        }
        ctx.case(("query limit", max, under));
    }
    // small when compressed
    let fine = vec![7u8; max - 200];
    let mut fine_q = fine.clone();
    fine_q[..8].copy_from_slice(&rng.gen::<[u8; 8]>());
    let (tid, qid) = (rand32(rng), rand32(rng));
    if p.ask(&tid, &rquery(&qid, 1 << 20, &squeeze(&fine_q)), Duration::from_secs(8)).await.is_none() || rec.count(|e| e.data == fine_q) != 1 {
        ctx.violation("limit-too-low", "a compressed query below the limit is not handled");
    }
    for n in [max + 1, max * 2, max * 100] {
        let big = vec![rng.gen::<u8>(); n.min(60_000_000)];
        let (tid, qid) = (rand32(rng), rand32(rng));
        for x in transfer(&tid, &rquery(&qid, 1 << 20, &squeeze(&big)), 2) {
            p.send(&x);
        }
        ctx.count("over_limit_queries", 1);
        ctx.case(("query limit", max, "compressed", n / max));
    }
    // all of that was processed before this is answered
    sleep_ms(300).await;
    let q = rand_bytes(rng, 40);
    let (tid, qid) = (rand32(rng), rand32(rng));
    if p.ask(&tid, &rquery(&qid, 1 << 20, &q), Duration::from_secs(8)).await.is_none() {
        ctx.violation("not-handled", "queries over the limit stop the node from handling others");
    }
    sleep_ms(200).await;
    if let Some(e) = rec.find(|e| e.data.len() > max) {
        ctx.violation("over-limit", format!("a query of {} bytes reached the handler although {max} are allowed", e.data.len()));
    }
}

/// Answers around the limit announced by the asking node.
async fn answer_limit(ctx: &C, rng: &mut SmallRng, round: u64) {
    // refused answers of several slices keep a query waiting for minutes (every packet adds to its time)
    let max = [3000usize, 60_000, 2_500_000][round as usize % if ctx.quick() { 2 } else { 3 }];
    let mut o = opts();
    o.max_answer_size = max as u32;
    let a = RNode::start(rng, o, refuse());
    let announced = Arc::new(AtomicU64::new(0));
    let an = announced.clone();
    // the answer: [u32 length][u8 style]
    let p = RPeer::new(rng, &a, move |tid, q| {
        an.store(q.max, Ordering::SeqCst);
        let n = u32::from_le_bytes(q.data[..4].try_into().unwrap()) as usize;
        let style = q.data[4];
        let mut d = vec![0u8; n];
        SmallRng::seed_from_u64(n as u64).fill(&mut d[..]);
        if style == 3 {
            d = squeeze(&vec![9u8; n]);
        }
        let mut parts = transfer(&negate(tid), &ranswer(&q.id, &d), 2);
        for x in &mut parts {
            if let RM::Part { total, .. } = x {
                match style {
                    1 => *total = max as u64,
                    2 => *total |= 1 << 32,
                    _ => {}
                }
            }
        }
        let n = parts.len();
        (0..n).map(|i| (Duration::from_millis(i as u64 / 20), parts[i].clone())).collect()
    })
    .await;
    let peer = p.s.me.short;
    for (n, style) in [(max - 70, 0u8), (max - 64, 0), (max + 1, 0), (max + 500, 0), (max * 2, 0), (max + 1, 1), (max * 2, 1), (max + 1, 2), (max - 100, 3), (max + 1, 3), (max * 3, 3), (max * 200, 3)] {
        let n = n.min(80_000_000);
        let mut q = (n as u32).to_le_bytes().to_vec();
        q.push(style);
        q.extend(rand_bytes(rng, 16));
        let mut r = None;
        for _ in 0..2 {
            let x = a.query(peer, q.clone()).await;
            if let Some(Ok(Some(x))) = x {
                r = Some(x);
                break;
            }
            if n > max {
                break;
            }
        }
        if announced.load(Ordering::SeqCst) != max as u64 {
            ctx.violation("wrong-announcement", format!("a query announced a limit of {} instead of {max}", announced.load(Ordering::SeqCst)));
        }
        match r {
            Some(x) if x.len() > max => ctx.violation("over-limit", format!("an answer of {} bytes was delivered although {max} are allowed (style {style})", x.len())),
            Some(x) if x.len() != n => ctx.violation("foreign-answer", format!("an answer of {n} bytes arrived as {} (style {style})", x.len())),
            None if n <= max - 64 => ctx.violation("limit-too-low", format!("an answer of {n} bytes is not delivered although {max} are allowed (style {style})")),
            _ => {}
        }
        ctx.count(if n > max { "over_limit_answers" } else { "under_limit_answers" }, 1);
        ctx.case(("answer limit", max, style, n.min(max + 2) as i64 - max as i64));
    }
    // the node as the one who answers
    let sizes: Arc<AtomicUsize> = Default::default();
    let s2 = sizes.clone();
    let mut o = opts();
    o.force_compression = false;
    let b = RNode::start(rng, o, Rec::new(move |_| Act::Answer(Some(rand_bytes(&mut rand::thread_rng(), s2.load(Ordering::SeqCst))))));
    let p = RPeer::new(rng, &b, |_, _| vec![]).await;
    for k in 0..8usize {
        let limit = [0u64, 1, 1000, 30_000, 1 << 40][rng.gen_range(0..5)];
        let n = match k % 4 {
            0 => limit.min(100_000) as usize,
            1 => limit.min(100_000) as usize + 1,
            2 => limit.min(100_000).saturating_sub(1) as usize,
            _ => limit.min(100_000) as usize * 2 + 5,
        };
        sizes.store(n, Ordering::SeqCst);
        let (tid, qid) = (rand32(rng), rand32(rng));
        let over = n as u64 > limit;
        let q = rand_bytes(rng, 30);
        let r = p.ask(&tid, &rquery(&qid, limit, &q), Duration::from_millis(if over { 500 } else { 8000 })).await;
        match r {
            Some(x) if over => ctx.violation("over-limit", format!("an answer of {} bytes was sent although {limit} were announced", x.len())),
            None if !over => ctx.violation("limit-too-low", format!("an answer of {n} bytes was not sent although {limit} were announced")),
            _ => {}
        }
        if b.rec.count(|e| e.data == q) != 1 {
            ctx.violation("not-handled", "a query was not handled exactly once");
        }
        ctx.count(if over { "over_limit_answers" } else { "under_limit_answers" }, 1);
        ctx.case(("announced", limit, k % 4));
    }
}

/// The limit is one per peer: one that is used up does not hold up queries to others.
async fn neighbours(ctx: &C, rng: &mut SmallRng) {
    let mut o = opts();
    o.query_min_timeout_ms = 30_000;
    o.query_max_timeout_ms = 30_000;
    o.max_peer_queries = 3;
    let a = RNode::start(rng, o, refuse());
    let quiet = Serve::new(rng, a.n.addr(), a.n.pk(0)).await;
    quiet.set(|_| vec![]);
    a.knows(&quiet);
    let mut full = Vec::new();
    for _ in 0..6 {
        let (r, local, to) = (a.rldp.clone(), a.n.id(0), sid(&quiet.me.short));
        let q = rand_bytes(rng, 100);
        full.push(node_rt().spawn(async move { r.query(&local, &to, q, None).await.is_ok() }));
    }
    sleep_ms(300).await;
    for i in 0..4u32 {
        let p = RPeer::new(rng, &a, |tid, q| now(transfer(&negate(tid), &ranswer(&q.id, b"here"), 2))).await;
        let q = rand_bytes(rng, 100);
        let _g = ctx.op("query beside a full peer");
        let x = a.query(p.s.me.short, q).await;
        let over = full.iter().filter(|f| f.is_finished()).count();
        ctx.count("not_held_up", 1);
        ctx.case(("beside a full peer", i));
        if over > 0 {
            ctx.violation("held-up", format!("a query was held up until {over} queries to another, silent peer were over (it ended with {x:?})"));
            break;
        }
        if !matches!(x, Some(Ok(Some(_)))) {
            ctx.violation("not-served", format!("a query beside a full peer ended with {x:?}"));
            break;
        }
    }
    for f in full {
        f.abort();
    }
}

/// Queries which nobody answers end in time, whatever roundtrip the caller believes in.
async fn timeouts(ctx: &C, rng: &mut SmallRng) {
    let (min, max) = (400u64, 900u64);
    let mut o = opts();
    o.query_min_timeout_ms = min;
    o.query_max_timeout_ms = max;
    let a = RNode::start(rng, o, refuse());
    // one that confirms nothing and one that nobody listens for
    let quiet = Serve::new(rng, a.n.addr(), a.n.pk(0)).await;
    quiet.set(|_| vec![]);
    a.knows(&quiet);
    let mut suggested = 100u64;
    for round in 0..12u32 {
        let given = match round {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            3 => Some(min),
            4 => Some(max),
            5 => Some(max + 1),
            6 => Some(40_000),
            7 => Some(u32::MAX as u64),
            _ => Some(suggested),
        };
        let (r, local, peer) = (a.rldp.clone(), a.n.id(0), sid(&quiet.me.short));
        let q = rand_bytes(rng, [30usize, 5000][round as usize % 2]);
        let t = Instant::now();
        let _g = ctx.op("query to a silent peer");
        let x = tokio::time::timeout(Duration::from_secs(25), run_node(async move { r.query(&local, &peer, q, given).await })).await;
        let took = t.elapsed();
        ctx.count("silent_queries", 1);
        ctx.case(("silent", given.map(|g| g.min(1 << 20)), round));
        match x {
            Err(_) => return ctx.violation("late", format!("a query without answer (roundtrip {given:?}) has not ended after 25 s although at most {max} ms are allowed")),
            Ok(Some(Ok((None, s)))) => {
                if s > max {
                    return ctx.violation("wrong-roundtrip", format!("a query without answer (roundtrip {given:?}) suggests a roundtrip of {s} ms, at most {max} are allowed"));
                }
                if took < Duration::from_millis(min - 20) {
                    return ctx.violation("early", format!("a query without answer (roundtrip {given:?}) ended after {took:?} although at least {min} ms are allowed"));
                }
                suggested = s;
            }
            Ok(Some(Ok((Some(_), _)))) => return ctx.violation("foreign-answer", "a query nobody answers got an answer"),
            Ok(Some(Err(e))) => return ctx.violation("query-error", format!("a query to a silent peer failed: {e}")),
            Ok(None) => {}
        }
    }
}

async fn served(rng: &mut SmallRng, a: &RNode) -> Serve {
    let me = crate::wire::Ident::gen(rng);
    serve_over_channel(me, rng, a).await
}

struct Gauge {
    now: HashSet<[u8; 32]>,
    max: usize,
    seen: usize,
}

/// Serve that delays its answers and counts the transfers it is busy with.
fn count_in_flight(s: &Serve, pause: impl Fn(&RQuery) -> Option<Duration> + Send + Sync + 'static) -> Arc<Mutex<Gauge>> {
    let g = Arc::new(Mutex::new(Gauge { now: HashSet::new(), max: 0, seen: 0 }));
    let g2 = g.clone();
    let inc: Mutex<HashMap<[u8; 32], Collect>> = Default::default();
    // an answer counts as sent when this is called again after it was due
    let due: Mutex<Vec<(Instant, [u8; 32])>> = Default::default();
    s.set(move |m| {
        let Msg::Custom(d) = m else { return vec![] };
        let Ok(m) = RM::read(d) else { return vec![] };
        let RM::Part { tid, .. } = &m else { return vec![] };
        let mut inc = inc.lock().unwrap();
        let mut g = g2.lock().unwrap();
        let t = Instant::now();
        due.lock().unwrap().retain(|x| {
            if x.0 < t {
                g.now.remove(&x.1);
            }
            x.0 >= t
        });
        let c = inc.entry(*tid).or_insert_with(Collect::new);
        if c.got == 0 && !c.done {
            g.now.insert(*tid);
            g.seen += 1;
            g.max = g.max.max(g.now.len());
        }
        let was = c.done;
        let mut out: Vec<(Duration, Msg)> = c.add(&m).into_iter().map(|m| (Duration::ZERO, m.msg())).collect();
        if c.done && !was {
            if let Ok(q) = read_rquery(&c.data) {
                if let Some(d) = pause(&q) {
                    for p in transfer(&negate(tid), &ranswer(&q.id, b"done"), 1) {
                        out.push((d, p.msg()));
                    }
                    // not in flight any more as soon as the first symbol may have been sent
                    due.lock().unwrap().push((t + d, *tid));
                } else {
                    g.now.remove(tid);
                }
            }
            c.got = 1;
        }
        out
    });
    g
}

async fn in_flight(ctx: &C, rng: &mut SmallRng, round: u64) {
    let k = [3usize, 1, 16][round as usize % 3];
    let mut o = opts();
    o.max_peer_queries = k;
    let a = Arc::new(RNode::start(rng, o, refuse()));
    let s1 = served(rng, &a).await;
    let s2 = served(rng, &a).await;
    a.knows(&s1);
    a.knows(&s2);
    let g1 = count_in_flight(&s1, |q| Some(Duration::from_millis(40 + q.data[4] as u64 / 4)));
    let g2 = count_in_flight(&s2, |_| Some(Duration::from_millis(5)));
    // gc beside it
    let stop = Arc::new(AtomicBool::new(false));
    let gc = {
        let (a, stop) = (a.clone(), stop.clone());
        tokio::spawn(async move {
            while !stop.load(Ordering::SeqCst) {
                a.rldp.gc();
                sleep_ms(1).await;
            }
        })
    };
    let unknown = rand32(rng);
    for burst in 0..2 {
        let mut tasks = Vec::new();
        for i in 0..(5 * k + 5) {
            let len = rng.gen_range(30..3000);
            let q = rand_bytes(rng, len);
            let (a, ctx) = (a.clone(), ctx.clone());
            let to = if i % 7 == 6 { s2.me.short } else { s1.me.short };
            tasks.push(tokio::spawn(async move {
                let start = Instant::now();
                let r = a.query(to, q).await;
                if !matches!(r, Some(Ok(Some(_)))) && !ctx.violated() {
                    ctx.violation("answer-lost", format!("a query among many to a peer ended with {r:?} after {:?}", start.elapsed()));
                }
            }));
        }
        for t in tasks {
            t.await.ok();
        }
        let (m, seen) = {
            let g = g1.lock().unwrap();
            (g.max, g.seen)
        };
        if m > k {
            ctx.violation("too-many-in-flight", format!("{m} queries to a peer were in flight at once although {k} are allowed"));
        }
        if m < k && seen > 2 * k {
            ctx.count("not_full", 1);
        }
        ctx.count("bursts", 1);
        ctx.case(("in flight", k, burst, m));
    }
    if ctx.violated() {
        stop.store(true, Ordering::SeqCst);
        return;
    }
    // one peer being full does not matter to the other
    let s3 = served(rng, &a).await;
    a.knows(&s3);
    s3.set(|_| vec![]);
    let mut full = Vec::new();
    for _ in 0..3 * k {
        let (r, local, to) = (a.rldp.clone(), a.n.id(0), sid(&s3.me.short));
        let q = rand_bytes(rng, 100);
        full.push(node_rt().spawn(async move { r.query(&local, &to, q, None).await.is_ok() }));
    }
    sleep_ms(100).await;
    let q = rand_bytes(rng, 100);
    if !matches!(a.query(s2.me.short, q).await, Some(Ok(Some(_)))) {
        ctx.violation("not-served", "queries to a silent peer keep another peer from being asked");
    }
    // cancelled ones, running and waiting, do not count any more
    for (i, f) in full.iter().enumerate() {
        if i % 2 == 0 || round % 2 == 0 {
            f.abort();
        }
    }
    let g3 = count_in_flight(&s3, |_| Some(Duration::from_millis(5)));
    // errors neither
    for _ in 0..2 * k {
        let q = rand_bytes(rng, 50);
        if matches!(a.query(unknown, q).await, Some(Ok(Some(_)))) {
            ctx.violation("foreign-answer", "a query to an unknown peer was answered");
        }
    }
    for f in full {
        f.await.ok();
    }
    let mut tasks = Vec::new();
    for _ in 0..2 * k + 1 {
        let (a, to, q) = (a.clone(), s3.me.short, rand_bytes(rng, 60));
        tasks.push(tokio::spawn(async move { matches!(a.query(to, q).await, Some(Ok(Some(_)))) }));
    }
    for t in tasks {
        if !t.await.unwrap_or(false) && !ctx.violated() {
            ctx.violation("not-served", "after cancelled queries a peer can not be asked any more");
        }
    }
    let _ = g3;
    ctx.case(("cancelled", k));
    if g2.lock().unwrap().max > k {
        ctx.violation("too-many-in-flight", "too many queries in flight at the quick peer");
    }
    stop.store(true, Ordering::SeqCst);
    gc.await.ok();
}

/// `gc` at full speed while short bursts begin again and again.
async fn gc_race(ctx: &C, rng: &mut SmallRng) {
    let mut o = opts();
    o.max_peer_queries = 1;
    let a = Arc::new(RNode::start(rng, o, refuse()));
    let s = served(rng, &a).await;
    a.knows(&s);
    let g = count_in_flight(&s, |_| Some(Duration::from_millis(3)));
    let stop = Arc::new(AtomicBool::new(false));
    let mut gcs = Vec::new();
    for _ in 0..3 {
        let (a, stop) = (a.clone(), stop.clone());
        gcs.push(std::thread::spawn(move || {
            let mut n = 0u64;
            while !stop.load(Ordering::SeqCst) {
                a.rldp.gc();
                n += 1;
            }
            n
        }));
    }
    let end = Instant::now() + Duration::from_secs(ctx.pick(4, 30));
    while Instant::now() < end && g.lock().unwrap().max <= 1 {
        let mut tasks = Vec::new();
        for _ in 0..4 {
            let (r, local, to) = (a.rldp.clone(), a.n.id(0), sid(&s.me.short));
            let q = rand_bytes(rng, 40);
            tasks.push(node_rt().spawn(async move { r.query(&local, &to, q, None).await.is_ok() }));
        }
        for t in tasks {
            t.await.ok();
        }
        ctx.count("gc_bursts", 1);
    }
    stop.store(true, Ordering::SeqCst);
    for t in gcs {
        ctx.count("gc_calls", t.join().unwrap_or(0));
    }
    let m = g.lock().unwrap().max;
    if m > 1 {
        ctx.violation("too-many-in-flight", format!("{m} queries to a peer were in flight at once although 1 is allowed, while gc ran"));
    }
    ctx.case("gc race");
}
