//! C06: every query ends once, with its own answer or a timeout.
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one query followed from its call to its end; non-trivial because other queries with the same bytes, late and repeated answers or answers for foreign ids are in flight at the same time; distinct by scenario, answer policy and size class");
    let mut rng = ctx.rng(6);
    let mut round = 0u64;
    while ctx.within(30, 600) && (round < 3 || !ctx.quick()) {
        scripted(&ctx, &mut rng, round).await;
        cancelled(&ctx, &mut rng).await;
        errors(&ctx, &mut rng).await;
        lossy(&ctx, &mut rng, round).await;
        round += 1;
    }
    ctx.require("queries", 300);
    ctx.require("answered", 100);
    ctx.require("timeouts", 40);
    ctx.require("late_answers", 20);
    ctx.require("repeated_answers", 20);
    ctx.require("cancelled", 20);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Plan {
    Answer,
    Big,
    Empty,
    Delayed,
    Twice,
    Silent,
    Late,
    WrongId,
    FlippedId,
}
const PLANS: [Plan; 9] = [Plan::Answer, Plan::Big, Plan::Empty, Plan::Delayed, Plan::Twice, Plan::Silent, Plan::Late, Plan::WrongId, Plan::FlippedId];

/// The plan is the 5th byte of the query.
async fn scripted(ctx: &C, rng: &mut SmallRng, round: u64) {
    let opts = adnl::NodeOptions { query_default_timeout_ms: 900, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if round % 2 == 0 {
        if !w.establish_channel(rng).await {
            ctx.violation("no-channel", "an honest peer could not establish a channel");
            return;
        }
    } else if !w.ping(rng, 5, Duration::from_millis(1500)).await {
        ctx.violation("no-service", "an honest peer is not answered");
        return;
    }
    node.know_wire(0, &w);
    let peer = sid(&w.me.short);
    let total = ctx.pick(90usize, 200);
    let base = node.adnl.metrics().query_count;
    if base != 0 {
        ctx.violation("query-leak", format!("{base} pending queries before any was made"));
    }

    // qid -> content produced for it (first answer), and everything ever sent for it
    let produced: Arc<Mutex<HashMap<Vec<u8>, HashSet<Vec<u8>>>>> = Default::default();
    let mut tasks = Vec::new();
    let mut queries = Vec::new();
    let shared = rand_bytes(rng, 20);
    for k in 0..total {
        let plan = PLANS[k % PLANS.len()];
        let mut q = vec![0x31, 0x32, 0x33, 0x34, (k % PLANS.len()) as u8];
        // Several queries of each plan are byte-for-byte the same
        q.extend(&shared);
        if k >= total / 2 {
            q.extend(rand_bytes(rng, 8));
        }
        let timeout = match plan {
            _ if k % 5 == 4 => None,
            _ => Some(rng.gen_range(600..1000u64)),
        };
        queries.push((plan, q.clone(), timeout));
        let (a, l) = (node.adnl.clone(), node.id(0));
        tasks.push(node_rt().spawn(async move {
            let t = Instant::now();
            let r = a.query_raw(&l, &peer, q.into(), timeout).await;
            (r.map_err(|e| e.to_string()), t.elapsed())
        }));
    }
    // The responder
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let seed: u64 = rng.gen();
    let responder = {
        let (stop, produced, ctx) = (stop.clone(), produced.clone(), ctx.clone());
        tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut seen: HashSet<[u8; 32]> = HashSet::new();
            let mut later: Vec<(Instant, Msg)> = Vec::new();
            let mut asked = 0usize;
            while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                let now = Instant::now();
                let due: Vec<Msg> = {
                    let (d, l): (Vec<_>, Vec<_>) = later.drain(..).partition(|x| x.0 <= now);
                    later = l;
                    d.into_iter().map(|x| x.1).collect()
                };
                for m in due {
                    reply(&mut w, &mut rng, m).await;
                }
                let Some(g) = w.recv(Duration::from_millis(10)).await else { continue };
                for m in w.assemble(&g) {
                    let Msg::Query { id, data } = m else { continue };
                    if data.get(..4) != Some(&[0x31, 0x32, 0x33, 0x34]) {
                        continue;
                    }
                    asked += 1;
                    if !seen.insert(id) {
                        ctx.violation("query-id-reused", "two queries use the same id, so one answer could complete both");
                    }
                    let plan = PLANS[data[4] as usize];
                    let mut ans = id.to_vec();
                    let n = match plan {
                        Plan::Big => rng.gen_range(2000..9000),
                        _ => rng.gen_range(0..300),
                    };
                    ans.extend(rand_bytes(&mut rng, n));
                    if plan == Plan::Empty {
                        ans.clear();
                    }
                    let msg = Msg::Answer { id, data: ans.clone() };
                    match plan {
                        Plan::Silent => {}
                        Plan::Late => {
                            ctx.count("late_answers", 1);
                            later.push((Instant::now() + Duration::from_millis(1300), msg));
                        }
                        Plan::WrongId => {
                            reply(&mut w, &mut rng, Msg::Answer { id: rng_id(seed, asked), data: ans }).await;
                        }
                        Plan::FlippedId => {
                            let mut id2 = id;
                            id2[(asked * 7) % 32] ^= 1 << (asked % 8);
                            reply(&mut w, &mut rng, Msg::Answer { id: id2, data: ans }).await;
                        }
                        _ => {
                            produced.lock().unwrap().entry(data.clone()).or_default().insert(ans.clone());
                            match plan {
                                Plan::Delayed => later.push((Instant::now() + Duration::from_millis(250), msg)),
                                Plan::Twice => {
                                    reply(&mut w, &mut rng, msg).await;
                                    // a second, different answer well after the first
                                    let mut other = b"second".to_vec();
                                    other.extend(&id);
                                    later.push((Instant::now() + Duration::from_millis(150), Msg::Answer { id, data: other }));
                                    ctx.count("repeated_answers", 1);
                                }
                                _ => reply(&mut w, &mut rng, msg).await,
                            }
                        }
                    }
                }
            }
            (w, asked)
        })
    };
    sleep_ms(100).await;
    let mid = node.adnl.metrics().query_count;
    if mid == 0 {
        ctx.violation("query-count", "no pending query is reported while unanswered ones are in flight");
    }
    let mut results = Vec::new();
    for t in tasks {
        let _op = ctx.op("query");
        results.push(t.await);
    }
    let left = node.adnl.metrics().query_count;
    if left != 0 {
        ctx.violation("query-leak", format!("{left} pending queries remain after all ended"));
    }
    sleep_ms(1500).await; // late answers arrive now
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let (_w, asked) = responder.await.expect("responder");
    let lossless = asked >= total;
    let left = node.adnl.metrics().query_count;
    if left != 0 {
        ctx.violation("query-leak", format!("{left} pending queries exist after late answers"));
    }
    let mut used: HashSet<Vec<u8>> = HashSet::new();
    for ((plan, q, timeout), r) in queries.iter().zip(results) {
        ctx.count("queries", 1);
        let Ok((r, took)) = r else {
            ctx.violation("query-panicked", format!("query with plan {plan:?} panicked"));
            continue;
        };
        let limit = Duration::from_millis(timeout.unwrap_or(900));
        ctx.case(("scripted", *plan, timeout.is_none(), q.len() > 25, round.min(1)));
        match r {
            Err(e) => ctx.violation("query-error", format!("query to a known peer failed: {e}")),
            Ok(Some(a)) => {
                ctx.count("answered", 1);
                let ok = produced.lock().unwrap().get(q).map_or(false, |s| s.contains(&a));
                if !ok {
                    ctx.violation("foreign-answer", format!("a query ({plan:?}) was completed with {} bytes that are not its answer", a.len()));
                }
                // Answers embed the query id: each may be used once
                if !a.is_empty() && !used.insert(a.clone()) {
                    ctx.violation("answer-used-twice", format!("one answer completed two queries ({plan:?})"));
                }
                if took > limit + Duration::from_millis(1500) {
                    ctx.violation("late-completion", format!("answered after {took:?} with a timeout of {limit:?}"));
                }
            }
            Ok(None) => {
                ctx.count("timeouts", 1);
                if took + Duration::from_millis(20) < limit {
                    ctx.violation("early-timeout", format!("reported no answer after {took:?}, the timeout is {limit:?} ({plan:?})"));
                }
                if took > limit + Duration::from_millis(1500) {
                    ctx.violation("late-timeout", format!("reported no answer only after {took:?}, the timeout is {limit:?}"));
                }
                if lossless && udp_drops(node.port()) == 0 && matches!(plan, Plan::Answer | Plan::Big | Plan::Empty | Plan::Twice) {
                    // tolerated only as rare loss in the kernel on our side
                    ctx.count("lost_answers", 1);
                }
            }
        }
    }
    if ctx.counter("lost_answers") > 10 + ctx.counter("answered") / 20 {
        ctx.violation("answers-ignored", format!("{} queries whose answers were sent in time ended without one", ctx.counter("lost_answers")));
    }
    if round == 0 {
        ctx.sample(json!({"scripted": {"queries": total, "asked": asked, "pending_midway": mid}}));
    }
    ctx.check_panics("scripted answers");
}

fn rng_id(seed: u64, n: usize) -> [u8; 32] {
    sha256(&[seed.to_le_bytes(), (n as u64).to_le_bytes()].concat())
}

async fn reply(w: &mut WirePeer, rng: &mut SmallRng, m: Msg) {
    let raw = m.ser();
    let msgs: Vec<Msg> = if raw.len() > 900 {
        let hash = sha256(&raw);
        raw.chunks(900)
            .enumerate()
            .map(|(i, c)| Msg::Part { hash, total: raw.len() as u32, offset: (i * 900) as u32, data: c.to_vec() })
            .collect()
    } else {
        vec![m]
    };
    for m in msgs {
        if w.chan.is_some() {
            let prio = rng.gen();
            w.send_ch(rng, vec![m], prio).await;
        } else {
            w.send(rng, vec![m]).await;
        }
    }
}

async fn cancelled(ctx: &C, rng: &mut SmallRng) {
    let node = TestNode::start(rng, 1, default_opts(), Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    node.know_wire(0, &w);
    let peer = sid(&w.me.short);
    for _ in 0..ctx.pick(30, 100) {
        let (a, l) = (node.adnl.clone(), node.id(0));
        let mut q = vec![1, 2, 3, 4];
        q.extend(rand_bytes(rng, 16));
        let q2 = q.clone();
        let t = node_rt().spawn(async move { a.query_raw(&l, &peer, q2.into(), Some(10_000)).await });
        let qid = w
            .recv_msg(Duration::from_millis(1500), |_, m| match m {
                Msg::Query { id, data } if *data == q => Some(*id),
                _ => None,
            })
            .await;
        t.abort();
        let r = t.await;
        if r.is_ok() {
            ctx.violation("foreign-answer", "a query nobody answered completed");
        }
        if node.adnl.metrics().query_count != 0 {
            ctx.violation("query-leak", "a cancelled query stays pending");
            return;
        }
        if let Some(id) = qid {
            // the answer to a cancelled query
            w.send(rng, vec![Msg::Answer { id, data: vec![1, 2, 3] }]).await;
        }
        ctx.count("cancelled", 1);
        ctx.case(("cancel", qid.is_some()));
    }
    if !w.ping(rng, 5, Duration::from_millis(1500)).await {
        ctx.violation("no-service", "the node stopped serving after answers to cancelled queries");
    }
    if node.adnl.metrics().query_count != 0 {
        ctx.violation("query-leak", "answers to cancelled queries left pending ones");
    }
    ctx.check_panics("cancelled queries");
}

async fn errors(ctx: &C, rng: &mut SmallRng) {
    let node = TestNode::start(rng, 1, default_opts(), Rec::echo());
    let other = TestNode::start(rng, 1, default_opts(), Rec::new(|e| match e.data.get(4) {
        Some(0) => Act::Answer(None),
        Some(1) => Act::Reject,
        Some(2) => Act::Fail,
        Some(3) => Act::Answer(Some(vec![9, 9, 9, 9, 9])),
        _ => Act::Answer(Some(vec![])),
    }));
    let (a, l) = (node.adnl.clone(), node.id(0));
    let stranger = sid(&rand32(rng));
    let r = run_node(async move { a.query_raw(&l, &stranger, vec![1, 2, 3, 4].into(), Some(500)).await.is_err() }).await;
    if r != Some(true) {
        ctx.violation("unknown-peer", "a query to an unknown peer did not fail");
    }
    node.know(0, &other, 0);
    for kind in 0..5u8 {
        let (a, l, p) = (node.adnl.clone(), node.id(0), other.id(0));
        let _op = ctx.op("query");
        let r = run_node(async move { a.query_raw(&l, &p, vec![1, 2, 3, 4, kind].into(), Some(700)).await.map_err(|e| e.to_string()) }).await;
        let ok = match (kind, &r) {
            (0..=2, Some(Ok(None))) => true,
            (3, Some(Ok(Some(d)))) => *d == vec![9, 9, 9, 9, 9],
            (4, Some(Ok(Some(d)))) => d.is_empty(),
            // a lost datagram
            (3..=4, Some(Ok(None))) => {
                ctx.count("lost_answers", 1);
                true
            }
            _ => false,
        };
        if !ok {
            ctx.violation("wrong-end", format!("query of kind {kind} (no answer / rejected / failed / bytes / empty) ended with {r:?}"));
        }
        ctx.count("queries", 1);
        ctx.case(("kinds", kind));
    }
    if node.adnl.metrics().query_count != 0 {
        ctx.violation("query-leak", "failed or unanswered queries stay pending");
    }
    ctx.check_panics("query ends");
}

async fn lossy(ctx: &C, rng: &mut SmallRng, round: u64) {
    let net = Net::new(rng.gen());
    let a = Arc::new(TestNode::start_ext(next_ip(), 0, vec![Ident::gen(rng)], default_opts(), Rec::echo(), None));
    let b = Arc::new(TestNode::start_ext(next_ip(), 0, vec![Ident::gen(rng)], default_opts(), Rec::echo(), None));
    net.attach(a.addr());
    net.attach(b.addr());
    a.know(0, &b, 0);
    b.know(0, &a, 0);
    net.set(|r, _, _, p| {
        if r.gen_bool(0.12) {
            return vec![];
        }
        let n = 1 + r.gen_range(0..10) / 8;
        (0..n).map(|_| (Duration::from_millis(r.gen_range(0..40)), p.clone())).collect()
    });
    let mut tasks = Vec::new();
    for k in 0..ctx.pick(120u32, 400) {
        let (x, y) = if k % 2 == 0 { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
        let len = *[8usize, 100, 1500, 4000].get(rng.gen_range(0..4)).unwrap();
        let mut q = vec![0x71, 0, 0, 0];
        q.extend(rand_bytes(rng, len));
        let pause = rng.gen_range(0..600);
        tasks.push((
            len,
            q.clone(),
            node_rt().spawn(async move {
                sleep_ms(pause).await;
                let (l, p) = (x.id(0), y.id(0));
                x.adnl.query_raw(&l, &p, q.into(), Some(1000)).await.map_err(|e| e.to_string())
            }),
        ));
    }
    for (len, q, t) in tasks {
        let _op = ctx.op("query");
        ctx.count("queries", 1);
        match t.await {
            Ok(Ok(Some(d))) => {
                ctx.count("answered", 1);
                if d != echo_answer(&q) {
                    ctx.violation("foreign-answer", format!("on a lossy network a {len}-byte query got an answer that is not its own"));
                }
            }
            Ok(Ok(None)) => ctx.count("timeouts", 1),
            r => ctx.violation("query-error", format!("{r:?}")),
        }
        ctx.case(("lossy", len, round.min(1)));
    }
    for n in [&a, &b] {
        if n.adnl.metrics().query_count != 0 {
            ctx.violation("query-leak", "pending queries remain after a lossy run");
        }
    }
    ctx.check_panics("lossy network");
}
