//! C13: subscribers see every message once, in order, within the node life cycle.
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use anyhow::Result;
use everscale_network::adnl;
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use rand::rngs::SmallRng;
use rand::Rng;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one message or query followed through the list of subscribers, or one life-cycle step; non-trivial because the subscribers' decisions are written into the message and differ; distinct by kind, number of subscribers, decisions and transport");
    let mut rng = ctx.rng(13);
    let mut round = 0;
    while ctx.within(25, 500) && (round < 6 || !ctx.quick()) {
        offering(&ctx, &mut rng, round).await;
        start_races(&ctx, &mut rng).await;
        shutdown(&ctx, &mut rng, round).await;
        round += 1;
    }
    ctx.require("messages_followed", 200);
    ctx.require("queries_followed", 200);
    ctx.require("unclaimed_queries", 20);
    ctx.require("pings", 40);
    ctx.require("start_races", 4);
    ctx.require("packets_after_shutdown", 50);
    ctx.check_panics("subscribers");
}

const MAGIC: u32 = 0x5c1b_0d13;

/// (index of the subscriber, query?, message id)
type Log = Arc<Mutex<Vec<(usize, bool, u64)>>>;

/// A subscriber whose decisions are written into the messages.
struct Sub {
    index: usize,
    log: Log,
    ctx: C,
    owned: bool,
}

fn message(id: u64, decisions: &[u8], pad: &[u8]) -> Vec<u8> {
    let mut v = MAGIC.to_le_bytes().to_vec();
    v.extend(id.to_le_bytes());
    v.push(decisions.len() as u8);
    v.extend(decisions);
    v.extend(pad);
    v
}
fn parse(d: &[u8]) -> Option<(u64, &[u8])> {
    if d.len() < 13 || d[..4] != MAGIC.to_le_bytes() {
        return None;
    }
    let n = d[12] as usize;
    Some((u64::from_le_bytes(d[4..12].try_into().unwrap()), d.get(13..13 + n)?))
}
fn answer(index: usize, q: &[u8]) -> Vec<u8> {
    let mut v = sha256(q).to_vec();
    v.push(index as u8);
    v
}

#[async_trait::async_trait]
impl MessageSubscriber for Sub {
    async fn try_consume_custom<'a>(&self, _: SubscriberContext<'a>, c: u32, data: &'a [u8]) -> Result<bool> {
        if data.get(..4) != Some(&c.to_le_bytes()) {
            self.ctx.violation("constructor", "a subscriber was told a constructor other than that of the message");
        }
        let Some((id, d)) = parse(data) else { return Ok(false) };
        self.log.lock().unwrap().push((self.index, false, id));
        if id % 5 == 0 {
            tokio::task::yield_now().await;
        }
        Ok(d.get(self.index).is_some_and(|x| *x != 0))
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Sub {
    async fn try_consume_query<'a>(&self, _: SubscriberContext<'a>, c: u32, q: Cow<'a, [u8]>) -> Result<QueryConsumingResult<'a>> {
        if q.get(..4) != Some(&c.to_le_bytes()) {
            self.ctx.violation("constructor", "a subscriber was told a constructor other than that of the query");
        }
        if c == id::PING && q.len() == 12 && q[10..] == [0xa5, 0x5a] {
            self.log.lock().unwrap().push((self.index, true, u64::from_le_bytes(q[4..].try_into().unwrap())));
        }
        let Some((id, d)) = parse(&q) else { return Ok(QueryConsumingResult::Rejected(q)) };
        self.log.lock().unwrap().push((self.index, true, id));
        match d.get(self.index) {
            Some(1) => Ok(QueryConsumingResult::Consumed(Some(answer(self.index, &q)))),
            Some(2) => Ok(QueryConsumingResult::Consumed(None)),
            Some(3) => {
                tokio::time::sleep(Duration::from_millis(30)).await;
                Ok(QueryConsumingResult::Consumed(Some(answer(self.index, &q))))
            }
            Some(4) => Ok(QueryConsumingResult::Consumed(Some(Vec::new()))),
            _ => Ok(QueryConsumingResult::Rejected(if self.owned { Cow::Owned(q.into_owned()) } else { q })),
        }
    }
}

struct Built {
    adnl: Arc<adnl::Node>,
    me: Ident,
    log: Log,
}

fn build(ctx: &C, rng: &mut SmallRng, subs: usize) -> Built {
    let me = Ident::gen(rng);
    let log: Log = Default::default();
    let adnl = on_node(|| {
        let node = adnl::Node::new("127.0.0.1:0".parse().unwrap(), keystore(&[me.clone()]), default_opts(), None).expect("node");
        for index in 0..subs {
            let s = Arc::new(Sub { index, log: log.clone(), ctx: ctx.clone(), owned: index % 2 == 1 });
            node.add_message_subscriber(s.clone()).expect("subscriber");
            node.add_query_subscriber(s).expect("subscriber");
        }
        node
    });
    Built { adnl, me, log }
}

/// What must have been offered: everyone up to the first taker.
fn expected(subs: usize, d: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    for i in 0..subs {
        v.push(i);
        if d[i] != 0 {
            break;
        }
    }
    v
}

async fn offering(ctx: &C, rng: &mut SmallRng, round: u64) {
    let subs = [3usize, 1, 5, 2, 0, 4][round as usize % 6];
    let b = build(ctx, rng, subs);
    on_node(|| b.adnl.start()).expect("start");
    let mut w = WirePeer::new(rng, b.adnl.socket_addr(), b.me.public).await;
    let channel = round % 2 == 0;
    let ready = if channel { w.establish_channel(rng).await } else { w.ping(rng, 10, Duration::from_millis(500)).await };
    if !ready {
        ctx.violation("no-service", "an honest peer is not served");
        return;
    }
    b.adnl.add_peer(adnl::NewPeerContext::Dht, &sid(&b.me.short), &sid(&w.me.short), w.addr, fid(&w.me.public)).ok();

    let mut sent: HashMap<u64, (bool, Vec<u8>)> = HashMap::new(); // id -> (query, decisions)
    let mut qids: HashMap<[u8; 32], (Vec<u8>, Option<Vec<u8>>, bool)> = HashMap::new(); // -> (what, answer, sure)
    let mut answers: HashMap<[u8; 32], Vec<Vec<u8>>> = HashMap::new();
    let mut next = rng.gen::<u32>() as u64;
    for k in 0..ctx.pick(120, 300) {
        let mut msgs = Vec::new();
        for part in 0..rng.gen_range(1..4) {
            let _ = part;
            let d: Vec<u8> = {
                let taker = rng.gen_range(0..subs + 1);
                (0..subs).map(|i| if i < taker { 0 } else if i == taker { rng.gen_range(1..5) } else { rng.gen_range(0..5) }).collect()
            };
            let unclaimed = d.iter().all(|x| *x == 0);
            let n = rng.gen_range(0..120);
            let body = message(next, &d, &rand_bytes(rng, n));
            match rng.gen_range(0..7) {
                0..=2 => {
                    sent.insert(next, (false, d));
                    next += 1;
                    msgs.push(Msg::Custom(body));
                    ctx.count("messages_followed", 1);
                }
                3..=5 => {
                    let qid = rand32(rng);
                    let taker = d.iter().position(|x| *x != 0);
                    let a = match taker.map(|i| (i, d[i])) {
                        Some((i, 1 | 3)) => Some(answer(i, &body)),
                        Some((_, 4)) => Some(Vec::new()),
                        _ => None,
                    };
                    if a.is_none() {
                        ctx.count("unclaimed_queries", 1);
                    }
                    ctx.case((subs, channel, d.clone(), "query"));
                    qids.insert(qid, (body.clone(), a, true));
                    sent.insert(next, (true, d));
                    next += 1;
                    msgs.push(Msg::Query { id: qid, data: body });
                    ctx.count("queries_followed", 1);
                }
                _ => {
                    let qid = rand32(rng);
                    // marked, unlike those of the set-up
                    let v: u64 = rng.gen::<u64>() >> 16 | 0x5aa5 << 48;
                    let q = W::new().u32(id::PING).u64(v).done();
                    // offered to everybody before the node answers it
                    sent.insert(v, (true, vec![0; subs]));
                    qids.insert(qid, (q.clone(), Some(W::new().u32(id::PONG).u64(v).done()), true));
                    msgs.push(Msg::Query { id: qid, data: q });
                    ctx.count("pings", 1);
                    ctx.case((subs, channel, "ping"));
                    continue;
                }
            }
            // an unclaimed message ends the processing of its packet
            if unclaimed {
                break;
            }
        }
        // a few large ones, split by the sender into parts
        if k % 9 == 0 {
            let d: Vec<u8> = (0..subs).map(|i| (i + 1 == subs) as u8).collect();
            let n = rng.gen_range(1500..5000);
            let body = message(next, &d, &rand_bytes(rng, n));
            sent.insert(next, (false, d));
            next += 1;
            let whole = Msg::Custom(body).ser();
            let hash = sha256(&whole);
            for (i, c) in whole.chunks(900).enumerate() {
                let p = Msg::Part { hash, total: whole.len() as u32, offset: (i * 900) as u32, data: c.to_vec() };
                if channel {
                    w.send_ch(rng, vec![p], true).await
                } else {
                    w.send(rng, vec![p]).await
                }
            }
        }
        if channel {
            w.send_ch(rng, msgs, rng_bool(k)).await
        } else {
            w.send(rng, msgs).await
        }
        if k % 8 == 7 {
            sleep_ms(4).await;
        }
        while let Ok(Some(g)) = tokio::time::timeout(Duration::from_micros(200), w.recv(Duration::from_millis(1))).await {
            collect(&mut w, &g, &mut answers);
        }
    }
    let drops = udp_drops(b.adnl.socket_addr().port()) + udp_drops(w.addr.port());
    let total: usize = sent.iter().map(|(_, (_, d))| expected(subs, d).len()).sum();
    let want_answers = qids.values().filter(|x| x.1.is_some()).count();
    let end = Instant::now() + Duration::from_secs(if drops == 0 { 6 } else { 1 });
    let mut settled = None;
    while Instant::now() < end {
        if let Some(g) = w.recv(Duration::from_millis(20)).await {
            collect(&mut w, &g, &mut answers);
        }
        let done = b.log.lock().unwrap().len() >= total && answers.len() >= want_answers;
        // keep listening for what must not come
        let s = *settled.get_or_insert(Instant::now());
        if !done {
            settled = None;
        } else if s.elapsed() > Duration::from_millis(400) {
            break;
        }
    }
    let mut got: HashMap<u64, Vec<(usize, bool)>> = HashMap::new();
    for (i, q, id) in b.log.lock().unwrap().iter() {
        got.entry(*id).or_default().push((*i, *q));
    }
    for (id, (query, d)) in &sent {
        let want: Vec<(usize, bool)> = expected(subs, d).into_iter().map(|i| (i, *query)).collect();
        let have = got.remove(id).unwrap_or_default();
        if have.is_empty() && drops > 0 {
            continue;
        }
        if have != want {
            ctx.violation(if *query { "query-offering" } else { "message-offering" }, format!("decisions {d:?} of {subs} subscribers: offered to {have:?}, expected {want:?}"));
            return;
        }
        ctx.case((subs, channel, *query, d.clone()));
    }
    if !got.is_empty() {
        ctx.violation("foreign-message", "a subscriber was offered a message that was never sent");
    }
    for (qid, (q, a, _)) in &qids {
        let have = answers.remove(qid).unwrap_or_default();
        match a {
            None if !have.is_empty() => ctx.violation("unclaimed-answered", "a query nobody answered got an answer"),
            Some(a) if have.iter().any(|x| x != a) => {
                ctx.violation("wrong-answer", format!("a query of {} bytes got an answer other than that of the subscriber that took it (of {subs})", q.len()))
            }
            Some(_) if have.len() > 1 => ctx.violation("answered-twice", format!("a query was answered {} times", have.len())),
            Some(_) if have.is_empty() && drops == 0 => ctx.violation("not-answered", "a query taken by a subscriber got no answer"),
            _ => {}
        }
    }
    if !answers.is_empty() {
        ctx.violation("foreign-answer", "the node answered a query that was not asked");
    }
    b.adnl.shutdown();
}

fn rng_bool(k: usize) -> bool {
    k % 3 == 0
}

fn collect(w: &mut WirePeer, g: &Got, answers: &mut HashMap<[u8; 32], Vec<Vec<u8>>>) {
    for m in w.assemble(g) {
        if let Msg::Answer { id, data } = m {
            answers.entry(id).or_default().push(data);
        }
    }
}

/// Starting from several threads while others add subscribers.
async fn start_races(ctx: &C, rng: &mut SmallRng) {
    let b = build(ctx, rng, 1);
    // nothing is processed before the start
    let mut w = WirePeer::new(rng, b.adnl.socket_addr(), b.me.public).await;
    w.send(rng, vec![Msg::Custom(message(1, &[1], &[]))]).await;
    if let Some(g) = w.recv(Duration::from_millis(60)).await {
        ctx.violation("before-start", format!("a node that was not started sent a packet ({} messages)", g.msgs.len()));
    }
    if !b.log.lock().unwrap().is_empty() {
        ctx.violation("before-start", "a node that was not started processed a message");
    }
    let barrier = Arc::new(std::sync::Barrier::new(6));
    let mut hs = Vec::new();
    for t in 0..3usize {
        let (a, bar) = (b.adnl.clone(), barrier.clone());
        let h = node_rt().handle().clone();
        hs.push(std::thread::spawn(move || {
            let _g = h.enter();
            bar.wait();
            (t, true, a.start().is_ok(), false)
        }));
    }
    for t in 1..4usize {
        let (a, bar, log, c) = (b.adnl.clone(), barrier.clone(), b.log.clone(), ctx.clone());
        hs.push(std::thread::spawn(move || {
            let s = Arc::new(Sub { index: t, log, ctx: c, owned: false });
            bar.wait();
            let q = a.add_query_subscriber(s.clone()).is_ok();
            let m = a.add_message_subscriber(s).is_ok();
            (t, false, m, q)
        }));
    }
    let res: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let starts = res.iter().filter(|r| r.1 && r.2).count();
    if starts != 1 {
        ctx.violation("started-twice", format!("{starts} of 3 concurrent starts succeeded"));
    }
    if on_node(|| b.adnl.start()).is_ok() {
        ctx.violation("started-twice", "a running node was started again");
    }
    let late = Arc::new(Sub { index: 9, log: b.log.clone(), ctx: ctx.clone(), owned: false });
    if b.adnl.add_message_subscriber(late.clone()).is_ok() || b.adnl.add_query_subscriber(late).is_ok() {
        ctx.violation("late-subscriber", "a subscriber was accepted by a running node");
    }
    if !w.ping(rng, 10, Duration::from_millis(500)).await {
        ctx.violation("no-service", "a node started once does not answer pings");
        return;
    }
    for (query, id) in [(false, 100u64), (true, 101)] {
        let mut want: Vec<usize> = res.iter().filter(|r| !r.1 && if query { r.3 } else { r.2 }).map(|r| r.0).collect();
        want.sort();
        let body = message(id, &[0; 10], &[]);
        let mut have: Vec<usize> = Vec::new();
        for _ in 0..5 {
            b.log.lock().unwrap().retain(|x| x.2 != id);
            let m = if query { Msg::Query { id: fresh_id(), data: body.clone() } } else { Msg::Custom(body.clone()) };
            w.send(rng, vec![m]).await;
            let n = want.len() + 1;
            eventually(Duration::from_millis(700), || b.log.lock().unwrap().iter().filter(|x| x.2 == id).count() >= n).await;
            sleep_ms(50).await;
            have = b.log.lock().unwrap().iter().filter(|x| x.2 == id && x.1 == query).map(|x| x.0).collect();
            if !have.is_empty() {
                break;
            }
        }
        if have.first() != Some(&0) {
            ctx.violation("subscriber-order", format!("the first subscriber was not the first one asked: {have:?}"));
        } else {
            have.remove(0);
        }
        have.sort();
        if have != want {
            ctx.violation("accepted-subscribers", format!("subscribers {want:?} were accepted before the start but {have:?} are asked"));
        }
        ctx.case(("start race", query, want.len()));
    }
    ctx.count("start_races", 1);
    b.adnl.shutdown();
}

/// After shutdown nothing is processed or answered any more.
async fn shutdown(ctx: &C, rng: &mut SmallRng, round: u64) {
    let b = build(ctx, rng, 2);
    let early = round % 3 == 2;
    if early {
        b.adnl.shutdown();
    }
    let mut w = WirePeer::new(rng, b.adnl.socket_addr(), b.me.public).await;
    if early {
        // waiting in the socket when the (shut down) node is started
        for k in 0..40 {
            let q = message(200 + k, &[1, 1], &[]);
            w.send(rng, vec![Msg::Query { id: fresh_id(), data: q.clone() }, Msg::Custom(q)]).await;
            ctx.count("packets_after_shutdown", 1);
        }
    }
    on_node(|| b.adnl.start()).ok();
    if !early && !w.ping(rng, 10, Duration::from_millis(500)).await {
        ctx.violation("no-service", "a started node does not answer pings");
        return;
    }
    b.adnl.add_peer(adnl::NewPeerContext::Dht, &sid(&b.me.short), &sid(&w.me.short), w.addr, fid(&w.me.public)).ok();
    // a handler that is still busy
    if !early {
        let q = message(1, &[3, 0], &[]);
        w.send(rng, vec![Msg::Query { id: fresh_id(), data: q }]).await;
    }
    // traffic goes on all the time
    let stop = Arc::new(AtomicBool::new(false));
    let flood = {
        let (stop, to, key) = (stop.clone(), b.adnl.socket_addr(), b.me.public);
        let seed: u64 = rng.gen();
        tokio::spawn(async move {
            use rand::SeedableRng;
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut w = WirePeer::new(&mut rng, to, key).await;
            let mut n = 0u64;
            let mut answered = Vec::new();
            while !stop.load(Ordering::Relaxed) {
                for _ in 0..20 {
                    let q = message(1_000_000 + n, &[1, 1], &[]);
                    n += 1;
                    w.send(&mut rng, vec![Msg::Query { id: fresh_id(), data: q.clone() }, Msg::Custom(q)]).await;
                }
                while w.recv(Duration::from_millis(1)).await.is_some() {
                    answered.push(Instant::now());
                }
            }
            (n, answered)
        })
    };
    sleep_ms(if early { 0 } else { 60 }).await;
    if !early && b.log.lock().unwrap().is_empty() {
        ctx.violation("no-service", "a started node processes no messages");
    }
    b.adnl.shutdown();
    // what was being processed may finish
    sleep_ms(if early { 0 } else { 400 }).await;
    while w.recv(Duration::from_millis(1)).await.is_some() {}
    let at = Instant::now();
    let before = b.log.lock().unwrap().len();
    for k in 0..30 {
        let q = message(300 + k, &[1, 1], &[]);
        let ping = W::new().u32(id::PING).u64(k).done();
        w.send(rng, vec![Msg::Query { id: fresh_id(), data: ping }, Msg::Query { id: fresh_id(), data: q.clone() }, Msg::Custom(q)]).await;
        ctx.count("packets_after_shutdown", 1);
    }
    b.adnl.send_custom_message(&sid(&b.me.short), &sid(&w.me.short), b"after shutdown").ok();
    if let Some(g) = w.recv(Duration::from_millis(500)).await {
        ctx.violation("sent-after-shutdown", format!("a node sent a packet after its shutdown (shut down before the start: {early}): {:?}", g.msgs.first()));
    }
    stop.store(true, Ordering::Relaxed);
    let (n, answered) = flood.await.unwrap();
    ctx.count("packets_after_shutdown", n);
    if answered.iter().any(|t| *t > at + Duration::from_millis(20)) {
        ctx.violation("sent-after-shutdown", "a node under load went on answering after its shutdown");
    }
    let after = b.log.lock().unwrap().len();
    if after != before || (early && after > 0) {
        ctx.violation("processed-after-shutdown", format!("a node processed {} messages after its shutdown (shut down before the start: {early})", if early { after } else { after - before }));
    }
    // a shut down node cannot be brought back by starting it
    if !early && on_node(|| b.adnl.start()).is_ok() {
        ctx.violation("started-twice", "a node was started again after its shutdown");
    }
    ctx.case(("shutdown", early, round % 3));
}

fn fresh_id() -> [u8; 32] {
    rand::thread_rng().gen()
}
