//! C16: DHT routing keeps verified, responsive nodes and answers by distance.
use std::collections::{HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;
use std::time::Duration;

use everscale_network::dht;
use everscale_network::proto;
use futures_util::StreamExt;
use rand::rngs::SmallRng;
use rand::Rng;

use crate::dhtw::*;
use crate::nodes::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one request answered by a live DHT node (with a table filled with known nodes), one description offered to it, or one step of a series of answered and unanswered requests; non-trivial because every verdict is computed by an independent model of the table or of the penalties; distinct by kind of request, requested amount class, answer size class and distance classes");
    let mut rng = ctx.rng(16);
    let mut round = 0u64;
    while ctx.within(30, 600) && (round < 12 || !ctx.quick()) {
        if round % 6 == 1 {
            nested(&ctx, &mut rng).await;
        }
        if round % 4 == 0 {
            buckets(&ctx, &mut rng).await;
        }
        table(&ctx, &mut rng, round).await;
        penalties(&ctx, &mut rng, round).await;
        round += 1;
    }
    ctx.require("find_node_answers", 300);
    ctx.require("bucket_patterns", 300);
    ctx.require("find_value_answers", 60);
    ctx.require("own_descriptions", 20);
    ctx.require("introductions", 20);
    ctx.require("repeated_introductions", 5);
    ctx.require("forged_descriptions", 60);
    ctx.require("penalty_steps", 150);
    ctx.require("answered_steps", 50);
    ctx.require("unanswered_steps", 50);
    ctx.require("lookups_without_bad", 8);
    ctx.check_panics("dht routing");
}

fn far_addr(rng: &mut SmallRng) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, rng.gen(), rng.gen(), rng.gen_range(1..250)), rng.gen_range(1000..60000))
}

/// A description which must not enter the table, how it is wrong.
fn forged(rng: &mut SmallRng, who: &Ident, addr: SocketAddrV4) -> (DNode, &'static str) {
    let other = Ident::gen(rng);
    let mut n = DNode::new(who, addr, unix_now());
    let what = match rng.gen_range(0..9) {
        0 => {
            n.sig[rng.gen_range(0..64)] ^= 1 << rng.gen_range(0..8);
            "bit flip in signature"
        }
        1 => {
            n.resign(&other);
            "signed by another"
        }
        2 => {
            n.version ^= 1;
            "changed version"
        }
        3 => {
            n.addr = AddrList::one(far_addr(rng), n.version);
            "changed address"
        }
        4 => {
            n.sig.clear();
            "unsigned"
        }
        5 => {
            n.addr.expire_at = unix_now() - 100;
            n.resign(who);
            "expired addresses"
        }
        6 => {
            n.addr.addrs.clear();
            n.resign(who);
            "no address"
        }
        7 => {
            n.addr.reinit_date = unix_now() + 5000;
            n.resign(who);
            "address from the future"
        }
        _ => {
            n.sig.truncate(63);
            "short signature"
        }
    };
    (n, what)
}

struct Table {
    local: [u8; 32],
    nodes: HashMap<[u8; 32], DNode>,
}
impl Table {
    fn add(&mut self, n: DNode) {
        self.nodes.insert(n.short(), n);
    }
    fn close(&self, key: &[u8; 32]) -> Vec<(u32, [u8; 32])> {
        let dist = |a: &[u8; 32]| -> [u8; 32] { std::array::from_fn(|i| a[i] ^ key[i]) };
        self.nodes.keys().filter(|n| dist(n) < dist(&self.local)).map(|n| (affinity(n, &self.local), *n)).collect()
    }
}

fn check_nodes(ctx: &C, t: &Table, got: &[DNode], what: &str) -> Option<HashSet<[u8; 32]>> {
    let mut seen = HashSet::new();
    for n in got {
        match t.nodes.get(&n.short()) {
            Some(m) if m == n => {}
            Some(_) => ctx.violation("altered-node", format!("{what} contains a description which is not the accepted one")),
            None => {
                ctx.violation("foreign-node", format!("{what} contains a node that never entered the table"));
                return None;
            }
        }
        if !seen.insert(n.short()) {
            ctx.violation("repeated-node", format!("{what} contains a node twice"));
        }
    }
    Some(seen)
}

/// Known nodes at every distance, keys that differ in any way in the first bits: exactly the closer nodes are answered.
async fn buckets(ctx: &C, rng: &mut SmallRng) {
    let d = DhtNode::start(rng, default_opts(), dht::NodeOptions { max_allowed_k: 20, ..Default::default() });
    let mut t = Table { local: d.short(), nodes: HashMap::new() };
    let asker = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
    let mut per = [0usize; 11];
    for _ in 0..60_000 {
        let who = Ident::gen(rng);
        let a = affinity(&who.short, &t.local) as usize;
        if a < per.len() && per[a] < 2 {
            per[a] += 1;
            let n = DNode::new(&who, far_addr(rng), unix_now());
            on_node(|| d.dht.add_dht_peer(n.tl())).ok();
            t.add(n);
        }
        if per.iter().all(|n| *n == 2) {
            break;
        }
    }
    for i in 0..320u32 {
        let mut key = if i % 2 == 0 { t.local } else { rand32(rng) };
        if i < 256 {
            key[0] = t.local[0] ^ i as u8;
        } else {
            key[0] = t.local[0];
            key[1] = t.local[1] ^ ((i as u8) << 2) ^ rng.gen_range(0..4);
        }
        if i % 4 == 2 {
            key[31] ^= 1 << rng.gen_range(0..8);
        }
        let close: HashSet<[u8; 32]> = t.close(&key).into_iter().map(|c| c.1).collect();
        let Some(a) = asker.ask(q_find_node(&key, 1000)).await else {
            ctx.violation("silent", "a find-node request is not answered");
            return;
        };
        let Ok(got) = read_nodes(&a) else {
            ctx.violation("answer", "a find-node answer is not a list of nodes");
            return;
        };
        ctx.count("find_node_answers", 1);
        ctx.count("bucket_patterns", 1);
        let got: HashSet<[u8; 32]> = got.iter().map(|n| n.short()).collect();
        if let Some(x) = close.difference(&got).next() {
            ctx.violation("missing-node", format!("a known node (equal to the answering one in {} bits) was left out although it is closer to the key", affinity(x, &t.local)));
        }
        if let Some(x) = got.difference(&close).next() {
            ctx.violation("far-node", format!("a node (equal to the answering one in {} bits) was answered that is not closer to the key", affinity(x, &t.local)));
        }
        ctx.case(("bucket pattern", key[0] ^ t.local[0], close.len()));
        if ctx.violated() {
            return;
        }
    }
}

async fn table(ctx: &C, rng: &mut SmallRng, round: u64) {
    let max_k = [20u32, 3, 7][round as usize % 3];
    let d = DhtNode::start(rng, default_opts(), dht::NodeOptions { max_allowed_k: max_k, query_timeout_ms: 400, ..Default::default() });
    let mut t = Table { local: d.short(), nodes: HashMap::new() };
    let asker = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
    let mut asker_in = false;
    let mut n = 0;
    let size = [8, 40, 70, 3][round as usize % 4];
    let mut near = 0;
    while n < size {
        let mut who = Ident::gen(rng);
        if near < 2 && n > 1 {
            // one close to the node
            let want = 8 + near;
            for _ in 0..4000 {
                if affinity(&who.short, &t.local) >= want {
                    break;
                }
                who = Ident::gen(rng);
            }
            near += 1;
        }
        let addr = far_addr(rng);
        let good = rng.gen_range(0..3) > 0;
        let (desc, kind) = if good { (DNode::new(&who, addr, unix_now()), "good") } else { forged(rng, &who, addr) };
        let how = rng.gen_range(0..3);
        match how {
            0 => {
                on_node(|| d.dht.add_dht_peer(desc.tl())).ok();
            }
            1 => {
                // introduced by itself as a prefix of a query (whoever sends it)
                let mut q = desc.prefix();
                q.extend(W::new().u32(id::DHT_PING).u64(n as u64).done());
                match asker.query(q, Duration::from_millis(if good { 3000 } else { 60 })).await {
                    Some(a) if a != pong(n as u64) => ctx.violation("ping", "a ping was not answered with its id"),
                    Some(_) => {}
                    None if good => {
                        // lost? a second time
                        let mut q = desc.prefix();
                        q.extend(W::new().u32(id::DHT_PING).u64(1).done());
                        if asker.ask(q).await.is_none() {
                            ctx.violation("silent", "a query of a node that introduces itself is not answered");
                        }
                    }
                    None => {}
                }
            }
            _ => {
                // told by a peer
                let me = Ident::gen(rng);
                let s = Serve::with_ident(me, rng, d.n.addr(), d.n.pk(0)).await;
                let l = nodes(&[desc.clone()]);
                let lv = not_found(&[desc.clone()]);
                let more = rng.gen::<bool>();
                s.set(answering(move |q| match read_query(q).1 {
                    DQ::FindNode(..) => Some(l.clone()),
                    DQ::FindValue(..) => Some(lv.clone()),
                    _ => None,
                }));
                let sd = DNode::new(&s.me, s.addr, unix_now());
                t.add(sd.clone());
                on_node(|| d.dht.add_dht_peer(sd.tl())).ok();
                let (dht, p) = (d.dht.clone(), sid(&s.me.short));
                let _g = ctx.op("query nodes");
                let mut ok = false;
                for _ in 0..4 {
                    let (dht, p) = (dht.clone(), p);
                    ok = run_node(async move {
                        if more {
                            match dht.query_dht_nodes(&p, 10, false).await {
                                Ok(l) => {
                                    let some = !l.is_empty();
                                    for x in l {
                                        dht.add_dht_peer(x).ok();
                                    }
                                    some
                                }
                                Err(_) => false,
                            }
                        } else {
                            let id = [7u8; 32];
                            matches!(dht.entry(&id, "x").value_from::<proto::rpc::AdnlPing>(&p).await, Ok(None))
                        }
                    })
                    .await
                    .unwrap_or(false);
                    if ok || !good {
                        if d.dht.metrics().known_peers_len >= t.nodes.len() + good as usize {
                            break;
                        }
                    }
                }
                if !ok && good {
                    ctx.inconclusive("a scripted peer was not heard");
                }
                // it must not stay, it would be queried
                n += 1;
            }
        }
        if good {
            t.add(desc);
        } else {
            ctx.count("forged_descriptions", 1);
        }
        ctx.case((kind, how));
        n += 1;
    }
    // itself and repetitions change nothing
    on_node(|| d.dht.add_dht_peer(d.desc().tl())).ok();
    let again: Vec<DNode> = t.nodes.values().take(3).cloned().collect();
    for x in again {
        on_node(|| d.dht.add_dht_peer(x.tl())).ok();
    }
    let known: HashSet<[u8; 32]> = d.dht.iter_known_peers().map(|p| *p.as_slice()).collect();
    let model: HashSet<[u8; 32]> = t.nodes.keys().copied().collect();
    if let Some(x) = known.difference(&model).next() {
        ctx.violation("foreign-node", format!("node {} is known although it was never (validly) introduced", hex(x)));
    }
    if let Some(x) = model.difference(&known).next() {
        ctx.violation("lost-node", format!("a validly introduced node {} is not known", hex(x)));
    }
    let m = d.dht.metrics();
    if m.known_peers_len != model.len() || m.bucket_peer_count != model.len() {
        ctx.violation("table-size", format!("{} nodes introduced, metrics say {} known and {} in buckets", model.len(), m.known_peers_len, m.bucket_peer_count));
    }
    if ctx.violated() {
        return;
    }
    // find node
    let ids: Vec<[u8; 32]> = model.iter().copied().collect();
    for i in 0..40 {
        let mut key = match i % 5 {
            0 => rand32(rng),
            1 => ids[rng.gen_range(0..ids.len())],
            2 => t.local,
            _ => {
                let mut k = t.local;
                for _ in 0..rng.gen_range(1..4) {
                    let bit = rng.gen_range(0..if i % 2 == 0 { 256 } else { 12 });
                    k[bit / 8] ^= 0x80 >> (bit % 8);
                }
                k
            }
        };
        if i % 11 == 10 {
            key = t.local.map(|b| !b);
        }
        let close = t.close(&key);
        let k = match rng.gen_range(0..6) {
            0 => 0,
            1 => 1,
            2 => close.len().saturating_sub(1) as u32,
            3 => close.len() as u32,
            4 => rng.gen_range(1..12),
            _ => [1000, u32::MAX, 10][i % 3],
        };
        let mut q = Vec::new();
        if i == 7 {
            let me = DNode::new(&asker.me, asker.addr, unix_now());
            q = me.prefix();
            if !asker_in {
                t.add(me);
                asker_in = true;
            }
        }
        let close = if i == 7 { t.close(&key) } else { close };
        q.extend(q_find_node(&key, k));
        let Some(a) = asker.ask(q).await else {
            ctx.violation("silent", format!("a find-node request (k = {k}) is not answered"));
            continue;
        };
        let Ok(got) = read_nodes(&a) else {
            ctx.violation("answer", "a find-node answer is not a list of nodes");
            continue;
        };
        ctx.count("find_node_answers", 1);
        let Some(seen) = check_nodes(ctx, &t, &got, "a find-node answer") else { continue };
        if got.len() as u64 > k as u64 {
            ctx.violation("too-many", format!("{} nodes answered to a request of {k}", got.len()));
        }
        let far = got.iter().filter(|n| !close.iter().any(|c| c.1 == n.short())).count();
        if far > 0 {
            ctx.violation("far-node", format!("{far} nodes answered that are not closer to the key than the answering node"));
        }
        if got.len() < close.len().min(k as usize) {
            ctx.violation("missing-node", format!("{} nodes answered to a request of {k} although {} are closer to the key", got.len(), close.len()));
        }
        let worst = close.iter().filter(|c| seen.contains(&c.1)).map(|c| c.0).max();
        let best = close.iter().filter(|c| !seen.contains(&c.1)).map(|c| c.0).min();
        if let (Some(w), Some(b)) = (worst, best) {
            if b < w {
                ctx.violation("order", format!("a node that differs from the answering one at bit {b} was left out for one that differs at bit {w}"));
            }
        }
        ctx.case(("find node", i % 5, k.min(12), got.len().min(12), close.len().min(12)));
    }
    // find value that is not there
    for k in [0, 1, 2, max_k - 1, max_k, max_k + 1, u32::MAX] {
        let q = q_find_value(&rand32(rng), k);
        let a = if k == 0 || k > max_k { asker.query(q, Duration::from_millis(60)).await } else { asker.ask(q).await };
        match a {
            None if k == 0 || k > max_k => {}
            None => ctx.violation("silent", format!("a find-value request (k = {k}) is not answered")),
            Some(_) if k == 0 || k > max_k => ctx.violation("too-many", format!("a find-value request with k = {k} is answered although {max_k} is allowed")),
            Some(a) => match read_find(&a) {
                Ok(Find::Nodes(got)) => {
                    check_nodes(ctx, &t, &got, "a find-value answer");
                    if got.len() != t.nodes.len().min(k as usize) {
                        ctx.violation("value-nodes", format!("{} nodes answered to a find-value request of {k} with {} in the table", got.len(), t.nodes.len()));
                    }
                }
                _ => ctx.violation("answer", "the answer to a find-value request of an unknown key is not a list of nodes"),
            },
        }
        ctx.count("find_value_answers", 1);
        ctx.case(("find value", k, max_k));
    }
    // its own description, pings
    match asker.ask(W::new().u32(id::DHT_GET_ADDR).done()).await {
        Some(a) => {
            let mut r = Rd::new(&a);
            match r.expect(id::DHT_NODE).and_then(|_| DNode::read(&mut r)) {
                Ok(n) => describes(ctx, &d, &n, "answer to a request for it"),
                Err(_) => ctx.violation("own-description", "the answer to a request for the node's own description is none"),
            }
        }
        None => ctx.violation("silent", "a request for the node's own description is not answered"),
    }
    for v in [0u64, 1, rng.gen(), u64::MAX] {
        if asker.ask(W::new().u32(id::DHT_PING).u64(v).done()).await != Some(pong(v)) {
            ctx.violation("ping", "a ping was not answered with its id");
        }
        ctx.case(("ping", v == 0));
    }
}

/// What the node tells about itself: who it is, where it can be reached, since when it runs.
fn describes(ctx: &C, d: &DhtNode, n: &DNode, what: &str) {
    let now = unix_now();
    let wrong = if n.public != d.n.pk(0) {
        "another key"
    } else if !n.valid() {
        "an invalid signature"
    } else if n.addr.addrs != [(u32::from(*d.n.addr().ip()), d.n.addr().port() as u32)] {
        "another address"
    } else if n.addr.expire_at != 0 && n.addr.expire_at <= now {
        "expired addresses"
    } else if n.addr.reinit_date > now || now - n.addr.reinit_date > d.born.elapsed().as_secs() as u32 + 3 {
        "another start time"
    } else if n.version > now || n.version + 2 < n.addr.reinit_date || n.addr.version > now || n.addr.version + 2 < n.addr.reinit_date {
        "an impossible version"
    } else {
        ""
    };
    if !wrong.is_empty() {
        ctx.violation("own-description", format!("the node describes itself ({what}) with {wrong}: {n:?}"));
    }
    ctx.count("own_descriptions", 1);
    ctx.case(("own description", what.len()));
}

/// Queries that introduce their sender again and again.
async fn nested(ctx: &C, rng: &mut SmallRng) {
    let d = DhtNode::start(rng, default_opts(), dht::NodeOptions::default());
    let asker = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
    for (i, depth) in [2usize, 40, 500, 3000, 8000].into_iter().enumerate() {
        let who = Ident::gen(rng);
        let mut desc = DNode::new(&who, far_addr(rng), unix_now());
        match i % 3 {
            1 => desc.sig.clear(),
            2 => desc.sig[7] ^= 4,
            _ => {}
        }
        let inner = W::new().u32(id::DHT_PING).u64(depth as u64).done();
        let mut q = desc.prefix().repeat(depth);
        q.extend(&inner);
        match asker.query(q, Duration::from_millis(if depth > 1000 { 1500 } else { 300 })).await {
            Some(a) if a != pong(depth as u64) => ctx.violation("ping", "a ping was not answered with its id"),
            _ => {}
        }
        if asker.ask(inner).await != Some(pong(depth as u64)) {
            ctx.violation("silent", format!("a ping is not answered after a query with {depth} introductions"));
        }
        ctx.count("repeated_introductions", 1);
        ctx.case(("introductions", depth));
    }
}

/// Series of answered and unanswered requests against the penalty model.
async fn penalties(ctx: &C, rng: &mut SmallRng, round: u64) {
    let threshold = [5usize, 0, 1, 3, 8][round as usize % 5];
    let mut ao = default_opts();
    ao.query_default_timeout_ms = 120;
    ao.query_min_timeout_ms = 100;
    let d = DhtNode::start(rng, ao, dht::NodeOptions { query_timeout_ms: 120, bad_peer_threshold: threshold, ..Default::default() });
    let mut peers: Vec<(Arc<Serve>, Arc<AtomicU8>)> = Vec::new();
    let owner = Ident::gen(rng);
    for _ in 0..4 {
        let s = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
        let mode = Arc::new(AtomicU8::new(0));
        let m = mode.clone();
        let own = DNode::new(&s.me, s.addr, unix_now());
        let value = DValue::signed(&owner, "y", 0, W::new().u32(id::PING).u64(1).done(), unix_now() + 600);
        let vhash = value.key.hash();
        let value = value.found();
        s.set(answering(move |q| match (m.load(Ordering::SeqCst), read_query(q).1) {
            (1, _) => None,
            (2, DQ::Ping(v)) => Some(pong(v ^ 1 << rand_bit(v))),
            (_, DQ::Ping(v)) => Some(pong(v)),
            (_, DQ::FindNode(..)) => Some(nodes(&[own.clone()])),
            (_, DQ::FindValue(k, _)) if k == vhash => Some(value.clone()),
            (_, DQ::FindValue(..)) => Some(not_found(&[])),
            (_, DQ::Store(_)) => Some(stored()),
            _ => None,
        }));
        on_node(|| d.dht.add_dht_peer(DNode::new(&s.me, s.addr, unix_now()).tl())).expect("peer");
        peers.push((Arc::new(s), mode));
    }
    let mut tasks = Vec::new();
    for (s, mode) in &peers {
        let (ctx, dht, s, mode) = (ctx.clone(), d.dht.clone(), s.clone(), mode.clone());
        let owner = owner.clone();
        let mut rng = ctx.rng(rng.gen());
        tasks.push(tokio::spawn(async move {
            let id = sid(&s.me.short);
            let mut p = 0usize;
            let mut bias = true;
            for step in 0..16 {
                let silent = rng.gen_range(0..10) < if bias { 7 } else { 3 };
                if step % 5 == 4 {
                    bias = !bias;
                }
                mode.store(if silent { 1 } else { 0 }, Ordering::SeqCst);
                let how = rng.gen_range(0..4);
                let dht2 = dht.clone();
                let owner = owner.short;
                let _g = ctx.op("dht query");
                let answered = run_node(async move {
                    match how {
                        0 => dht2.ping(&id).await.unwrap_or(false),
                        1 | 2 => dht2.query_dht_nodes(&id, 3, how == 1).await.is_ok_and(|n| !n.is_empty()),
                        _ => matches!(dht2.entry(&owner, "y").value_from::<proto::rpc::AdnlPing>(&id).await, Ok(Some(_))),
                    }
                })
                .await
                .unwrap_or(false);
                if silent && answered {
                    ctx.violation("ping", "a request without answer succeeded");
                }
                // an answer that comes too late is none
                if answered {
                    p = p.saturating_sub(1);
                    ctx.count("answered_steps", 1);
                } else {
                    p += 2;
                    ctx.count("unanswered_steps", 1);
                }
                let bad = dht.is_bad_peer(&id);
                ctx.count("penalty_steps", 1);
                ctx.case(("step", how, answered, p.min(14), threshold));
                if bad != (p > threshold) {
                    ctx.violation(
                        "penalty",
                        format!("after {} steps a node with penalty {p} (threshold {threshold}) is {} (last request {}, kind {how})", step + 1, if bad { "bad" } else { "not bad" }, if answered { "answered" } else { "unanswered" }),
                    );
                    return;
                }
            }
        }));
    }
    for t in tasks {
        t.await.ok();
    }
    if ctx.violated() {
        return;
    }
    for (s, _) in &peers {
        let told: Vec<DNode> = s.log.lock().unwrap().iter().filter_map(|(_, m)| if let Msg::Query { data, .. } = m { read_query(data).0 } else { None }).collect();
        for n in told {
            describes(ctx, &d, &n, "its queries");
            ctx.count("introductions", 1);
        }
    }
    // make one bad: lookups must leave it out, until it has answered often enough
    let (s, mode) = &peers[0];
    let id = sid(&s.me.short);
    mode.store(1, Ordering::SeqCst);
    let mut fails = 0;
    while !d.dht.is_bad_peer(&id) && fails < 30 {
        let dht = d.dht.clone();
        run_node(async move { dht.ping(&id).await.ok() }).await;
        fails += 1;
    }
    if !d.dht.is_bad_peer(&id) {
        ctx.violation("penalty", format!("a node is not bad after {fails} unanswered requests in a row (threshold {threshold})"));
        return;
    }
    mode.store(0, Ordering::SeqCst);
    let finds = |s: &Serve| s.queries(|q| matches!(read_query(q).1, DQ::FindValue(..)));
    for full in [true, false] {
        let before = finds(s);
        let others: Vec<usize> = peers.iter().map(|p| finds(&p.0)).collect();
        let good: Vec<bool> = peers.iter().map(|p| !d.dht.is_bad_peer(&sid(&p.0.me.short))).collect();
        let dht = d.dht.clone();
        let key = rand32(rng);
        let _g = ctx.op("values");
        run_node(async move {
            let v = dht.entry(&key, "z").values::<proto::rpc::AdnlPing>().use_new_peers(true);
            let v = if full { v.use_full_batch() } else { v };
            v.collect::<Vec<_>>().await
        })
        .await;
        s.barrier().await;
        if finds(s) > before {
            ctx.violation("bad-queried", "a lookup asked a node that counts as bad");
        }
        for (i, p) in peers.iter().enumerate() {
            if good[i] && finds(&p.0) == others[i] {
                ctx.violation("good-left-out", "a lookup left out a node that does not count as bad");
            }
        }
        ctx.count("lookups_without_bad", 1);
        ctx.case(("bad left out", full, threshold));
    }
    // it answers again
    let mut oks = 0;
    for _ in 0..60 {
        if !d.dht.is_bad_peer(&id) {
            break;
        }
        let dht = d.dht.clone();
        oks += run_node(async move { dht.ping(&id).await.unwrap_or(false) }).await.unwrap_or(false) as u32;
    }
    if d.dht.is_bad_peer(&id) {
        ctx.violation("penalty", format!("a node still counts as bad after {oks} answered requests"));
        return;
    }
    let before = finds(s);
    for _ in 0..4 {
        let dht = d.dht.clone();
        let key = rand32(rng);
        run_node(async move { dht.entry(&key, "z").values::<proto::rpc::AdnlPing>().use_full_batch().collect::<Vec<_>>().await }).await;
        s.barrier().await;
        if finds(s) > before {
            break;
        }
    }
    if finds(s) == before && !d.dht.is_bad_peer(&id) {
        ctx.violation("good-left-out", "a lookup leaves out a node that answers again");
    }
    // wrong pong, any bit of it
    mode.store(2, Ordering::SeqCst);
    for _ in 0..12 {
        let dht = d.dht.clone();
        if run_node(async move { dht.ping(&id).await.unwrap_or(false) }).await == Some(true) {
            ctx.violation("ping", "a ping answered with another id succeeded");
        }
    }
    ctx.case(("responds again", threshold));
}

/// The ids of pings are random, so is this.
fn rand_bit(v: u64) -> u64 {
    v % 64
}
