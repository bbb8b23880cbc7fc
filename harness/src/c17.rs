//! C17: DHT stores and lookups finish and find what honest nodes hold.
use std::collections::{HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use everscale_network::proto;
use everscale_network::{adnl, dht, overlay};
use futures_util::StreamExt;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::dhtw::*;
use crate::nodes::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one store or lookup in a small network of live nodes and scripted (silent, forgetful, stale) ones; non-trivial because whether it must succeed is computed from who knows and who holds what; distinct by operation, topology, numbers of nodes and silent nodes, and outcome");
    let mut rng = ctx.rng(17);
    let mut round = 0u64;
    while ctx.within(30, 600) && (round < 10 || !ctx.quick()) {
        network(&ctx, &mut rng, round).await;
        silent(&ctx, &mut rng, round).await;
        liars(&ctx, &mut rng, round).await;
        discovery(&ctx, &mut rng).await;
        members(&ctx, &mut rng, round).await;
        everyone(&ctx, &mut rng, round).await;
        round += 1;
    }
    ctx.require("discovery_lookups", 20);
    ctx.require("stores", 30);
    ctx.require("silent_operations", 20);
    ctx.require("member_lookups", 8);
    ctx.require("asked", 60);
    ctx.check_panics("dht stores and lookups");
}

fn opts(timeout: u64) -> (adnl::NodeOptions, dht::NodeOptions) {
    let mut a = default_opts();
    a.query_default_timeout_ms = timeout;
    a.query_min_timeout_ms = timeout.min(500);
    (a, dht::NodeOptions { query_timeout_ms: timeout, bad_peer_threshold: 1000, ..Default::default() })
}

fn node(rng: &mut SmallRng, timeout: u64) -> DhtNode {
    let (a, d) = opts(timeout);
    DhtNode::start(rng, a, d)
}

fn know(a: &DhtNode, b: &DhtNode) {
    on_node(|| a.dht.add_dht_peer(b.desc().tl())).expect("add peer");
}

/// Everything that can be reached by asking.
fn reach(knows: &[HashSet<usize>], from: &[usize]) -> HashSet<usize> {
    let mut seen: HashSet<usize> = from.iter().copied().collect();
    let mut todo = from.to_vec();
    while let Some(x) = todo.pop() {
        for &y in &knows[x] {
            if seen.insert(y) {
                todo.push(y);
            }
        }
    }
    seen
}

async fn network(ctx: &C, rng: &mut SmallRng, round: u64) {
    let n = rng.gen_range(2..7usize);
    let nodes: Vec<DhtNode> = (0..n).map(|_| node(rng, 2000)).collect();
    let mut knows: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    let shape = ["chain", "star", "mesh", "random", "ring"][round as usize % 5];
    for i in 0..n {
        for j in 0..n {
            let k = match shape {
                "chain" => j == i + 1,
                "star" => i == 0 || j == 0,
                "mesh" => true,
                "ring" => j == (i + 1) % n,
                _ => rng.gen_range(0..3) == 0,
            };
            if k && i != j {
                know(&nodes[i], &nodes[j]);
                knows[i].insert(j);
            }
        }
    }
    // stores
    for s in 0..2 {
        let storer = if shape == "chain" && s == 0 { n.saturating_sub(2) } else { rng.gen_range(0..n) };
        let tag: u64 = rng.gen();
        let owner = Ident::gen(rng);
        let key = adnl_key(&owner);
        let name = ["thing", "address", "q"][s];
        let locally = rng.gen_range(0..5) == 0;
        let has_peers = !knows[storer].is_empty();
        let mut result = None;
        for _ in 0..3 {
            let (dht, key) = (nodes[storer].dht.clone(), key.clone());
            let _g = ctx.op("store");
            result = run_node(async move {
                let s = dht.entry(key.id(), name).with_data(proto::rpc::AdnlPing { value: tag }).with_ttl(600).sign_and_store(&key)?;
                if locally {
                    s.only_locally();
                    return Ok(true);
                }
                s.then_check(|_, v: proto::rpc::AdnlPing| Ok(v.value == tag)).await
            })
            .await;
            if matches!(result, Some(Ok(true))) || !has_peers {
                break;
            }
        }
        ctx.count("stores", 1);
        match &result {
            Some(Ok(true)) if has_peers || locally => {}
            Some(Ok(true)) => ctx.violation("store-success", "a store of a node without peers reports success"),
            Some(Ok(false)) if !has_peers => {}
            other => ctx.violation("store-failed", format!("a store with {} responsive nodes failed: {other:?} ({shape} of {n})", knows[storer].len())),
        }
        ctx.case(("store", shape, n, knows[storer].len(), locally));
        let mut holders: HashSet<usize> = HashSet::from([storer]);
        if !locally {
            holders.extend(knows[storer].iter());
        }
        // lookups by newcomers
        for z in 0..3 {
            let entry = if shape == "chain" && z == 0 { 0 } else { rng.gen_range(0..n) };
            let entries: Vec<usize> = if z == 2 && n > 2 { vec![entry, (entry + 1) % n] } else { vec![entry] };
            let can = !reach(&knows, &entries).is_disjoint(&holders);
            let direct = entries.iter().any(|e| holders.contains(e));
            let full = rng.gen::<bool>();
            let mut found = false;
            let mut lied = false;
            for _ in 0..3 {
                let newcomer = node(rng, 2000);
                for e in &entries {
                    know(&newcomer, &nodes[*e]);
                }
                let (dht, id) = (newcomer.dht.clone(), owner.short);
                let _g = ctx.op("values");
                let got = run_node(async move {
                    let v = dht.entry(&id, name).values::<proto::rpc::AdnlPing>().use_new_peers(true);
                    let v = if full { v.use_full_batch() } else { v };
                    v.map(|x| x.1.value).collect::<Vec<_>>().await
                })
                .await
                .unwrap_or_default();
                found = got.contains(&tag);
                lied = got.iter().any(|t| *t != tag);
                if found || !can {
                    break;
                }
            }
            ctx.count("discovery_lookups", 1);
            if found && !can {
                ctx.count("found_beyond_model", 1);
            }
            if can && !found {
                ctx.violation("not-found", format!("a lookup through nodes {entries:?} of a {shape} of {n} did not find the value held by {holders:?} (who knows whom: {knows:?}, full batch: {full})"));
            }
            if lied {
                ctx.violation("wrong-value", "a lookup returned a value never stored");
            }
            ctx.case(("lookup", shape, n, can, direct, full, found));
            if direct {
                // without discovery
                let newcomer = node(rng, 2000);
                for e in &entries {
                    know(&newcomer, &nodes[*e]);
                }
                let mut found = false;
                for _ in 0..3 {
                    let (dht, id) = (newcomer.dht.clone(), owner.short);
                    found = run_node(async move { dht.entry(&id, name).values::<proto::rpc::AdnlPing>().next().await.map(|x| x.1.value) }).await.flatten() == Some(tag);
                    if found {
                        break;
                    }
                }
                if !found {
                    ctx.violation("not-found", "a plain lookup did not find the value held by a known node");
                }
            }
        }
    }
    // an address stored by its owner is found by the others
    let owner = rng.gen_range(0..n);
    if !knows[owner].is_empty() {
        let real = SocketAddrV4::new(Ipv4Addr::new(10, 9, 8, 7), rng.gen_range(1..60000));
        let key = on_node(|| nodes[owner].n.adnl.key_by_tag(0).unwrap().clone());
        let mut ok = None;
        for _ in 0..3 {
            let (dht, key) = (nodes[owner].dht.clone(), key.clone());
            let _g = ctx.op("store_address");
            ok = run_node(async move { dht.store_address(&key, real).await.ok() }).await.flatten();
            if ok == Some(true) {
                break;
            }
        }
        ctx.count("stores", 1);
        if ok != Some(true) {
            ctx.violation("store-failed", format!("store_address with {} responsive nodes: {ok:?}", knows[owner].len()));
        }
        for j in knows[owner].clone() {
            let newcomer = node(rng, 2000);
            know(&newcomer, &nodes[j]);
            let mut got = None;
            for _ in 0..3 {
                let (dht, id) = (newcomer.dht.clone(), sid(&nodes[owner].short()));
                let _g = ctx.op("find_address");
                got = run_node(async move { dht.find_address(&id).await.ok().map(|a| a.0) }).await.flatten();
                if got.is_some() {
                    break;
                }
            }
            if got != Some(real) {
                ctx.violation("not-found", format!("find_address through a holder: {got:?} instead of {real}"));
            }
            ctx.case(("find_address", n, shape));
        }
    }
}

fn adnl_key(me: &Ident) -> Arc<adnl::Key> {
    keystore(std::slice::from_ref(me)).key_by_tag(0).unwrap().clone()
}

/// What scripted peers do with stores and lookups.
struct Mem {
    values: Mutex<HashMap<[u8; 32], Vec<u8>>>,
}

async fn peer(rng: &mut SmallRng, d: &DhtNode, kind: &'static str, mem: Arc<Mem>) -> Serve {
    let me = Ident::gen(rng);
    let s = Serve::with_ident(me, rng, d.n.addr(), d.n.pk(0)).await;
    s.set(answering(move |q| {
        let q = read_query(q).1;
        match (kind, q) {
            ("silent", _) => None,
            ("garbage", _) => Some(vec![1, 2, 3, 4, 5, 6, 7, 8]),
            ("silent later", DQ::Store(_)) => Some(stored()),
            ("silent later", _) => None,
            ("honest", DQ::Store(v)) => {
                mem.values.lock().unwrap().insert(v.key.hash(), v.found());
                Some(stored())
            }
            ("no ack", DQ::Store(v)) => {
                mem.values.lock().unwrap().insert(v.key.hash(), v.found());
                None
            }
            (_, DQ::Store(_)) => Some(stored()),
            ("forgetful", DQ::FindValue(..)) => Some(not_found(&[])),
            (_, DQ::FindValue(k, _)) => Some(mem.values.lock().unwrap().get(&k).cloned().unwrap_or_else(|| not_found(&[]))),
            (_, DQ::FindNode(..)) => Some(nodes(&[])),
            (_, DQ::Ping(v)) => Some(pong(v)),
            _ => None,
        }
    }));
    on_node(|| d.dht.add_dht_peer(DNode::new(&s.me, s.addr, unix_now()).tl())).expect("add peer");
    s
}

/// Every call ends even though nodes are silent; what a live known node holds is found.
async fn silent(ctx: &C, rng: &mut SmallRng, round: u64) {
    let timeout = 250;
    let d = node(rng, timeout);
    let mem = Arc::new(Mem { values: Default::default() });
    let mut peers = Vec::new();
    let quiet = [7, 0, 3, 16, 1][round as usize % 5];
    for i in 0..quiet {
        peers.push(peer(rng, &d, ["silent", "silent later", "garbage"][i % 3], mem.clone()).await);
    }
    let live = round % 2 == 0 || quiet == 0;
    if live {
        peers.push(peer(rng, &d, if round % 4 == 2 { "no ack" } else { "honest" }, mem.clone()).await);
    }
    let owner = Ident::gen(rng);
    let key = adnl_key(&owner);
    let batches = (quiet + 1).div_ceil(5) as u32 + 1;
    let bound = Duration::from_millis(timeout) * (batches * 2 + 2) * 3 + Duration::from_secs(8);
    let tag: u64 = rng.gen();
    let mut found = (false, false, false);
    for op in 0..7 {
        let name = ["store", "values", "values full", "find_address", "find_overlay_nodes", "find_more", "store_overlay_node"][op];
        let mut done = false;
        let mut good = false;
        for _ in 0..3 {
            let (dht, key, id) = (d.dht.clone(), key.clone(), owner.short);
            let ov = overlay::IdFull::for_workchain_overlay(0, &rand32(rng));
            let me = ONode::new(&Ident::gen(rng), *ov.compute_short_id().as_slice(), 5);
            let start = Instant::now();
            let _g = ctx.op(name);
            let r = run_node(async move {
                tokio::time::timeout(bound, async move {
                    match op {
                        0 => {
                            let s = dht.entry(key.id(), "v").with_data(proto::rpc::AdnlPing { value: tag }).with_ttl(600).sign_and_store(&key).unwrap();
                            s.then_check(|_, v: proto::rpc::AdnlPing| Ok(v.value == tag)).await.unwrap_or(false)
                        }
                        1 => dht.entry(&id, "v").values::<proto::rpc::AdnlPing>().use_new_peers(true).collect::<Vec<_>>().await.iter().any(|v| v.1.value == tag),
                        2 => dht.entry(&id, "v").values::<proto::rpc::AdnlPing>().use_full_batch().collect::<Vec<_>>().await.iter().any(|v| v.1.value == tag),
                        3 => dht.find_address(&sid(&id)).await.is_ok(),
                        4 => dht.find_overlay_nodes(&overlay::IdShort::new(id)).await.is_ok_and(|v| !v.is_empty()),
                        5 => dht.find_more_dht_nodes().await.is_ok(),
                        _ => {
                            let raw = me.write(W::new());
                            let n: proto::overlay::Node = tl_proto::deserialize(&raw.0).unwrap();
                            dht.store_overlay_node(&ov, n).await.unwrap_or(false)
                        }
                    }
                })
                .await
            })
            .await;
            match r {
                None => {}
                Some(Err(_)) => {
                    ctx.violation("never-ends", format!("{name} did not end in {:?} with {quiet} silent nodes (query timeout {timeout} ms)", start.elapsed()));
                    return;
                }
                Some(Ok(g)) => {
                    done = true;
                    good = g;
                }
            }
            if good || !live || (3..5).contains(&op) {
                break;
            }
        }
        if !done {
            ctx.violation("never-ends", format!("{name} panicked"));
        }
        ctx.count("silent_operations", 1);
        ctx.case((name, quiet, live, good));
        match op {
            0 => found.0 = good,
            1 => found.1 = good,
            2 => found.2 = good,
            3 | 4 if good => ctx.violation("wrong-value", format!("{name} found something never stored")),
            6 if good && !live => ctx.violation("store-success", "store_overlay_node reports success though no node holds the value"),
            6 if !good && live && quiet < 5 => ctx.violation("store-failed", "store_overlay_node reports no success though a known node keeps the value"),
            _ => {}
        }
    }
    if live && !found.2 {
        ctx.violation("not-found", format!("a full lookup did not find the value held by a live node among {quiet} silent ones"));
    }
    if live && quiet < 5 && !(found.0 && found.1) {
        ctx.violation("not-found", format!("store: {}, lookup: {} with a live node among {quiet} silent ones", found.0, found.1));
    }
    if !live && (found.0 || found.1 || found.2) {
        ctx.violation("store-success", "a store or lookup succeeded though no other node holds the value");
    }
}

/// A store reports success only if the value can be found.
async fn liars(ctx: &C, rng: &mut SmallRng, round: u64) {
    let d = node(rng, 600);
    let mem = Arc::new(Mem { values: Default::default() });
    // those which are stale have a memory of their own
    let past = Arc::new(Mem { values: Default::default() });
    let kind = ["forgetful", "stale", "honest", "mixed", "partly stale"][round as usize % 5];
    let mut peers = Vec::new();
    for i in 0..rng.gen_range(1..5) + (kind == "partly stale") as usize {
        let k = match kind {
            "partly stale" if i == 0 => "honest",
            "partly stale" => "stale",
            "mixed" if i == 0 => "honest",
            "mixed" => "forgetful",
            k => k,
        };
        peers.push(peer(rng, &d, k, if k == "stale" { past.clone() } else { mem.clone() }).await);
    }
    let owner = Ident::gen(rng);
    let key = adnl_key(&owner);
    let real = SocketAddrV4::new(Ipv4Addr::new(10, 3, 4, 5), 4444);
    // what was stored earlier may differ in a detail only
    let before: SocketAddrV4 = [
        SocketAddrV4::new(Ipv4Addr::new(10, 1, 1, 1), 11),
        SocketAddrV4::new(*real.ip(), real.port() + 1),
        SocketAddrV4::new(Ipv4Addr::new(10, 3, 4, 6), real.port()),
        SocketAddrV4::new(*real.ip(), real.port() ^ 0x100),
    ][rng.gen_range(0..4)];
    let old = DValue::signed(&owner, "address", 0, AddrList::one(before, unix_now() - 100).write(W::new().u32(id::ADDR_LIST)).done(), unix_now() + 5000);
    let ov = overlay::IdFull::for_workchain_overlay(round as i32, &rand32(rng));
    let ov_short = *ov.compute_short_id().as_slice();
    let me = ONode::new(&owner, ov_short, 5);
    let other = match rng.gen_range(0..3) {
        0 => ONode::new(&Ident::gen(rng), ov_short, 5),
        1 => ONode::new(&owner, ov_short, 4),
        _ => ONode::new(&owner, ov_short, 6),
    };
    let old_nodes = DValue::overlay(ov.as_slice(), &[other], unix_now() + 5000);
    if matches!(kind, "stale" | "partly stale") {
        let mut m = past.values.lock().unwrap();
        m.insert(old.key.hash(), old.found());
        m.insert(old_nodes.key.hash(), old_nodes.found());
    }
    let expect = matches!(kind, "honest" | "mixed" | "partly stale");
    for call in ["store_address", "store_overlay_node"] {
        let mut r = None;
        for _ in 0..3 {
            let (dht, key, me) = (d.dht.clone(), key.clone(), me.clone());
            let _g = ctx.op(call);
            r = run_node(async move {
                if call == "store_address" {
                    dht.store_address(&key, real).await
                } else {
                    let raw = me.write(W::new());
                    let n: proto::overlay::Node = tl_proto::deserialize(&raw.0).unwrap();
                    dht.store_overlay_node(&ov, n).await
                }
            })
            .await;
            if !expect || matches!(r, Some(Ok(true))) {
                break;
            }
        }
        ctx.count("stores", 1);
        match &r {
            Some(Ok(true)) if !expect => ctx.violation("store-success", format!("{call} reports success though the value is not found on any node ({kind})")),
            Some(Ok(true)) => {}
            other if expect => ctx.violation("store-failed", format!("{call}: {other:?} though a node holds the value ({kind})")),
            _ => {}
        }
        ctx.case((call, kind, peers.len(), matches!(r, Some(Ok(true)))));
    }
}

/// `find_more_dht_nodes` learns every valid node, whatever else peers tell.
async fn discovery(ctx: &C, rng: &mut SmallRng) {
    let d = node(rng, 800);
    let mut valid = HashSet::new();
    let mut peers = Vec::new();
    let mut tricks = Vec::new();
    for _ in 0..rng.gen_range(1..4) {
        let mut list = Vec::new();
        for _ in 0..rng.gen_range(1..6) {
            let who = Ident::gen(rng);
            let mut n = DNode::new(&who, SocketAddrV4::new(Ipv4Addr::new(10, 8, rng.gen(), rng.gen()), 4000), unix_now());
            match rng.gen_range(0..6) {
                0 => {
                    n.sig[1] ^= 1;
                    tricks.push("signature");
                }
                1 => {
                    n.addr.addrs.clear();
                    n.resign(&who);
                    tricks.push("no address");
                }
                2 => {
                    n.addr.expire_at = unix_now() - 100;
                    n.resign(&who);
                    tricks.push("expired");
                }
                _ => {
                    valid.insert(who.short);
                }
            }
            list.push(n);
        }
        list.shuffle(rng);
        let me = Ident::gen(rng);
        let s = Serve::with_ident(me, rng, d.n.addr(), d.n.pk(0)).await;
        let answer = nodes(&list);
        s.set(answering(move |q| match read_query(q).1 {
            DQ::FindNode(..) => Some(answer.clone()),
            _ => None,
        }));
        on_node(|| d.dht.add_dht_peer(DNode::new(&s.me, s.addr, unix_now()).tl())).expect("add peer");
        valid.insert(s.me.short);
        peers.push(s);
    }
    let mut known = HashSet::new();
    for _ in 0..3 {
        let dht = d.dht.clone();
        let _g = ctx.op("find_more_dht_nodes");
        run_node(async move { dht.find_more_dht_nodes().await.ok() }).await;
        known = d.dht.iter_known_peers().map(|p| *p.as_slice()).collect::<HashSet<_>>();
        if known == valid {
            break;
        }
    }
    if valid.difference(&known).next().is_some() {
        ctx.violation("not-discovered", format!("{} of {} valid nodes told by peers are known; peers also told bad ones: {tricks:?}", known.intersection(&valid).count(), valid.len()));
    }
    if known.difference(&valid).next().is_some() {
        ctx.violation("forged-node", "a forged node is known");
    }
    for t in &tricks {
        ctx.case(("find_more", *t, peers.len()));
    }
    ctx.count("node_discoveries", 1);
}

/// Overlay member lookups end, with every member whose address can be found.
async fn members(ctx: &C, rng: &mut SmallRng, round: u64) {
    let d = node(rng, 400);
    let full = overlay::IdFull::for_workchain_overlay(0, &rand32(rng));
    let short = *full.compute_short_id().as_slice();
    let count = rng.gen_range(1..4usize);
    let with = match round % 3 {
        0 => 0,
        1 => 1,
        _ => count,
    }
    .min(count);
    let ids: Vec<Ident> = (0..count).map(|_| Ident::gen(rng)).collect();
    let list: Vec<ONode> = ids.iter().map(|i| ONode::new(i, short, 3)).collect();
    let ttl = unix_now() + 600;
    let mem = Arc::new(Mem { values: Default::default() });
    {
        let mut m = mem.values.lock().unwrap();
        let v = DValue::overlay(full.as_slice(), &list, ttl);
        m.insert(v.key.hash(), v.found());
        for (i, who) in ids.iter().enumerate().take(with) {
            let v = DValue::signed(who, "address", 0, AddrList::one(SocketAddrV4::new(Ipv4Addr::new(10, 4, 4, i as u8 + 1), 99), unix_now()).write(W::new().u32(id::ADDR_LIST)).done(), ttl);
            m.insert(v.key.hash(), v.found());
        }
    }
    let mut peers = Vec::new();
    for i in 0..rng.gen_range(1..4) {
        let kind = if i == 0 { "honest" } else { ["silent", "honest", "forgetful"][rng.gen_range(0..3)] };
        peers.push(peer(rng, &d, kind, mem.clone()).await);
    }
    let bound = Duration::from_secs(12);
    let mut got: Option<HashSet<SocketAddrV4>> = None;
    for _ in 0..3 {
        let dht = d.dht.clone();
        let _g = ctx.op("find_overlay_nodes");
        let r = run_node(async move { tokio::time::timeout(bound, dht.find_overlay_nodes(&overlay::IdShort::new(short))).await }).await;
        match r {
            Some(Err(_)) => {
                ctx.violation("never-ends", format!("find_overlay_nodes did not end in {bound:?}: {count} members, {with} of them with an address"));
                return;
            }
            Some(Ok(Ok(v))) => got = Some(v.iter().map(|x| x.0).collect()),
            _ => {}
        }
        if got.as_ref().is_some_and(|g| g.len() == with) {
            break;
        }
    }
    ctx.count("member_lookups", 1);
    match &got {
        Some(g) if g.len() == with => {}
        other => ctx.violation("not-found", format!("find_overlay_nodes found {:?} of {with} members with an address", other.as_ref().map(|g| g.len()))),
    }
    ctx.case(("find_overlay_nodes", count, with, peers.len()));
}

/// A full lookup asks every known node, a plain one at least the nodes closest to the key and as many as a batch has.
async fn everyone(ctx: &C, rng: &mut SmallRng, round: u64) {
    let n = [6, 7, 9, 12, 17, 25, 5, 1, 8, 31][round as usize % 10];
    let batch = if round % 2 == 0 { dht::NodeOptions::default().default_value_batch_len } else { [1, 2, 9, 14, 30][rng.gen_range(0..5)] };
    let d = DhtNode::start(rng, default_opts(), dht::NodeOptions { query_timeout_ms: 2000, default_value_batch_len: batch, ..Default::default() });
    let mut peers = Vec::new();
    for i in 0..n {
        let s = Serve::with_ident(Ident::gen(rng), rng, d.n.addr(), d.n.pk(0)).await;
        s.set(move |m| {
            let Msg::Query { id, data } = m else { return vec![] };
            if !matches!(read_query(data).1, DQ::FindValue(..)) {
                return vec![];
            }
            // answers come in any order
            vec![(Duration::from_millis((i * 7 % 5) as u64), Msg::Answer { id: *id, data: not_found(&[]) })]
        });
        on_node(|| d.dht.add_dht_peer(DNode::new(&s.me, s.addr, unix_now()).tl())).expect("add peer");
        peers.push(s);
    }
    for full in [true, false, true] {
        let id = rand32(rng);
        let key = DKey::new(id, "v", 0).hash();
        let best = peers.iter().map(|s| affinity(&key, &s.me.short)).max().unwrap();
        let mut missing = Vec::new();
        // a query may get lost
        for _ in 0..3 {
            let dht = d.dht.clone();
            let _g = ctx.op("values");
            run_node(async move {
                let v = dht.entry(&id, "v").values::<proto::rpc::AdnlPing>();
                let v = if full { v.use_full_batch() } else { v };
                v.count().await
            })
            .await;
            let asked: Vec<bool> = peers.iter().map(|s| s.queries(|q| matches!(read_query(q).1, DQ::FindValue(k, _) if k == key)) > 0).collect();
            missing = peers
                .iter()
                .enumerate()
                .filter(|(i, s)| !asked[*i] && (full || affinity(&key, &s.me.short) == best))
                .map(|(i, s)| (i, affinity(&key, &s.me.short)))
                .collect();
            let few = asked.iter().filter(|a| **a).count();
            if few < n.min(batch) {
                missing.push((few, 1000));
            }
            if missing.is_empty() {
                break;
            }
        }
        ctx.count("asked", n as u64);
        ctx.case(("everyone", n, full, batch));
        if !missing.is_empty() {
            ctx.violation(
                "not-asked",
                format!("a {} lookup among {n} known responsive nodes does not ask (number, affinity) {missing:?}; the closest has affinity {best}", if full { "full" } else { "plain" }),
            );
            return;
        }
    }
}
