//! C15: DHT lookups return only authentic values for the requested key.
use std::collections::{HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::Arc;
use std::time::Duration;

use everscale_network::adnl::NodeIdShort;
use everscale_network::proto;
use everscale_network::{dht, overlay};
use futures_util::StreamExt;
use rand::rngs::SmallRng;
use rand::Rng;

use crate::dhtw::*;
use crate::nodes::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one answer given by a queried node to a lookup of a live node, together with what the lookup returned; non-trivial because answers of the other nodes of the same lookup are forged in other ways; distinct by the kind of answer, the lookup call and its result");
    let mut rng = ctx.rng(15);
    let mut round = 0;
    while ctx.within(30, 600) && (round < 45 || !ctx.quick()) {
        values(&ctx, &mut rng, round).await;
        addresses(&ctx, &mut rng).await;
        members(&ctx, &mut rng, round).await;
        round += 1;
    }
    ctx.require("forged_answers", 200);
    ctx.require("authentic_answers", 60);
    ctx.require("returned_values", 60);
    ctx.require("address_lookups", 20);
    ctx.require("member_lookups", 15);
    ctx.check_panics("dht lookups");
}

const KINDS: [&str; 27] = [
    "authentic", "authentic late", "authentic other expiry", "unsigned value", "unsigned key", "signed by another", "value signed by another",
    "other name", "other index", "value of another owner", "own value under this key", "own description, foreign id", "expired", "expires now", "changed value", "changed expiry",
    "anybody rule unsigned", "anybody rule of another", "overlay rule", "members list", "not found", "not found with forged nodes", "garbage", "empty", "wrong type", "silent", "truncated",
];

fn setup_opts() -> (everscale_network::adnl::NodeOptions, dht::NodeOptions) {
    let mut a = default_opts();
    a.query_default_timeout_ms = 600;
    (a, dht::NodeOptions { query_timeout_ms: 600, bad_peer_threshold: 1000, ..Default::default() })
}

/// What a peer answers when asked for `key` of `owner`.
fn answer(rng: &mut SmallRng, kind: &str, owner: &Ident, evil: &Ident, key: &DKey, good: &[u8], bad: &[u8], ttl: u32, nodes: &[DNode]) -> Option<Vec<u8>> {
    let name = String::from_utf8(key.name.clone()).unwrap();
    let mut v = DValue::signed(owner, &name, key.idx, bad.to_vec(), ttl);
    let v = match kind {
        "authentic" | "authentic late" => DValue::signed(owner, &name, key.idx, good.to_vec(), ttl),
        "authentic other expiry" => DValue::signed(owner, &name, key.idx, good.to_vec(), ttl + 77),
        "unsigned value" => {
            v.sig = vec![];
            v
        }
        "unsigned key" => {
            v.key_sig = vec![];
            v.sign_value(evil);
            v
        }
        "signed by another" => {
            v.resign(evil);
            v
        }
        "value signed by another" => {
            v.sign_value(evil);
            v
        }
        "other name" => DValue::signed(owner, if name == "address" { "nodes" } else { "address" }, key.idx, bad.to_vec(), ttl),
        "other index" => DValue::signed(owner, &name, key.idx ^ 1, bad.to_vec(), ttl),
        "value of another owner" => DValue::signed(evil, &name, key.idx, bad.to_vec(), ttl),
        "own value under this key" => {
            v.pk = Pk::Ed(evil.public);
            v.resign(evil);
            v
        }
        "own description, foreign id" => {
            v.pk = Pk::Ed(evil.public);
            v.key.id = evil.short;
            v.resign(evil);
            v.key.id = owner.short;
            v
        }
        "expired" => DValue::signed(owner, &name, key.idx, bad.to_vec(), unix_now() - rng.gen_range(1..1000)),
        "expires now" => DValue::signed(owner, &name, key.idx, bad.to_vec(), unix_now() - 1),
        "changed value" => {
            let i = rng.gen_range(0..v.value.len());
            v.value = good.to_vec();
            v.resign(owner);
            v.value = bad.to_vec();
            let _ = i;
            v
        }
        "changed expiry" => {
            v.ttl += 1;
            v
        }
        "anybody rule unsigned" => {
            v.rule = id::DHT_RULE_ANYBODY;
            v.key_sig = vec![];
            v.sig = vec![];
            v
        }
        "anybody rule of another" => {
            v.rule = id::DHT_RULE_ANYBODY;
            v.resign(evil);
            v
        }
        "overlay rule" => {
            v.rule = id::DHT_RULE_OVERLAY;
            v.key_sig = vec![];
            v.sig = vec![];
            v
        }
        "members list" => {
            let mut o = DValue::overlay(&owner.short, &[ONode::new(evil, Pk::Overlay(owner.short.to_vec()).short(), 1)], ttl);
            o.value = bad.to_vec();
            o.key = key.clone();
            o
        }
        "not found" => return Some(not_found(&[])),
        "not found with forged nodes" => return Some(not_found(nodes)),
        "garbage" => return Some(rand_bytes(rng, 90)),
        "empty" => return Some(vec![]),
        "wrong type" => return Some(W::new().u32(id::PONG).u64(3).done()),
        "truncated" => {
            let mut a = DValue::signed(owner, &name, key.idx, bad.to_vec(), ttl).found();
            a.truncate(a.len() - 8);
            return Some(a);
        }
        _ => return None,
    };
    Some(v.found())
}

fn is_good(kind: &str) -> bool {
    kind.starts_with("authentic")
}

/// A peer of `d` that answers find-value requests for `key` with `a`.
async fn holder(rng: &mut SmallRng, d: &DhtNode, me: Ident, key: [u8; 32], late: bool, a: Option<Vec<u8>>) -> Serve {
    let s = Serve::with_ident(me, rng, d.n.addr(), d.n.pk(0)).await;
    let desc = DNode::new(&s.me, s.addr, unix_now());
    s.set(move |m| match m {
        Msg::Query { id, data } => match read_query(data).1 {
            DQ::FindValue(k, _) if k == key => match &a {
                Some(a) => vec![(Duration::from_millis(if late { 250 } else { 0 }), Msg::Answer { id: *id, data: a.clone() })],
                None => vec![],
            },
            DQ::FindValue(..) => vec![(Duration::ZERO, Msg::Answer { id: *id, data: not_found(&[]) })],
            DQ::Ping(v) => vec![(Duration::ZERO, Msg::Answer { id: *id, data: pong(v) })],
            DQ::Store(_) => vec![(Duration::ZERO, Msg::Answer { id: *id, data: stored() })],
            _ => vec![],
        },
        _ => vec![],
    });
    on_node(|| d.dht.add_dht_peer(desc.tl())).expect("add peer");
    s
}

/// Descriptions of DHT nodes that must not get in.
fn forged_nodes(rng: &mut SmallRng) -> Vec<DNode> {
    let addr: SocketAddrV4 = "127.0.0.1:4444".parse().unwrap();
    let (a, b) = (Ident::gen(rng), Ident::gen(rng));
    let mut x = DNode::new(&a, addr, unix_now());
    x.sig[5] ^= 1;
    let mut y = DNode::new(&b, addr, unix_now());
    y.resign(&a);
    vec![x, y]
}

async fn values(ctx: &C, rng: &mut SmallRng, round: u64) {
    let (ao, dop) = setup_opts();
    let d = DhtNode::start(rng, ao, dop);
    let (owner, evil) = (Ident::gen(rng), Ident::gen(rng));
    let key = DKey::new(owner.short, ["address", "nodes", "some thing"][round as usize % 3], (round % 2) as u32);
    let hash = key.hash();
    let ttl = unix_now() + 600;
    let count = rng.gen_range(3..7usize);
    let mut peers: Vec<(Serve, &str, u64)> = Vec::new();
    let mut good = HashSet::new();
    for i in 0..count {
        let kind = if i == 0 { KINDS[rng.gen_range(0..3)] } else { KINDS[(round as usize * 5 + i * 7 + rng.gen_range(0..KINDS.len())) % KINDS.len()] };
        let tag: u64 = rng.gen();
        let body = W::new().u32(id::PING).u64(tag).done();
        let lie = W::new().u32(id::PING).u64(!tag).done();
        if is_good(kind) {
            good.insert(tag);
        }
        let fake = forged_nodes(rng);
        let a = answer(rng, kind, &owner, &evil, &key, &body, &lie, ttl, &fake);
        let me = Ident::gen(rng);
        let s = holder(rng, &d, me, hash, kind == "authentic late", a).await;
        ctx.count(if is_good(kind) { "authentic_answers" } else { "forged_answers" }, 1);
        peers.push((s, kind, tag));
    }
    // one by one
    for (s, kind, tag) in &peers {
        let (dht, peer, own, name, idx) = (d.dht.clone(), sid(&s.me.short), owner.short, String::from_utf8(key.name.clone()).unwrap(), key.idx);
        let mut res = None;
        for _ in 0..4 {
            let (dht, name) = (dht.clone(), name.clone());
            let _g = ctx.op("value_from");
            res = run_node(async move { dht.entry(&own, &name).with_key_index(idx).value_from::<proto::rpc::AdnlPing>(&peer).await }).await;
            if !is_good(kind) || matches!(res, Some(Ok(Some(_)))) {
                break;
            }
        }
        let what = match res {
            Some(Ok(Some((k, v)))) => {
                ctx.count("returned_values", 1);
                if !is_good(kind) || v.value != *tag || k.key.id != key.id || k.key.name != key.name || k.key.idx != key.idx {
                    ctx.violation("forged-value", format!("value_from returned the answer of a node that answers '{kind}'"));
                }
                "value"
            }
            Some(Ok(None)) | Some(Err(_)) if is_good(kind) => {
                ctx.violation("authentic-lost", "value_from did not return the authentic value of a node");
                "lost"
            }
            Some(Ok(None)) => "nothing",
            Some(Err(_)) => "error",
            None => "panic",
        };
        ctx.case((*kind, "value_from", what));
    }
    // all at once
    let (dht, own, name, idx) = (d.dht.clone(), owner.short, String::from_utf8(key.name.clone()).unwrap(), key.idx);
    let full = round % 2 == 0;
    let res = {
        let _g = ctx.op("values");
        run_node(async move {
            let s = dht.entry(&own, &name).with_key_index(idx).values::<proto::rpc::AdnlPing>().use_new_peers(true);
            let s = if full { s.use_full_batch() } else { s };
            s.collect::<Vec<_>>().await
        })
        .await
        .unwrap_or_default()
    };
    for (k, v) in &res {
        ctx.count("returned_values", 1);
        if !good.contains(&v.value) || k.key.id != key.id || k.key.name != key.name || k.key.idx != key.idx {
            let kind = peers.iter().find(|p| !p.2 == v.value).map(|p| p.1).unwrap_or("?");
            ctx.violation("forged-value", format!("a lookup returned the value of a node that answers '{kind}'"));
        }
    }
    let got: HashSet<u64> = res.iter().map(|(_, v)| v.value).collect();
    if (full || count <= 5) && !good.iter().all(|t| got.contains(t)) {
        let kinds: Vec<&str> = peers.iter().map(|p| p.1).collect();
        ctx.violation("authentic-lost", format!("a lookup returned {} of {} authentic values; the nodes answer {kinds:?}", got.len(), good.len()));
    }
    let known: HashSet<[u8; 32]> = d.dht.iter_known_peers().map(|p| *p.as_slice()).collect();
    if known.len() != peers.len() || peers.iter().any(|p| !known.contains(&p.0.me.short)) {
        ctx.violation("forged-node", "a lookup made the node know a forged node");
    }
    for p in &peers {
        ctx.case((p.1, "values", full, res.len()));
    }
}

fn addr_list(list: &AddrList) -> Vec<u8> {
    list.write(W::new().u32(id::ADDR_LIST)).done()
}

async fn addresses(ctx: &C, rng: &mut SmallRng) {
    let (ao, dop) = setup_opts();
    let d = DhtNode::start(rng, ao, dop);
    let (owner, evil) = (Ident::gen(rng), Ident::gen(rng));
    let key = DKey::new(owner.short, "address", 0);
    let ttl = unix_now() + 600;
    let real = SocketAddrV4::new(Ipv4Addr::new(10, 1, 2, rng.gen_range(1..250)), rng.gen_range(1000..60000));
    let fake = SocketAddrV4::new(Ipv4Addr::new(10, 6, 6, 6), 666);
    let with = rng.gen_range(0..3) > 0;
    let count = rng.gen_range(1..6usize);
    let mut peers = Vec::new();
    let mut kinds = Vec::new();
    for i in 0..count {
        let good = addr_list(&AddrList::one(real, unix_now()));
        let mut bad = addr_list(&AddrList::one(fake, unix_now()));
        let kind = if i == 0 && with {
            KINDS[rng.gen_range(0..3)]
        } else if rng.gen_range(0..4) == 0 {
            // signed by the owner, but not usable any more
            let mut l = AddrList::one(fake, unix_now());
            match rng.gen_range(0..3) {
                0 => l.expire_at = unix_now() - 10,
                1 => l.reinit_date = unix_now() + 1000,
                _ => l.addrs.clear(),
            }
            bad = addr_list(&l);
            "unusable list"
        } else {
            KINDS[rng.gen_range(3..KINDS.len())]
        };
        let a = if kind == "unusable list" {
            Some(DValue::signed(&owner, "address", 0, bad.clone(), ttl).found())
        } else {
            let n = forged_nodes(rng);
            answer(rng, kind, &owner, &evil, &key, &good, &bad, ttl, &n)
        };
        let me = Ident::gen(rng);
        peers.push(holder(rng, &d, me, key.hash(), kind == "authentic late", a).await);
        ctx.count(if is_good(kind) { "authentic_answers" } else { "forged_answers" }, 1);
        kinds.push(kind);
    }
    let mut last = None;
    for _ in 0..3 {
        let (dht, id) = (d.dht.clone(), sid(&owner.short));
        let _g = ctx.op("find_address");
        last = run_node(async move { dht.find_address(&id).await }).await;
        if !with || matches!(last, Some(Ok(_))) {
            break;
        }
    }
    ctx.count("address_lookups", 1);
    match &last {
        Some(Ok((addr, full))) => {
            if *addr != real || full.public_key().as_bytes() != &owner.public {
                ctx.violation("forged-address", format!("find_address returned {addr} with a {} key; the nodes answer {kinds:?}", if full.public_key().as_bytes() == &owner.public { "matching" } else { "foreign" }));
            } else if !with {
                ctx.violation("forged-address", format!("find_address returned an address although no node has an authentic one; the nodes answer {kinds:?}"));
            }
        }
        Some(Err(_)) if with => ctx.violation("authentic-lost", format!("find_address found nothing although one node has it; the nodes answer {kinds:?}")),
        _ => {}
    }
    for k in &kinds {
        ctx.case((*k, "find_address", with, matches!(last, Some(Ok(_)))));
    }
}

const LISTS: [&str; 14] = [
    "authentic", "authentic two", "bad signature", "other overlay", "signed by another", "changed version", "other list", "signature rule", "anybody rule", "signed list", "expired", "not a list", "not found", "mixed",
];

async fn members(ctx: &C, rng: &mut SmallRng, round: u64) {
    let (ao, dop) = setup_opts();
    let d = DhtNode::start(rng, ao, dop);
    let full = overlay::IdFull::for_workchain_overlay(round as i32 - 1, &rand32(rng));
    let name = *full.as_slice();
    let short = Pk::Overlay(name.to_vec()).short();
    if full.compute_short_id().as_slice() != &short {
        ctx.violation("overlay-id", "the short id of an overlay is not the hash of its full id");
        return;
    }
    let okey = DValue::overlay(&name, &[], 1).key;
    let ttl = unix_now() + 600;
    let evil = Ident::gen(rng);
    let reals: Vec<(Ident, SocketAddrV4)> = (0..3).map(|i| (Ident::gen(rng), SocketAddrV4::new(Ipv4Addr::new(10, 1, 3, 10 + i), 4000 + i as u16))).collect();
    let mut by_key: Vec<HashMap<[u8; 32], Vec<u8>>> = Vec::new();
    let mut kinds = Vec::new();
    let n = rng.gen_range(2..6usize);
    for i in 0..n {
        let kind = if i == 0 { LISTS[rng.gen_range(0..2)] } else { LISTS[(round as usize * 3 + i + rng.gen_range(0..LISTS.len())) % LISTS.len()] };
        let good = ONode::new(&reals[i % 3].0, short, 3);
        let mut bad = ONode::new(&evil, short, 3);
        let v = match kind {
            "authentic" => Some(DValue::overlay(&name, &[good], ttl)),
            "authentic two" => Some(DValue::overlay(&name, &[good, ONode::new(&reals[(i + 1) % 3].0, short, 1)], ttl)),
            "bad signature" => {
                bad.sig[3] ^= 4;
                Some(DValue::overlay(&name, &[bad], ttl))
            }
            "mixed" => {
                bad.sig[3] ^= 4;
                Some(DValue::overlay(&name, &[good, bad], ttl))
            }
            "other overlay" => Some(DValue::overlay(&name, &[ONode::new(&evil, rand32(rng), 1)], ttl)),
            "signed by another" => {
                bad.sig = reals[0].0.sign(&bad.to_sign()).to_vec();
                Some(DValue::overlay(&name, &[bad], ttl))
            }
            "changed version" => {
                bad.version += 1;
                Some(DValue::overlay(&name, &[bad], ttl))
            }
            "other list" => {
                let other = rand32(rng);
                Some(DValue::overlay(&other, &[ONode::new(&evil, Pk::Overlay(other.to_vec()).short(), 1)], ttl))
            }
            "signature rule" => {
                bad.sig[0] ^= 1;
                let mut v = DValue::overlay(&name, &[bad], ttl);
                v.rule = id::DHT_RULE_SIGNATURE;
                v.resign(&evil);
                Some(v)
            }
            "anybody rule" => {
                bad.sig[0] ^= 1;
                let mut v = DValue::overlay(&name, &[bad], ttl);
                v.rule = id::DHT_RULE_ANYBODY;
                Some(v)
            }
            "signed list" => {
                bad.sig[0] ^= 1;
                let mut v = DValue::signed(&evil, "nodes", 0, onodes(&[bad]), ttl);
                v.key.id = short;
                v.resign(&evil);
                Some(v)
            }
            "expired" => Some(DValue::overlay(&name, &[bad], unix_now() - 5)),
            "not a list" => {
                let mut v = DValue::overlay(&name, &[bad], ttl);
                v.value = rand_bytes(rng, 60);
                Some(v)
            }
            _ => None,
        };
        let mut m = HashMap::new();
        m.insert(okey.hash(), v.map(|v| v.found()).unwrap_or_else(|| not_found(&[])));
        // this node also knows addresses: the first one authentic ones, others forged ones
        for (r, a) in &reals {
            let k = DKey::new(r.short, "address", 0);
            let ans = if i == 0 {
                DValue::signed(r, "address", 0, addr_list(&AddrList::one(*a, unix_now())), ttl)
            } else {
                let mut v = DValue::signed(r, "address", 0, addr_list(&AddrList::one("10.6.6.6:66".parse().unwrap(), unix_now())), ttl);
                if i % 2 == 0 {
                    v.resign(&evil);
                } else {
                    v = DValue::signed(&evil, "address", 0, v.value, ttl);
                }
                v
            };
            m.insert(k.hash(), ans.found());
        }
        let e = DValue::signed(&evil, "address", 0, addr_list(&AddrList::one("10.6.6.6:67".parse().unwrap(), unix_now())), ttl);
        m.insert(e.key.hash(), e.found());
        by_key.push(m);
        kinds.push(kind);
        ctx.count(if is_good(kind) { "authentic_answers" } else { "forged_answers" }, 1);
    }
    let mut peers = Vec::new();
    for m in by_key {
        let me = Ident::gen(rng);
        let s = Serve::with_ident(me, rng, d.n.addr(), d.n.pk(0)).await;
        let m = Arc::new(m);
        s.set(answering(move |q| match read_query(q).1 {
            DQ::FindValue(k, _) => Some(m.get(&k).cloned().unwrap_or_else(|| not_found(&[]))),
            _ => None,
        }));
        on_node(|| d.dht.add_dht_peer(DNode::new(&s.me, s.addr, unix_now()).tl())).expect("add peer");
        peers.push(s);
    }
    let mut res: Option<Vec<(SocketAddrV4, proto::overlay::NodeOwned)>> = None;
    for _ in 0..3 {
        let (dht, id) = (d.dht.clone(), overlay::IdShort::new(short));
        let _g = ctx.op("find_overlay_nodes");
        res = run_node(async move { tokio::time::timeout(Duration::from_secs(15), dht.find_overlay_nodes(&id)).await.ok().and_then(|r| r.ok()) }).await.flatten();
        if res.as_ref().is_some_and(|r| !r.is_empty()) {
            break;
        }
    }
    ctx.count("member_lookups", 1);
    let Some(res) = res else {
        ctx.violation("lookup-hang", format!("find_overlay_nodes did not end; the nodes answer {kinds:?}"));
        return;
    };
    for (addr, node) in &res {
        ctx.count("returned_values", 1);
        let raw = tl_proto::serialize(node.as_equivalent_ref());
        let n = ONode::read(&mut Rd::new(&raw));
        let ok = match &n {
            Ok(n) => n.overlay == short && n.valid() && reals.iter().any(|(r, a)| r.public == n.public && a == addr),
            Err(_) => false,
        };
        if !ok {
            ctx.violation("forged-member", format!("find_overlay_nodes returned a forged member or address ({addr}); the nodes answer {kinds:?}"));
        }
    }
    if res.is_empty() {
        ctx.violation("authentic-lost", format!("find_overlay_nodes returned no member although one node knows one and its address; the nodes answer {kinds:?}"));
    }
    for k in &kinds {
        ctx.case((*k, "find_overlay_nodes", res.len()));
    }
    let _: Option<NodeIdShort> = None;
}
