//! C14: a DHT node stores only values that pass their update rule.
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};

use everscale_network::dht;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::dhtw::*;
use crate::nodes::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one store request (valid, forged, expired, malformed) followed by reading the key back from the node and comparing with a reference storage; distinct by kind of the request, what was stored before and the outcome");
    let mut rng = ctx.rng(14);
    if !clock_is_virtual() {
        ctx.inconclusive("the wall clock of this build cannot be moved");
    }
    let mut round = 0;
    while ctx.within(30, 600) && (round < 4 || !ctx.quick()) {
        sequence(&ctx, &mut rng, round).await;
        clock_reset();
        concurrent(&ctx, &mut rng).await;
        boundary(&ctx, &mut rng).await;
        clock_reset();
        round += 1;
    }
    ctx.require("stores", 400);
    ctx.require("values_read", 300);
    ctx.require("rejected", 100);
    ctx.require("merges", 20);
    ctx.require("expired", 10);
    ctx.require("concurrent_stores", 60);
    ctx.check_panics("dht storage");
}

/// The reference storage.
struct Model {
    map: HashMap<[u8; 32], DValue>,
    max_name: usize,
    max_idx: u32,
}

impl Model {
    fn get(&self, key: &[u8; 32]) -> Option<&DValue> {
        self.map.get(key).filter(|v| v.ttl > unix_now())
    }
    /// Applies a store request; tells what happened.
    fn store(&mut self, v: &DValue) -> &'static str {
        if v.ttl <= unix_now() || v.key.name.len() > self.max_name || v.key.idx > self.max_idx || v.key.id != v.pk.short() {
            return "refused";
        }
        let key = v.key.hash();
        match v.rule {
            id::DHT_RULE_SIGNATURE => {
                let Pk::Ed(public) = &v.pk else { return "refused" };
                let ok = verify(public, &v.desc(W::new().u32(id::DHT_KEY_DESC), false).done(), &v.key_sig)
                    && verify(public, &v.write(W::new().u32(id::DHT_VALUE), false).done(), &v.sig);
                if !ok {
                    return "refused";
                }
                match self.map.get(&key) {
                    Some(old) if old.ttl >= v.ttl => "kept old",
                    Some(_) => {
                        self.map.insert(key, v.clone());
                        "replaced"
                    }
                    None => {
                        self.map.insert(key, v.clone());
                        "new"
                    }
                }
            }
            id::DHT_RULE_OVERLAY => {
                let Pk::Overlay(_) = &v.pk else { return "refused" };
                if !v.sig.is_empty() || !v.key_sig.is_empty() || v.key.name != b"nodes" || v.key.idx != 0 {
                    return "refused";
                }
                let Ok(new) = read_onodes(&v.value) else { return "refused" };
                let new: Vec<ONode> = new.into_iter().filter(|n| n.overlay == v.key.id && n.valid()).collect();
                if new.is_empty() {
                    return "refused";
                }
                let mut all: BTreeMap<[u8; 32], ONode> = BTreeMap::new();
                let mut what = "new overlay";
                if let Some(old) = self.get(&key) {
                    if old.ttl > v.ttl {
                        return "kept old";
                    }
                    what = "merged";
                    for n in read_onodes(&old.value).unwrap() {
                        all.insert(n.public, n);
                    }
                }
                for n in new {
                    match all.get(&n.public) {
                        Some(o) if o.version >= n.version => {}
                        _ => {
                            all.insert(n.public, n);
                        }
                    }
                }
                let mut res = v.clone();
                res.value = onodes(&all.into_values().collect::<Vec<_>>());
                self.map.insert(key, res);
                what
            }
            _ => "refused",
        }
    }
}

/// Equal up to the order of the overlay members.
fn same(a: &DValue, b: &DValue) -> bool {
    if a == b {
        return true;
    }
    if a.rule != id::DHT_RULE_OVERLAY {
        return false;
    }
    match (read_onodes(&a.value), read_onodes(&b.value)) {
        (Ok(mut x), Ok(mut y)) => {
            x.sort();
            y.sort();
            let (mut a, mut b) = (a.clone(), b.clone());
            a.value.clear();
            b.value.clear();
            x == y && a == b
        }
        _ => false,
    }
}

fn names() -> [String; 5] {
    ["address".into(), "nodes".into(), "".into(), "n".repeat(127), "n".repeat(128)]
}

/// Some store request: what is done to it and the request itself.
fn request(rng: &mut SmallRng, m: &Model, users: &[Ident], overlays: &[[u8; 32]]) -> (&'static str, DValue) {
    let now = unix_now();
    let who = users.choose(rng).unwrap();
    let ttl = match rng.gen_range(0..25) {
        0 => now,
        1 => now - 1,
        2 => now.saturating_sub(rng.gen_range(0..100_000)),
        3 => u32::MAX,
        4 => now + 1,
        // several values of a key that are about to expire
        5..=8 => now + rng.gen_range(2..8u32),
        _ => now + rng.gen_range(2..300u32),
    };
    if rng.gen_range(0..5) < 2 {
        // overlay members
        let name = *overlays.choose(rng).unwrap();
        let short = Pk::Overlay(name.to_vec()).short();
        let other = Pk::Overlay(overlays.choose(rng).unwrap().to_vec()).short();
        let mut kind = "overlay";
        let mut nodes: Vec<ONode> = Vec::new();
        for _ in 0..rng.gen_range(1..5) {
            let u = users.choose(rng).unwrap();
            let mut n = ONode::new(u, short, rng.gen_range(1..6));
            match rng.gen_range(0..12) {
                0 => n = ONode::new(u, other, 9),
                1 => {
                    let i = rng.gen_range(0..64);
                    n.sig[i] ^= 1 << rng.gen_range(0..8);
                    kind = "overlay, member with a bad signature";
                }
                2 => {
                    n.version += 1;
                    kind = "overlay, member with a changed version";
                }
                3 if rng.gen() => {
                    n.sig = users.choose(rng).unwrap().sign(&n.to_sign()).to_vec();
                    kind = "overlay, member signed by another";
                }
                _ => {}
            }
            nodes.push(n);
        }
        let mut v = DValue::overlay(&name, &nodes, ttl);
        match rng.gen_range(0..26) {
            0 => (v.key.name, kind) = (b"address".to_vec(), "overlay under another name"),
            1 => (v.key.idx, kind) = (1, "overlay under another index"),
            2 => (v.sig, kind) = (who.sign(b"x").to_vec(), "overlay with a signature"),
            3 => (v.key_sig, kind) = (who.sign(b"x").to_vec(), "overlay with a key signature"),
            4 => (v.value, kind) = (rand_bytes(rng, 40), "overlay value that is no member list"),
            5 => (v.value, kind) = (onodes(&[]), "empty overlay list"),
            6 => (v.key.id, kind) = (other, "overlay under the id of another"),
            7 => {
                v.pk = Pk::Ed(who.public);
                v.key.id = who.short;
                kind = "overlay list under the key of a node";
            }
            8 => (v.rule, kind) = (id::DHT_RULE_SIGNATURE, "overlay with the signature rule"),
            9 => (v.rule, kind) = (id::DHT_RULE_ANYBODY, "overlay with the anybody rule"),
            _ => {}
        }
        return (kind, v);
    }
    let names = names();
    let name = names[if rng.gen_range(0..4) > 0 { rng.gen_range(0..2) } else { rng.gen_range(0..5) }].clone();
    let idx = *[0, 0, 0, 0, 0, 0, 0, 1, m.max_idx, m.max_idx + 1, u32::MAX].choose(rng).unwrap();
    let len = *[0, 1, 20, 100, 253, 254, 300, 700].choose(rng).unwrap();
    let mut v = DValue::signed(who, &name, idx, rand_bytes(rng, len), ttl);
    let other = users.choose(rng).unwrap();
    let kind = match rng.gen_range(0..40) {
        0 => {
            let i = rng.gen_range(0..64);
            v.sig[i] ^= 1 << rng.gen_range(0..8);
            "value signature changed"
        }
        1 => {
            let i = rng.gen_range(0..64);
            v.key_sig[i] ^= 1 << rng.gen_range(0..8);
            v.sign_value(who);
            "key signature changed"
        }
        2 => {
            v.sign_value(other);
            "value signed by another"
        }
        3 => {
            v.sign_key(other);
            v.sign_value(who);
            "key signed by another"
        }
        4 => {
            v.resign(other);
            "signed by another"
        }
        5 => {
            v.key.id = other.short;
            v.resign(who);
            "under the id of another"
        }
        6 => {
            v.ttl = v.ttl.saturating_add(1);
            "expiry changed after signing"
        }
        7 => {
            v.value.push(1);
            "value changed after signing"
        }
        8 => {
            v.key.idx ^= 1;
            "index changed after signing"
        }
        9 => {
            v.sig = vec![];
            "no value signature"
        }
        10 => {
            v.key_sig = vec![];
            v.sign_value(who);
            "no key signature"
        }
        11 => {
            v.rule = id::DHT_RULE_ANYBODY;
            v.resign(who);
            "anybody rule"
        }
        12 => {
            v.rule = id::DHT_RULE_OVERLAY;
            v.resign(who);
            "overlay rule for a signed value"
        }
        13 => {
            v.pk = Pk::Aes(who.public);
            v.key.id = v.pk.short();
            v.resign(who);
            "aes key"
        }
        14 => {
            v.pk = Pk::Overlay(who.short.to_vec());
            v.key.id = v.pk.short();
            v.resign(who);
            "overlay key with the signature rule"
        }
        15 => {
            // key and value signatures swapped
            std::mem::swap(&mut v.sig, &mut v.key_sig);
            "signatures swapped"
        }
        16 => {
            v.sig.truncate(63);
            "short signature"
        }
        _ => "signed",
    };
    (kind, v)
}

async fn sequence(ctx: &C, rng: &mut SmallRng, round: u64) {
    let dopts = dht::NodeOptions {
        max_key_name_len: [127, 7, 127, 0][round as usize % 4],
        max_key_index: [15, 1, 0, 3][round as usize % 4],
        storage_gc_interval_ms: 150,
        ..Default::default()
    };
    let d = DhtNode::start(rng, default_opts(), dopts);
    let peer = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
    let users: Vec<Ident> = (0..4).map(|_| Ident::gen(rng)).collect();
    let overlays: Vec<[u8; 32]> = (0..3).map(|_| rand32(rng)).collect();
    let mut m = Model { map: HashMap::new(), max_name: dopts.max_key_name_len, max_idx: dopts.max_key_index };
    let mut touched: Vec<[u8; 32]> = Vec::new();
    let steps = ctx.pick(400, 1500);
    for step in 0..steps {
        if !ctx.within(60, 900) || ctx.violated() {
            break;
        }
        let (kind, v) = request(rng, &m, &users, &overlays);
        // the second hand must not move between the request and the reference
        let local = rng.gen_range(0..6) == 0;
        let before = wait_clear_of_tick().await;
        if local {
            let bytes = v.write(W::new().u32(id::DHT_VALUE), true).done();
            match tl_proto::deserialize_as_boxed::<everscale_network::proto::dht::Value>(&bytes) {
                Ok(value) => {
                    if let Ok(f) = on_node(|| d.dht.store_value(value)) {
                        f.only_locally();
                    }
                }
                Err(e) => ctx.inconclusive(format!("the code under test cannot parse a value: {e}")),
            }
        } else {
            // a refused request is not answered: ask something else to know it was seen
            let a = peer.query(v.store(), Duration::from_millis(25)).await;
            if a.is_none() && !peer.barrier().await {
                ctx.violation("no-service", "the node does not answer pings any more");
                return;
            }
            if let Some(a) = a {
                if a != stored() {
                    ctx.violation("store-answer", format!("a store request was answered with {} bytes other than dht.stored", a.len()));
                }
            }
        }
        if unix_now() != before {
            // undecided which second it was handled in: forget this key
            ctx.count("second_passed", 1);
            m.map.remove(&v.key.hash());
            let k = v.key.hash();
            if let Some(Find::Value(v)) = find(ctx, &peer, &k).await {
                m.map.insert(k, v);
            }
            continue;
        }
        let had = m.get(&v.key.hash()).is_some();
        let outcome = m.store(&v);
        ctx.count("stores", 1);
        match outcome {
            "refused" => ctx.count("rejected", 1),
            "merged" => ctx.count("merges", 1),
            _ => {}
        }
        let key = v.key.hash();
        if !touched.contains(&key) {
            touched.push(key);
        }
        check_key(ctx, &peer, &m, &key, &format!("{kind} ({outcome}, {} before)", if had { "stored" } else { "nothing" })).await;
        ctx.case((kind, outcome, had, local));
        if step % 13 == 12 {
            for _ in 0..3 {
                let k = *touched.choose(rng).unwrap();
                check_key(ctx, &peer, &m, &k, "another key").await;
            }
        }
        if step % 60 == 59 {
            // time passes
            let jump = *[1, 2, 30, 150, 400].choose(rng).unwrap();
            let live = touched.iter().filter(|k| m.get(k).is_some()).count();
            clock_shift(jump);
            let left = touched.iter().filter(|k| m.get(k).is_some()).count();
            ctx.count("expired", (live - left) as u64);
            for k in touched.clone() {
                check_key(ctx, &peer, &m, &k, &format!("{jump} s later")).await;
            }
            // collected sooner or later
            let want = |m: &Model| {
                let now = unix_now();
                let live: Vec<&DValue> = m.map.values().filter(|v| v.ttl > now).collect();
                (live.len(), live.iter().map(|v| v.value.len()).sum::<usize>())
            };
            let ok = eventually(Duration::from_secs(3), || {
                let x = d.dht.metrics();
                (x.storage_len, x.storage_total_size) == want(&m)
            })
            .await;
            if !ok {
                let x = d.dht.metrics();
                ctx.violation("collection", format!("the node keeps {} values of {} bytes, {:?} are alive", x.storage_len, x.storage_total_size, want(&m)));
            }
            let now = unix_now();
            m.map.retain(|_, v| v.ttl > now);
            ctx.case(("later", jump, left.min(10)));
        }
    }
}

/// Waits until the current second has a while to go.
async fn wait_clear_of_tick() -> u32 {
    loop {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        if t.subsec_millis() < 940 {
            return unix_now();
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
}

async fn find(ctx: &C, peer: &Serve, key: &[u8; 32]) -> Option<Find> {
    let Some(a) = peer.ask(q_find_value(key, 5)).await else {
        ctx.violation("no-service", "a find-value request is not answered");
        return None;
    };
    match read_find(&a) {
        Ok(f) => Some(f),
        Err(_) => {
            ctx.violation("find-answer", "a find-value answer does not follow the scheme");
            None
        }
    }
}

async fn check_key(ctx: &C, peer: &Serve, m: &Model, key: &[u8; 32], what: &str) {
    for attempt in 0..3 {
        let now = wait_clear_of_tick().await;
        let Some(f) = find(ctx, peer, key).await else { return };
        if unix_now() != now && attempt < 2 {
            continue;
        }
        ctx.count("values_read", 1);
        let got = match &f {
            Find::Value(v) => Some(v),
            Find::Nodes(_) => None,
        };
        match (got, m.get(key)) {
            (None, None) => {}
            (Some(g), Some(w)) if same(g, w) => {}
            (Some(g), Some(w)) => ctx.violation(
                if g.rule == id::DHT_RULE_OVERLAY { "overlay-value" } else { "signed-value" },
                format!("after {what}: the node returns a value expiring at {} of {} bytes, expected one expiring at {} of {} bytes", g.ttl, g.value.len(), w.ttl, w.value.len()),
            ),
            (Some(g), None) => ctx.violation("unacceptable-value", format!("after {what}: the node returns a value it must not have (expires in {} s)", g.ttl as i64 - now as i64)),
            (None, Some(_)) => ctx.violation("value-lost", format!("after {what}: the node does not return a value it accepted")),
        }
        return;
    }
}

/// Several peers store under the same keys at once.
async fn concurrent(ctx: &C, rng: &mut SmallRng) {
    let d = DhtNode::start(rng, default_opts(), dht::NodeOptions::default());
    let now = unix_now();
    let owner = Ident::gen(rng);
    let name = rand32(rng);
    let short = Pk::Overlay(name.to_vec()).short();
    let members: Vec<Ident> = (0..24).map(|_| Ident::gen(rng)).collect();
    let mut ttls: Vec<u32> = (0..24).map(|k| now + 500 + k * 3).collect();
    ttls.shuffle(rng);
    let best = *ttls.iter().max().unwrap();
    let key = DValue::signed(&owner, "address", 0, vec![], best).key.hash();
    let okey = DValue::overlay(&name, &[], best).key.hash();
    let mut hs = Vec::new();
    for w in 0..6usize {
        let peer = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
        if !peer.barrier().await {
            ctx.violation("no-service", "an honest peer is not served");
            return;
        }
        let mut reqs = Vec::new();
        for k in 0..4 {
            let ttl = ttls[w * 4 + k];
            reqs.push(DValue::signed(&owner, "address", 0, ttl.to_le_bytes().repeat(10), ttl).store());
            // the same expiry for all, so that every list is merged
            let versions = [ONode::new(&members[w * 4 + k], short, 5), ONode::new(&members[0], short, (w * 4 + k) as u32 + 1)];
            reqs.push(DValue::overlay(&name, &versions, now + 900).store());
        }
        let ctx = ctx.clone();
        hs.push(tokio::spawn(async move {
            let mut seen = Vec::new();
            for r in reqs {
                if peer.ask(r).await.is_none() {
                    ctx.violation("value-lost", "a valid store request was not answered");
                }
                ctx.count("concurrent_stores", 1);
                if let Some(Find::Value(v)) = peer.ask(q_find_value(&key, 3)).await.and_then(|a| read_find(&a).ok()) {
                    if v.value != v.ttl.to_le_bytes().repeat(10) {
                        ctx.violation("signed-value", "under concurrent stores a value was mixed up");
                    }
                    seen.push(v.ttl);
                }
            }
            if seen.windows(2).any(|w| w[1] < w[0]) {
                ctx.violation("replaced-by-older", format!("the expiry of the value returned went back: {seen:?}"));
            }
        }));
    }
    for h in hs {
        h.await.ok();
    }
    let peer = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
    match find(ctx, &peer, &key).await {
        Some(Find::Value(v)) if v.ttl == best => {}
        Some(Find::Value(v)) => ctx.violation("replaced-by-older", format!("after concurrent stores the value expires at {}, the latest offered was {best}", v.ttl)),
        _ => ctx.violation("value-lost", "after concurrent stores there is no value"),
    }
    match find(ctx, &peer, &okey).await {
        Some(Find::Value(v)) => {
            let got = read_onodes(&v.value).unwrap_or_default();
            let missing = members.iter().filter(|m| !got.iter().any(|n| n.public == m.public)).count();
            if missing > 0 || got.len() != members.len() {
                ctx.violation("members-lost", format!("of {} members stored concurrently {missing} are missing, {} are listed", members.len(), got.len()));
            }
            if got.iter().any(|n| n.public == members[0].public && n.version != 24) {
                ctx.violation("members-version", "the newest record of a member was lost by a concurrent merge");
            }
        }
        _ => ctx.violation("value-lost", "after concurrent stores there is no member list"),
    }
    ctx.case(("concurrent", Instant::now().elapsed().as_secs()));
}

/// What expires exactly now is expired: neither returned nor merged.
async fn boundary(ctx: &C, rng: &mut SmallRng) {
    let d = DhtNode::start(rng, default_opts(), dht::NodeOptions { storage_gc_interval_ms: 600_000, ..Default::default() });
    let peer = Serve::new(rng, d.n.addr(), d.n.pk(0)).await;
    let (a, b) = (Ident::gen(rng), Ident::gen(rng));
    for past in [0i64, 1, 100, -1] {
        let (name, owner) = (rand32(rng), Ident::gen(rng));
        let short = Pk::Overlay(name.to_vec()).short();
        let t = wait_clear_of_tick().await + 30;
        let v = DValue::overlay(&name, &[ONode::new(&a, short, 1)], t);
        let key = v.key.hash();
        let s = DValue::signed(&owner, "address", 0, rand_bytes(rng, 9), t);
        if peer.ask(v.store()).await.is_none() || peer.ask(s.store()).await.is_none() {
            ctx.violation("value-lost", "a valid store request was not answered");
            return;
        }
        clock_shift(30 + past);
        if wait_clear_of_tick().await != (t as i64 + past) as u32 {
            clock_shift(-(30 + past));
            ctx.count("second_passed", 1);
            continue;
        }
        let mut m = Model { map: HashMap::new(), max_name: 127, max_idx: 15 };
        m.map.insert(key, v);
        m.map.insert(s.key.hash(), s.clone());
        check_key(ctx, &peer, &m, &key, &format!("{past} s past the expiry")).await;
        check_key(ctx, &peer, &m, &s.key.hash(), &format!("{past} s past the expiry")).await;
        let w = DValue::overlay(&name, &[ONode::new(&b, short, 1)], t + 500);
        let now = wait_clear_of_tick().await;
        peer.ask(w.store()).await;
        if unix_now() == now && now == (t as i64 + past) as u32 {
            m.store(&w);
            ctx.count("expired", 1);
            check_key(ctx, &peer, &m, &key, &format!("a new list stored {past} s past the expiry of the old one")).await;
            ctx.case(("boundary", past));
        }
        clock_shift(-(30 + past));
    }
}
