//! C24: overlay membership, removal and separation of overlays.
use std::collections::HashSet;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

use everscale_network::{adnl, overlay, proto};
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};

use crate::dhtw::*;
use crate::nodes::*;
use crate::overw::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one member record (genuine or mutated) on one way into the node, one step of a history of adds, removals and traffic, or one kind of traffic among several overlays; non-trivial because a mutated record must leave no trace while genuine ones beside it are accepted, a removed member must see and be in nothing, and every message, query and peer must stay in its overlay; distinct by mutation and way in, by history state, or by kind of traffic");
    let mut rng = ctx.rng(24);
    let only = std::env::var("EVMON_ONLY").ok().and_then(|x| x.parse::<u64>().ok());
    let mut tasks = Vec::new();
    for i in (0..5u64).filter(|i| only.is_none_or(|o| o == *i)) {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = 0;
            let last = [6, 5, 5, 4, 6][i as usize];
            while ctx.within(26, 420) && (round < last || !ctx.quick()) && !ctx.violated() {
                match i {
                    0 => records(&ctx, &mut rng).await,
                    1 | 2 => removal(&ctx, &mut rng, round * 2 + i).await,
                    3 => isolation(&ctx, &mut rng).await,
                    _ => {
                        told_again(&ctx, &mut rng).await;
                        remove_race(&ctx, &mut rng).await;
                        exchange(&ctx, &mut rng).await
                    }
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    if only.is_none() {
        ctx.require("mutated", 200);
        ctx.require("genuine", 60);
        ctx.require("removals", 25);
        ctx.require("lists", 100);
        ctx.require("own_broadcasts", 100);
        ctx.require("crossings", 100);
        ctx.require("exchanged", 8);
        ctx.require("told_again", 12);
        ctx.require("removed_while_added", 600);
    }
    ctx.check_panics("overlay membership");
}

// ---------------------------------------------------------------- records

/// A record as it is sent, with whatever key.
#[derive(Clone, Debug)]
struct Raw {
    kind: usize,
    node: ONode,
}
impl Raw {
    fn write(&self, w: W) -> W {
        let n = &self.node;
        let w = match self.kind {
            0 => w.pubkey(&n.public),
            1 => w.u32(id::PUB_AES).raw(&n.public),
            2 => w.u32(id::PUB_OVERLAY).bytes(&n.public),
            _ => w.u32(id::PUB_UNENC).bytes(&n.public),
        };
        w.raw(&n.overlay).u32(n.version).bytes(&n.sig)
    }
}
fn raws(w: W, v: &[Raw]) -> W {
    v.iter().fold(w.u32(v.len() as u32), |w, n| n.write(w))
}

const MUT: [&str; 17] = [
    "signature bit",
    "zero signature",
    "empty signature",
    "short signature",
    "long signature",
    "signed by another",
    "other overlay",
    "other overlay id kept signature",
    "version changed",
    "key of another",
    "AES key",
    "overlay key",
    "unencrypted key",
    "signed without constructor",
    "signed with full key",
    "overlay id bit",
    "signature of the node itself",
];
fn mutate(rng: &mut SmallRng, k: usize, who: &Ident, ov: &[u8; 32], own: &ONode) -> Raw {
    let other = Ident::gen(rng);
    let mut n = ONode::new(who, *ov, unix_now());
    let mut kind = 0;
    match k {
        0 => {
            let i = rng.gen_range(0..64);
            n.sig[i] ^= 1 << rng.gen_range(0..8);
        }
        1 => n.sig = vec![0; 64],
        2 => n.sig = vec![],
        3 => {
            n.sig.truncate(63);
        }
        4 => n.sig.push(0),
        5 => n.sig = other.sign(&n.to_sign()).to_vec(),
        6 => {
            let mut near = *ov;
            near[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
            n = ONode::new(who, if rng.gen() { near } else { rand32(rng) }, unix_now());
        }
        7 => {
            n = ONode::new(who, rand32(rng), unix_now());
            n.overlay = *ov;
        }
        8 => n.version = n.version.wrapping_add([1, u32::MAX, 1 << 31][rng.gen_range(0..3)]),
        9 => n.public = other.public,
        10 => kind = 1,
        11 => kind = 2,
        12 => kind = 3,
        13 => n.sig = who.sign(&n.to_sign()[4..]).to_vec(),
        14 => {
            let m = W::new().u32(id::OV_TO_SIGN).raw(&n.public).raw(&n.overlay).u32(n.version).done();
            n.sig = who.sign(&m).to_vec();
        }
        15 => {
            let i = rng.gen_range(0..32);
            n.overlay[i] ^= 1 << rng.gen_range(0..8);
        }
        _ => n.sig = own.sig.clone(),
    }
    Raw { kind, node: n }
}

fn offer<'a>(n: &'a Raw) -> proto::overlay::Node<'a> {
    use everscale_crypto::tl::PublicKey;
    proto::overlay::Node {
        id: match n.kind {
            0 => PublicKey::Ed25519 { key: &n.node.public },
            1 => PublicKey::Aes { key: &n.node.public },
            2 => PublicKey::Overlay { name: &n.node.public },
            _ => PublicKey::Unencoded { data: &n.node.public },
        },
        overlay: &n.node.overlay,
        version: n.node.version,
        signature: &n.node.sig,
    }
}
fn taken(o: &Ov) -> Vec<ONode> {
    o.o.take_new_peers()
        .into_values()
        .map(|n| ONode {
            public: match n.id {
                everscale_crypto::tl::PublicKeyOwned::Ed25519 { key } => key,
                _ => [0; 32],
            },
            overlay: n.overlay,
            version: n.version,
            sig: n.signature.to_vec(),
        })
        .collect()
}
fn get_random(ov: &[u8; 32], v: &[Raw]) -> Vec<u8> {
    raws(W::new().u32(id::OV_QUERY).raw(ov).u32(id::OV_GET_RANDOM), v).done()
}
fn next_addr(rng: &mut SmallRng) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(127, 9, rng.gen(), rng.gen_range(1..255)), rng.gen_range(1000..60000))
}

async fn records(ctx: &C, rng: &mut SmallRng) {
    let ov = rand32(rng);
    let n = OvNode::start(rng);
    let o = n.public(&ov, Default::default());
    let s = stranger(rng, &n).await;
    let own = {
        let x = o.o.sign_local_node();
        ONode { public: n.me().public, overlay: ov, version: x.version, sig: x.signature.to_vec() }
    };
    if !own.valid() || o.o.sign_local_node().overlay != ov {
        ctx.violation("own record", "the node's own record is not valid");
    }
    let mut bad_ids: HashSet<[u8; 32]> = HashSet::new();
    for k in 0..MUT.len() {
        for way in 0..4 {
            let who = Ident::gen(rng);
            let bad = mutate(rng, k, &who, &ov, &own);
            let mut list = vec![bad.clone()];
            let good: Vec<Ident> = (0..rng.gen_range(1..4)).map(|_| Ident::gen(rng)).collect();
            for g in &good {
                list.push(Raw { kind: 0, node: ONode::new(g, ov, unix_now()) });
            }
            list.shuffle(rng);
            // what must not appear
            let bad_id = short_id(&bad.node.public);
            bad_ids.insert(bad_id);
            bad_ids.insert(who.short);
            let what = format!("{} ({})", MUT[k], ["add_public_peer", "add_public_peers", "getRandomPeers", "exchange"][way]);
            let mut missing = false;
            match way {
                0 => {
                    for r in &list {
                        let a = next_addr(rng);
                        let x = on_node(|| o.o.add_public_peer(&n.n.adnl, a, offer(r)));
                        let is_bad = r.node.public == bad.node.public;
                        if is_bad && matches!(x, Ok(Some(_))) {
                            ctx.violation("member", format!("a peer with an invalid record was added: {what}"));
                        }
                        missing |= !is_bad && !matches!(x, Ok(Some(_)));
                    }
                }
                1 => {
                    let a: Vec<_> = list.iter().map(|r| (next_addr(rng), offer(r))).collect();
                    match on_node(|| o.o.add_public_peers(&n.n.adnl, a)) {
                        Ok(v) => {
                            let v: HashSet<[u8; 32]> = v.iter().map(|x| *x.as_slice()).collect();
                            missing |= good.iter().any(|g| !v.contains(&g.short)) || v.len() > good.len();
                        }
                        // a list is allowed to be refused as a whole only for what is no record at all
                        Err(_) => missing = true,
                    }
                }
                2 => {
                    let mut l = list.clone();
                    // replayed own record
                    l.push(Raw { kind: 0, node: own.clone() });
                    let a = s.ask(get_random(&ov, &l)).await;
                    if let Some(v) = a.and_then(|a| read_onodes(&a).ok()) {
                        check_list(ctx, &n, &o, &v, None, &what);
                    } else if bad.kind == 0 {
                        ctx.violation("no list", format!("a query with an invalid record ({}) is not answered by a list of members", MUT[k]));
                    }
                    let t = taken(&o);
                    for x in &t {
                        if !x.valid() || x.overlay != ov {
                            ctx.violation("new peer", format!("an invalid record is reported as a new peer: {what}"));
                        }
                        if x.public == n.me().public {
                            ctx.violation("self", "the node reports itself as a new peer");
                        }
                    }
                    if bad.kind == 0 {
                        missing |= good.iter().any(|g| !t.iter().any(|x| x.public == g.public)) || t.len() > good.len();
                    }
                }
                _ => {
                    let l = list.clone();
                    let mine = own.clone();
                    let seen: Arc<std::sync::Mutex<Vec<Vec<u8>>>> = Default::default();
                    let sn = seen.clone();
                    s.set(answering(move |d| {
                        sn.lock().unwrap().push(d.to_vec());
                        let mut l = l.clone();
                        l.push(Raw { kind: 0, node: mine.clone() });
                        Some(raws(W::new().u32(id::OV_NODES), &l).done())
                    }));
                    let (oo, a, p) = (o.o.clone(), n.n.adnl.clone(), sid(&s.me.short));
                    let mut r = None;
                    for _ in 0..3 {
                        let (oo, a) = (oo.clone(), a.clone());
                        r = run_node(async move { oo.exchange_random_peers(&a, &p, Some(2000)).await }).await;
                        if matches!(r, Some(Ok(None))) {
                            continue;
                        }
                        break;
                    }
                    match r {
                        Some(Ok(Some(v))) => {
                            let v: HashSet<[u8; 32]> = v.iter().map(|x| *x.as_slice()).collect();
                            if v.contains(&n.me().short) {
                                ctx.violation("self", "an exchange reports the node itself as a new peer");
                            }
                            missing |= good.iter().any(|g| !v.contains(&g.short)) || v.len() > good.len();
                        }
                        Some(Ok(None)) => {}
                        Some(Err(_)) => missing |= bad.kind == 0,
                        None => {}
                    }
                    for q in seen.lock().unwrap().iter() {
                        let p = W::new().u32(id::OV_QUERY).raw(&ov).u32(id::OV_GET_RANDOM).done();
                        let ok = q.strip_prefix(&p[..]).and_then(|x| {
                            let mut y = id::OV_NODES.to_le_bytes().to_vec();
                            y.extend_from_slice(x);
                            read_onodes(&y).ok()
                        });
                        match ok {
                            Some(v) => check_list(ctx, &n, &o, &v, None, "query of an exchange"),
                            None => ctx.violation("list", "the query of an exchange is not as the scheme says"),
                        }
                    }
                }
            }
            if missing && !ctx.violated() {
                ctx.violation("refused", format!("genuine records beside an invalid one were not accepted or others were: {what}"));
            }
            for b in [bad_id, who.short] {
                if o.o.is_known_peer(&sid(&b)) || o.o.is_active_public_peer(&sid(&b)) {
                    ctx.violation("member", format!("a peer with an invalid record became a member: {what}"));
                }
            }
            ctx.count("mutated", 1);
            ctx.count("genuine", good.len() as u64);
            ctx.case((MUT[k], way));
            if ctx.violated() {
                return;
            }
        }
    }
    // itself, under its own or another address, and somebody else at its own address
    for (r, a, what) in [
        (own.clone(), n.n.addr(), "itself"),
        (own.clone(), next_addr(rng), "itself at another address"),
        (ONode::new(&Ident::gen(rng), ov, unix_now()), n.n.addr(), "a peer at the node's own address"),
    ] {
        let r = Raw { kind: 0, node: r };
        let x = on_node(|| o.o.add_public_peer(&n.n.adnl, a, offer(&r)));
        let y = on_node(|| o.o.add_public_peers(&n.n.adnl, vec![(a, offer(&r))]));
        let i = sid(&short_id(&r.node.public));
        if matches!(x, Ok(Some(_))) || y.is_ok_and(|y| !y.is_empty()) || o.o.is_known_peer(&i) || o.o.is_active_public_peer(&i) {
            ctx.violation("self", format!("the node added {what}"));
        }
        ctx.case(("self", what));
    }
    let dst = adnl::PeersSet::with_capacity(1000);
    o.o.write_cached_peers(1000, &dst);
    if dst.iter().any(|p| bad_ids.contains(p.as_slice()) || p.as_slice() == &n.me().short) {
        ctx.violation("member", "a peer with an invalid record (or the node itself) is among the cached peers");
    }
}

/// A list of members the node sends.
fn check_list(ctx: &C, n: &OvNode, o: &Ov, v: &[ONode], removed: Option<&HashSet<[u8; 32]>>, what: &str) {
    ctx.count("lists", 1);
    if v.len() > 5 {
        ctx.violation("list", format!("a list of {} members was sent: {what}", v.len()));
    }
    if v.first().map(|x| x.public) != Some(n.me().public) {
        ctx.violation("list", format!("the first member of a list is not the node itself: {what}"));
    }
    let mut seen = HashSet::new();
    for x in v {
        if !x.valid() || x.overlay != o.id {
            ctx.violation("list", format!("a list contains an invalid record: {what}"));
        }
        if !seen.insert(x.public) {
            ctx.violation("list", format!("a list names a member twice: {what}"));
        }
        let i = short_id(&x.public);
        if x.public != n.me().public && !o.o.is_active_public_peer(&sid(&i)) {
            ctx.violation("list", format!("a list contains somebody who is no member: {what}"));
        }
        if removed.is_some_and(|r| r.contains(&i)) {
            ctx.violation("removed", format!("a removed member is in a list: {what}"));
        }
    }
}

// ---------------------------------------------------------------- removal

async fn removal(ctx: &C, rng: &mut SmallRng, round: u64) {
    let ov = rand32(rng);
    let n = OvNode::start(rng);
    let opts = overlay::OverlayOptions {
        max_neighbours: [3, 8, 200, 1, 6][(round % 5) as usize],
        overlay_peers_timeout_ms: [50, 60_000][rng.gen_range(0..2)],
        broadcast_gc_interval_ms: 30,
        ..Default::default()
    };
    let o = n.public(&ov, opts);
    let mut members = Vec::new();
    for _ in 0..8 {
        members.push(member(rng, &n, &o).await);
    }
    let src = member(rng, &n, &o).await;
    let asker = stranger(rng, &n).await;
    let mut removed: HashSet<usize> = HashSet::new();
    let mut trace = String::new();
    for step in 0..14 {
        // add or remove (not all of them)
        let i = rng.gen_range(0..members.len());
        let who = sid(&members[i].me.short);
        let mut back: Option<usize> = None;
        if removed.contains(&i) && rng.gen_bool(0.6) {
            if !o.add(&members[i].me, members[i].addr) {
                ctx.violation("refused", format!("a removed member cannot be added again; {trace}"));
            }
            removed.remove(&i);
            back = Some(i);
            trace.push_str(&format!("+{i} "));
        } else if removed.len() < 6 {
            let fresh = !removed.contains(&i);
            if o.o.remove_public_peer(&who) != fresh {
                ctx.violation("removed", format!("remove_public_peer does not say whether the member was there; {trace}-{i}"));
            }
            removed.insert(i);
            trace.push_str(&format!("-{i} "));
            ctx.count("removals", fresh as u64);
        }
        if !removed.is_empty() && rng.gen_range(0..4) == 0 {
            // time for periodic changes of neighbours
            sleep_ms(200).await;
        }
        let ids: HashSet<[u8; 32]> = removed.iter().map(|i| members[*i].me.short).collect();
        for (j, m) in members.iter().enumerate() {
            if o.o.is_active_public_peer(&sid(&m.me.short)) == removed.contains(&j) {
                ctx.violation("removed", format!("is_active_public_peer is wrong; {trace}"));
            }
            if !o.o.is_known_peer(&sid(&m.me.short)) {
                ctx.violation("removed", format!("a member which once was there is not known any more; {trace}"));
            }
            m.barrier().await;
            m.log.lock().unwrap().clear();
        }
        // one that never was a member is not in, removed or not
        let never = sid(&Ident::gen(rng).short);
        let first = o.o.remove_public_peer(&never);
        if o.o.remove_public_peer(&never) || o.o.is_known_peer(&never) || o.o.is_active_public_peer(&never) {
            ctx.violation("removed", format!("a peer that never was a member: first removal {first}, known {}, active {}; {trace}", o.o.is_known_peer(&never), o.o.is_active_public_peer(&never)));
        }
        // peer exchange
        for _ in 0..3 {
            if let Some(v) = asker.ask(get_random(&ov, &[])).await.and_then(|a| read_onodes(&a).ok()) {
                check_list(ctx, &n, &o, &v, Some(&ids), &trace);
            }
        }
        let dst = adnl::PeersSet::with_capacity(50);
        let want = rng.gen_range(1..20);
        o.o.write_cached_peers(want, &dst);
        if dst.iter().any(|p| ids.contains(p.as_slice())) {
            ctx.violation("removed", format!("a removed member is among the cached peers; {trace}"));
        }
        if dst.is_empty() || dst.len() > want as usize {
            ctx.violation("cached", format!("{} cached peers instead of up to {want}; {trace}", dst.len()));
        }
        // own broadcasts and relayed ones
        for b in 0..3 {
            let len = [50, 300, 2000][rng.gen_range(0..3)];
            let data = rand_bytes(rng, len);
            let inf = o.send(data);
            if inf.recipient_count == 0 || inf.recipient_count > 5 {
                ctx.violation("targets", format!("a broadcast has {} targets although there are members; {trace}", inf.recipient_count));
            }
            ctx.count("own_broadcasts", 1);
            let data = rand_bytes(rng, if b == 1 { 1200 } else { 100 });
            if b == 1 {
                for p in parts(&src.me, &data, 2) {
                    src.send(Msg::Custom(p.ser(&ov)));
                }
            } else {
                src.send(Msg::Custom(Bcast::new(&src.me, ANY, &data, unix_now()).ser(&ov)));
            }
        }
        src.barrier().await;
        // parts of own broadcasts are sent in the background
        sleep_ms(60).await;
        for (j, m) in members.iter().enumerate() {
            if removed.contains(&j) {
                m.barrier().await;
                if !heard(m).is_empty() {
                    ctx.violation("removed", format!("a removed member ({j}) got {} broadcast messages (at most {} neighbours); {trace}", heard(m).len(), opts.max_neighbours));
                }
                if m.queries(|q| q.starts_with(&id::OV_QUERY.to_le_bytes())) > 0 {
                    ctx.violation("removed", format!("a removed member is asked for peers; {trace}"));
                }
            }
        }
        // who came back is used again, if there is room for all
        if let (Some(j), true) = (back, opts.max_neighbours >= 200) {
            let mut used = false;
            for _ in 0..80 {
                let d = rand_bytes(rng, 20);
                o.send(d);
                sleep_ms(3).await;
                if !heard(&members[j]).is_empty() {
                    used = true;
                    break;
                }
            }
            if !used {
                members[j].barrier().await;
                if heard(&members[j]).is_empty() {
                    ctx.violation("unused", format!("a member that was added again is never sent a broadcast; {trace}"));
                }
            }
        }
        ctx.case(("removal", opts.max_neighbours, removed.len(), back.is_some(), step.min(3), opts.overlay_peers_timeout_ms));
        if ctx.violated() {
            return;
        }
    }
    ctx.sample(trace.into());
}

// ---------------------------------------------------------------- separation

async fn isolation(ctx: &C, rng: &mut SmallRng) {
    let n = OvNode::start(rng);
    let ids: Vec<[u8; 32]> = (0..3).map(|_| rand32(rng)).collect();
    let mut ovs: Vec<Ov> = ids.iter().map(|i| n.public(i, Default::default())).collect();
    // a private one
    let pid = rand32(rng);
    let pm = stranger(rng, &n).await;
    ovs.push(n.private(&pid, &[pm.me.short], Default::default()));
    let mut members: Vec<Vec<Serve>> = Vec::new();
    for o in &ovs[..3] {
        let mut v = Vec::new();
        for _ in 0..3 {
            v.push(member(rng, &n, o).await);
        }
        members.push(v);
    }
    members.push(vec![pm]);
    // one peer which is a member of the first two
    let both = member(rng, &n, &ovs[0]).await;
    ovs[1].add(&both.me, both.addr);
    let recs: Vec<Arc<Rec>> = (0..4)
        .map(|i| {
            Rec::new(move |e| {
                let mut a = vec![i as u8; 4];
                a.extend(echo_answer(&e.data));
                Act::Answer(Some(a))
            })
        })
        .collect();
    // the third overlay has no subscriber
    for i in [0, 1, 3] {
        if !n.ov.add_overlay_subscriber(oid(&ovs[i].id), recs[i].clone()) {
            ctx.violation("subscriber", "the first subscriber of an overlay was refused");
        }
    }
    if n.ov.add_overlay_subscriber(oid(&ovs[0].id), recs[2].clone()) {
        ctx.violation("subscriber", "a second subscriber of an overlay replaced the first");
    }
    for (i, o) in ovs.iter().enumerate() {
        match n.ov.get_overlay(&oid(&o.id)) {
            Ok(x) if Arc::ptr_eq(&x, &o.o) => {}
            _ => ctx.violation("lookup", format!("overlay {i} is not found under its id")),
        }
        // adding it again gives the same one
        let (x, new) = on_node(|| n.ov.add_public_overlay(&oid(&o.id), Default::default()));
        if new || !Arc::ptr_eq(&x, &o.o) {
            ctx.violation("lookup", "an existing overlay was replaced");
        }
    }
    let unknown = rand32(rng);
    if n.ov.get_overlay(&oid(&unknown)).is_ok() {
        ctx.violation("lookup", "an overlay that was never added is found");
    }
    // ---- queries
    for _ in 0..12 {
        let i = rng.gen_range(0..5usize);
        let id = if i < 4 { ids.get(i).copied().unwrap_or(pid) } else { unknown };
        let s = &members[rng.gen_range(0..4usize)][0];
        let l = rng.gen_range(4..40);
        let q = rand_bytes(rng, l);
        let before: Vec<usize> = recs.iter().map(|r| r.len()).collect();
        let full = W::new().u32(self::id::OV_QUERY).raw(&id).raw(&q).done();
        let served = matches!(i, 0 | 1 | 3);
        let a = if served { s.ask(full).await } else { s.query(full, Duration::from_millis(150)).await };
        s.barrier().await;
        if served {
            let mut want = vec![i as u8; 4];
            want.extend(echo_answer(&q));
            if a.as_deref() != Some(&want[..]) {
                ctx.violation("query", format!("a query to overlay {i} is answered by {:?} instead of its subscriber", a.map(|a| a.first().copied())));
            }
        } else if a.is_some() {
            ctx.violation("query", format!("a query to an overlay without a subscriber ({i}) is answered"));
        }
        for (j, r) in recs.iter().enumerate() {
            let new: Vec<Ev> = r.events.lock().unwrap()[before[j]..].to_vec();
            if j != i && !new.is_empty() {
                ctx.violation("query", format!("a query to overlay {i} reached the subscriber of overlay {j}"));
            }
            if new.iter().any(|e| e.data != q || e.peer != s.me.short || e.local != n.me().short) {
                ctx.violation("query", "the subscriber of an overlay got another query or peer");
            }
        }
        ctx.count("crossings", 1);
        ctx.case(("query", i));
    }
    if n.n.rec.len() > 0 && n.n.rec.count(|e| e.query && e.data.starts_with(&self::id::OV_QUERY.to_le_bytes())) > 0 {
        // a plain subscriber may be offered what no overlay takes; nothing to check
        ctx.count("offered", 1);
    }
    // ---- what the overlay sends
    for (i, o) in ovs.iter().enumerate() {
        let s = &members[i][0];
        s.set(answering(|d| Some(echo_answer(d))));
        s.log.lock().unwrap().clear();
        let l = rng.gen_range(4..900);
        let q = rand_bytes(rng, l);
        let want = W::new().u32(self::id::OV_QUERY).raw(&o.id).raw(&q).done();
        let (oo, a, p, qq) = (o.o.clone(), n.n.adnl.clone(), sid(&s.me.short), q.clone());
        let r = run_node(async move { oo.adnl_query(&a, &p, tl_proto::RawBytes::<tl_proto::Boxed>::new(&qq), Some(3000)).await }).await;
        match r {
            Some(Ok(Some(x))) if x == echo_answer(&want) => {}
            Some(Ok(None)) => {}
            _ => ctx.violation("query", "a query through an overlay does not return the answer as it was given"),
        }
        if s.queries(|d| d != &want[..] && !d.starts_with(&self::id::PING.to_le_bytes())) > 0 {
            ctx.violation("query", "a query through an overlay does not carry the overlay's id and the query");
        }
        let m = rand_bytes(rng, l);
        let want = W::new().u32(self::id::OV_MESSAGE).raw(&o.id).raw(&m).done();
        on_node(|| o.o.send_message(&n.n.adnl, &sid(&s.me.short), &m)).ok();
        if !eventually(Duration::from_secs(2), || s.customs().contains(&want)).await {
            on_node(|| o.o.send_message(&n.n.adnl, &sid(&s.me.short), &m)).ok();
            if !eventually(Duration::from_secs(2), || s.customs().contains(&want)).await {
                ctx.violation("message", "a message through an overlay does not carry the overlay's id and the data");
            }
        }
        s.set(|_| vec![]);
        ctx.count("crossings", 2);
        ctx.case(("out", i));
    }
    // ---- broadcasts: delivered and relayed in their overlay only
    for m in members.iter().flatten().chain([&both]) {
        m.barrier().await;
        m.log.lock().unwrap().clear();
    }
    let mut sent: Vec<(usize, Vec<u8>)> = Vec::new();
    for k in 0..30usize {
        let i = rng.gen_range(0..5usize);
        let id = if i < 4 { ids.get(i).copied().unwrap_or(pid) } else { unknown };
        let data = rand_bytes(rng, if k % 3 == 0 { 1500 } else { 60 });
        // whoever brings it
        let s = &members[rng.gen_range(0..4usize)][0];
        let who = Ident::gen(rng);
        if k % 5 == 4 && i < 4 {
            ovs[i].send(data.clone());
        } else if k % 3 == 0 {
            for p in parts(&who, &data, 3) {
                s.send(Msg::Custom(p.ser(&id)));
            }
        } else {
            s.send(Msg::Custom(Bcast::new(&who, ANY, &data, unix_now()).ser(&id)));
        }
        s.barrier().await;
        if i < 4 && k % 5 != 4 {
            sent.push((i, data));
        } else if i == 4 {
            sent.push((99, data));
        }
        ctx.count("crossings", 1);
        ctx.case(("broadcast", i, k % 3 == 0));
    }
    sleep_ms(200).await;
    for (i, d) in &sent {
        for (j, o) in ovs.iter().enumerate() {
            if j != *i && o.count(d) > 0 {
                ctx.violation("broadcast", format!("a broadcast of overlay {i} was delivered in overlay {j}"));
            }
        }
    }
    let mut arrived = 0;
    for (i, d) in &sent {
        arrived += (*i < 4 && ovs[*i].count(d) == 1) as u64;
    }
    ctx.count("isolated_deliveries", arrived);
    for (i, v) in members.iter().enumerate() {
        for m in v {
            m.barrier().await;
            if heard(m).iter().any(|(o, _)| *o != ovs[i].id) {
                ctx.violation("relay", format!("a member of overlay {i} only got a broadcast of another one"));
            }
        }
    }
    both.barrier().await;
    if heard(&both).iter().any(|(o, _)| *o != ids[0] && *o != ids[1]) {
        ctx.violation("relay", "a member of overlays 0 and 1 got a broadcast of another one");
    }
    // ---- peers
    for _ in 0..10 {
        let i = rng.gen_range(0..3usize);
        let s = &members[rng.gen_range(0..4usize)][0];
        let who = Ident::gen(rng);
        let l = [Raw { kind: 0, node: ONode::new(&who, ids[i], unix_now()) }, Raw { kind: 0, node: ONode::new(&Ident::gen(rng), ids[(i + 1) % 3], unix_now()) }];
        let Some(v) = s.ask(get_random(&ids[i], &l)).await.and_then(|a| read_onodes(&a).ok()) else {
            ctx.violation("no list", "a query for members is not answered by a list");
            return;
        };
        check_list(ctx, &n, &ovs[i], &v, None, "several overlays");
        let mine: HashSet<[u8; 32]> = members[i].iter().chain([&both]).map(|m| m.me.public).chain([n.me().public]).collect();
        if v.iter().any(|x| !mine.contains(&x.public)) {
            ctx.violation("list", "a list of members names a peer of another overlay");
        }
        for (j, o) in ovs.iter().enumerate() {
            let t = taken(o);
            if j != i && !t.is_empty() || j == i && (t.len() > 1 || t.iter().any(|x| x.public != who.public)) {
                ctx.violation("new peer", format!("peers offered to overlay {i} are reported in overlay {j}"));
            }
        }
        ctx.count("crossings", 1);
        ctx.case(("peers", i));
    }
    for (i, v) in members.iter().enumerate() {
        for (j, o) in ovs.iter().enumerate() {
            if i != j && v.iter().any(|m| o.o.is_known_peer(&sid(&m.me.short))) {
                ctx.violation("member", format!("a member of overlay {i} is known in overlay {j}"));
            }
        }
    }
    // asking an unknown one
    if members[0][0].query(get_random(&unknown, &[]), Duration::from_millis(200)).await.is_some() {
        ctx.violation("list", "members of an unknown overlay were sent");
    }
}

/// Peers told several times: the newest record of each is reported, once.
async fn told_again(ctx: &C, rng: &mut SmallRng) {
    let ov = rand32(rng);
    let n = OvNode::start(rng);
    let o = n.public(&ov, Default::default());
    let askers = [stranger(rng, &n).await, member(rng, &n, &o).await];
    let base = unix_now() - 1000;
    for _ in 0..3 {
        let people: Vec<Ident> = (0..5).map(|_| Ident::gen(rng)).collect();
        let mut newest: std::collections::HashMap<[u8; 32], ONode> = Default::default();
        let mut complete = true;
        for _ in 0..6 {
            let mut list = Vec::new();
            for _ in 0..rng.gen_range(1..5) {
                let who = &people[rng.gen_range(0..5usize)];
                let r = ONode::new(who, ov, base + rng.gen_range(0..900u32));
                let e = newest.entry(who.public).or_insert_with(|| r.clone());
                if e.version < r.version {
                    *e = r.clone();
                }
                list.push(r);
            }
            let q = onodes_bare(W::new().u32(id::OV_QUERY).raw(&ov).u32(id::OV_GET_RANDOM), &list).done();
            complete &= askers[rng.gen_range(0..2usize)].query(q, Duration::from_secs(5)).await.is_some();
        }
        let got = taken(&o);
        let distinct: HashSet<[u8; 32]> = got.iter().map(|x| x.public).collect();
        if distinct.len() != got.len() {
            ctx.violation("new peer", "a peer told several times is reported twice");
        }
        for x in &got {
            match newest.get(&x.public) {
                Some(y) if x == y => {}
                Some(y) => ctx.violation("old", format!("a peer told with versions up to {} is reported with {}", y.version, x.version)),
                None => ctx.violation("new peer", "a peer that was not told is reported as a new one"),
            }
        }
        if complete && distinct.len() != newest.len() {
            ctx.violation("lost", format!("{} of {} peers told are reported as new ones", distinct.len(), newest.len()));
        }
        if complete && !taken(&o).is_empty() {
            ctx.violation("new peer", "new peers are reported again although nobody told any");
        }
        ctx.count("told_again", 1);
        ctx.case(("told again", newest.len()));
    }
}

/// A peer that is removed while, or right after, it is added again is gone.
async fn remove_race(ctx: &C, rng: &mut SmallRng) {
    let ov = rand32(rng);
    let n = OvNode::start(rng);
    let o = Arc::new(n.public(&ov, Default::default()));
    let who = Ident::gen(rng);
    let addr = next_addr(rng);
    let rec = Arc::new(ONode::new(&who, ov, unix_now()));
    let id = sid(&who.short);
    o.add_rec(&rec, addr).expect("add peer");
    let trials = ctx.pick(150, 1000);
    for k in 0..trials {
        let done = Arc::new(AtomicBool::new(false));
        let (o1, rec, d1) = (o.clone(), rec.clone(), done.clone());
        let add = tokio::task::spawn_blocking(move || {
            let r = o1.add_rec(&rec, addr).is_ok();
            d1.store(true, Ordering::SeqCst);
            r
        });
        let (o2, d2) = (o.clone(), done.clone());
        let remove = tokio::task::spawn_blocking(move || {
            let mut tries = 0u64;
            loop {
                let last = d2.load(Ordering::SeqCst) || tries > 50_000_000;
                o2.o.remove_public_peer(&id);
                tries += 1;
                if last {
                    return;
                }
            }
        });
        let _g = ctx.op("add and remove");
        if add.await.ok() != Some(true) || remove.await.is_err() {
            // panics are reported by their monitor
            return;
        }
        if o.o.is_active_public_peer(&id) {
            ctx.violation("still active", "a peer is active although its removal was the last call");
            return;
        }
        let left = o.o.metrics().neighbours;
        let sent = if left > 0 || k % 50 == 0 { o.send(format!("remove race {k}").into_bytes()).recipient_count } else { 0 };
        ctx.count("removed_while_added", 1);
        if left > 0 || sent > 0 {
            ctx.violation("still used", format!("a peer removed while it was being added is no member any more, but {left} neighbours are left and a broadcast is sent to {sent} peers"));
            return;
        }
    }
    ctx.case(("remove race", trials));
}

// ---------------------------------------------------------------- exchange between nodes

async fn exchange(ctx: &C, rng: &mut SmallRng) {
    let ov = rand32(rng);
    let (a, b) = (OvNode::start(rng), OvNode::start(rng));
    let (oa, ob) = (a.public(&ov, Default::default()), b.public(&ov, Default::default()));
    oa.add(b.me(), b.n.addr());
    ob.add(a.me(), a.n.addr());
    let mut ka: HashSet<[u8; 32]> = HashSet::from([b.me().short]);
    let mut kb: HashSet<[u8; 32]> = HashSet::from([a.me().short]);
    let mut gone: HashSet<[u8; 32]> = HashSet::new();
    let mut versions: std::collections::HashMap<[u8; 32], u32> = Default::default();
    for i in 0..rng.gen_range(2..14) {
        let p = Ident::gen(rng);
        let addr = next_addr(rng);
        let v = unix_now() - 100 + i;
        let mut top = 0;
        // several versions, the newest of which is to be shared
        for _ in 0..rng.gen_range(1..4) {
            let v = v + rng.gen_range(0..50u32);
            top = top.max(v);
            let rec = ONode::new(&p, ov, v);
            ob.add_rec(&rec, addr).ok();
        }
        versions.insert(p.public, top);
        kb.insert(p.short);
        if rng.gen_range(0..4) == 0 {
            ob.o.remove_public_peer(&sid(&p.short));
            gone.insert(p.short);
        } else if rng.gen_range(0..3) == 0 {
            oa.add(&p, addr);
            ka.insert(p.short);
        }
    }
    let mut found: HashSet<[u8; 32]> = HashSet::new();
    for k in 0..12 {
        let (o, ad, p) = (oa.o.clone(), a.n.adnl.clone(), sid(&b.me().short));
        let ext = k % 3 == 2;
        let r = run_node(async move {
            if ext {
                o.exchange_random_peers_ext(&ad, &p, Some(3000), &()).await
            } else {
                o.exchange_random_peers(&ad, &p, Some(3000)).await
            }
        })
        .await;
        let Some(Ok(Some(v))) = r else { continue };
        ctx.count("exchanged", 1);
        for x in &v {
            let x = *x.as_slice();
            if x == a.me().short {
                ctx.violation("self", "an exchange reports the node itself");
            }
            if !kb.contains(&x) && x != b.me().short {
                ctx.violation("new peer", "an exchange reports a peer the other node does not have");
            }
            if gone.contains(&x) {
                ctx.violation("removed", "a member removed by the other node was exchanged");
            }
            if !ext && ka.contains(&x) {
                ctx.violation("new peer", "an exchange reports a peer that is already known as new");
            }
            found.insert(x);
        }
        // the other side learnt about us
        let t = taken(&ob);
        for x in &t {
            if !x.valid() || x.overlay != ov {
                ctx.violation("new peer", "an exchange gave the other node an invalid record");
            }
            let s = short_id(&x.public);
            if s != a.me().short && !ka.contains(&s) {
                ctx.violation("new peer", "an exchange gave the other node an unknown peer");
            }
            if s == b.me().short {
                ctx.violation("self", "a node reports itself as a new peer");
            }
        }
        if !t.iter().any(|x| x.public == a.me().public) {
            ctx.violation("lost", "the other node does not report the peer that asked as a new one");
        }
        ctx.case(("exchange", ext, kb.len(), t.len()));
    }
    // the newest versions are shared
    let s = stranger(rng, &b).await;
    for _ in 0..6 {
        if let Some(v) = s.ask(get_random(&ov, &[])).await.and_then(|x| read_onodes(&x).ok()) {
            check_list(ctx, &b, &ob, &v, Some(&gone), "exchange");
            for x in &v {
                if versions.get(&x.public).is_some_and(|t| *t > x.version) {
                    ctx.violation("old", "an outdated record of a member is shared although a newer one was added");
                }
            }
        }
    }
    let new: HashSet<_> = kb.iter().filter(|x| !ka.contains(*x) && !gone.contains(*x) && **x != a.me().short).collect();
    let fresh = new.iter().filter(|x| found.contains(**x)).count();
    if new.len() >= 2 && fresh == 0 {
        ctx.violation("lost", format!("none of {} new members is ever found by exchanging", new.len()));
    }
    let _ = found;
}
