//! C28: overlay sends and stacked layers reach exactly whom they are meant for.
use std::collections::{HashMap, HashSet};
use std::net::Ipv4Addr;
use std::sync::Arc;
use std::time::Duration;

use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
use everscale_network::{adnl, dht, overlay, rldp, NetworkBuilder};
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::dhtw::*;
use crate::nodes::*;
use crate::overw::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one query sent through an overlay or a layer of a built stack, one broadcast to chosen targets, one exchange of peers or one signed entry; non-trivial because who received what from whom, and what came back, is compared with what was asked for; distinct by kind, size class, layer, number of targets and outcome");
    let mut rng = ctx.rng(28);
    let mut round = 0u64;
    while ctx.within(32, 600) && (round < 12 || !ctx.quick()) {
        let mut rngs: Vec<SmallRng> = (0..3).map(|i| ctx.rng(rng.gen::<u64>() ^ i)).collect();
        let (mut c, mut b, mut a) = (rngs.pop().unwrap(), rngs.pop().unwrap(), rngs.pop().unwrap());
        tokio::join!(stack(&ctx, &mut a, round), stack(&ctx, &mut b, round), async {
            targets(&ctx, &mut c, round).await;
            filters(&ctx, &mut c, round).await;
            entries(&ctx, &mut c).await;
            built(&ctx, &mut c).await;
        });
        if ctx.violated() {
            break;
        }
        round += 1;
    }
    ctx.require("overlay_queries", 60);
    ctx.require("rldp_overlay_queries", 60);
    ctx.require("not_served", 15);
    ctx.require("layer_queries", 40);
    ctx.require("broadcasts_to_targets", 40);
    ctx.require("exchanges", 30);
    ctx.require("entries", 30);
    ctx.require("typed_queries", 60);
    ctx.check_panics("overlay sends");
}

/// A node with all layers, made by the builder, its layers under chosen keys.
struct Stack {
    idents: Vec<Ident>,
    adnl: Arc<adnl::Node>,
    rldp: Arc<rldp::Node>,
    dht: Arc<dht::Node>,
    ov: Arc<overlay::Node>,
    /// RLDP queries without an overlay
    plain: Arc<Rec>,
    dht_tag: usize,
    ov_tag: usize,
}
impl Drop for Stack {
    fn drop(&mut self) {
        self.adnl.shutdown();
    }
}
impl Stack {
    fn new(rng: &mut SmallRng) -> Self {
        let idents: Vec<Ident> = (0..3).map(|_| Ident::gen(rng)).collect();
        let (dht_tag, ov_tag) = (rng.gen_range(0..3), rng.gen_range(0..3));
        // leaves overlay queries to the overlay layer
        let plain = Rec::new(|e| match e.data[..4] == id::OV_QUERY.to_le_bytes() {
            true => Act::Reject,
            false => Act::Answer(Some(echo_answer(&e.data))),
        });
        let dht_first: bool = rng.gen();
        let b = NetworkBuilder::with_adnl((Ipv4Addr::LOCALHOST, 0), keystore(&idents), default_opts());
        let subs: Vec<Arc<dyn everscale_network::QuerySubscriber>> = vec![plain.clone()];
        let (adnl, rldp, dht, ov) = on_node(|| {
            if dht_first {
                let (a, d, r, o) = b.with_dht(dht_tag, Default::default()).with_rldp_ext(Default::default(), subs).with_overlay(ov_tag).build().expect("stack");
                (a, r, d, o)
            } else {
                let (a, r, o, d) = b.with_rldp_ext(Default::default(), subs).with_overlay(ov_tag).with_dht(dht_tag, Default::default()).build().expect("stack");
                (a, r, d, o)
            }
        });
        Self { idents, adnl, rldp, dht, ov, plain, dht_tag, ov_tag }
    }
    fn id(&self, tag: usize) -> [u8; 32] {
        self.idents[tag].short
    }
    /// Key `tag` knows key `ot` of the other.
    fn know(&self, tag: usize, o: &Stack, ot: usize) {
        self.adnl
            .add_peer(adnl::NewPeerContext::Dht, &sid(&self.id(tag)), &sid(&o.id(ot)), o.adnl.socket_addr(), fid(&o.idents[ot].public))
            .expect("peer");
    }
}

fn marked(mark: u8) -> Arc<Rec> {
    Rec::new(move |e| {
        if e.data.len() % 16 == 7 {
            return Act::Answer(None);
        }
        let mut a = vec![mark; 4];
        a.extend(echo_answer(&e.data));
        Act::Answer(Some(a))
    })
}
fn expected(mark: u8, q: &[u8]) -> Vec<u8> {
    let mut a = vec![mark; 4];
    a.extend(echo_answer(q));
    a
}

async fn stack(ctx: &C, rng: &mut SmallRng, round: u64) {
    let (a, b) = (Stack::new(rng), Stack::new(rng));
    for i in 0..3 {
        for j in 0..3 {
            a.know(i, &b, j);
        }
    }
    // layers without a key for their tag
    let ks = keystore(&a.idents);
    let bad = on_node(|| NetworkBuilder::with_adnl((Ipv4Addr::LOCALHOST, 0), ks, default_opts()).with_rldp(Default::default()).with_overlay(7).build().is_ok());
    if bad {
        ctx.violation("built", "a stack was built although there is no key under the overlay's tag");
    }
    // 0, 1: served by different subscribers; 2: without a subscriber; 3: only at the asking node; 4: private, under another key
    let ids: Vec<[u8; 32]> = (0..5).map(|_| rand32(rng)).collect();
    let recs: Vec<Arc<Rec>> = (0..5).map(|i| marked(i as u8 + 1)).collect();
    let ptag = rng.gen_range(0..3usize);
    let mut ovs = Vec::new();
    for (i, id) in ids.iter().enumerate() {
        let key = a.adnl.key_by_tag(ptag).unwrap().clone();
        let (o, new) = on_node(|| {
            if i == 4 {
                a.ov.add_private_overlay(&oid(id), key.clone(), &[sid(&b.id(0))], Default::default())
            } else {
                a.ov.add_public_overlay(&oid(id), Default::default())
            }
        });
        if !new || *o.id().as_slice() != *id {
            ctx.violation("built", "a new overlay is not new or has another id");
        }
        let tag = if i == 4 { ptag } else { a.ov_tag };
        if *o.overlay_key().id().as_slice() != a.id(tag) {
            ctx.violation("sender", "an overlay has not the key it was made with");
        }
        // again: nothing changes
        if i == 4 {
            let other = a.adnl.key_by_tag((ptag + 1) % 3).unwrap().clone();
            let (x, new) = on_node(|| a.ov.add_private_overlay(&oid(id), other, &[], Default::default()));
            if new || !Arc::ptr_eq(&x, &o) || *x.overlay_key().id().as_slice() != a.id(ptag) {
                ctx.violation("replaced", "a private overlay was replaced by adding it again");
            }
        }
        ovs.push(o);
        if i != 3 {
            on_node(|| b.ov.add_public_overlay(&oid(id), Default::default()));
        }
        if i < 2 || i == 4 {
            b.ov.add_overlay_subscriber(oid(id), recs[i].clone());
        }
    }
    if a.ov.metrics().map(|(i, _)| *i.as_slice()).collect::<HashSet<_>>() != ids.iter().copied().collect() {
        ctx.violation("metrics", "the metrics are not those of the node's overlays");
    }
    let mut tasks = Vec::new();
    for k in 0..18usize {
        let i = rng.gen_range(0..5usize);
        let over_rldp = k % 2 == 0;
        let len = match rng.gen_range(0..4) {
            0 => rng.gen_range(4..20),
            1 => rng.gen_range(700..800),
            2 => rng.gen_range(1000..3000),
            _ => rng.gen_range(5000..if over_rldp { 60_000 } else { 9000 }),
        };
        let mut q = match rng.gen() {
            true => rand_bytes(rng, len),
            false => vec![rng.gen(); len],
        };
        q[..4].copy_from_slice(&rng.gen::<[u8; 4]>());
        let to = rng.gen_range(0..3usize);
        let peer = sid(&b.id(to));
        let (ctx, o, ad, rl) = (ctx.clone(), ovs[i].clone(), a.adnl.clone(), a.rldp.clone());
        let served = i < 2 || i == 4;
        let from = a.id(if i == 4 { ptag } else { a.ov_tag });
        let want = (served && q.len() % 16 != 7).then(|| expected(i as u8 + 1, &q));
        let (rec, at) = (recs[i].clone(), b.id(to));
        let tries = if served { 6 } else { 1 };
        tasks.push(tokio::spawn(async move {
            let _g = ctx.op("overlay query");
            let mut got = None;
            for _ in 0..tries {
                let (o, ad, rl, q2) = (o.clone(), ad.clone(), rl.clone(), q.clone());
                let r = run_node(async move {
                    let raw = tl_proto::RawBytes::<tl_proto::Boxed>::new(&q2);
                    if over_rldp {
                        o.rldp_query(&rl, &peer, raw, Some(if served { 1500 } else { 200 })).await.map(|x| x.0)
                    } else {
                        o.adnl_query(&ad, &peer, raw, Some(if served { 2000 } else { 200 })).await
                    }
                })
                .await;
                if let Some(Ok(Some(a))) = r {
                    got = Some(a);
                    break;
                }
                if want.is_none() && served && rec.count(|e| e.data == q) > 0 {
                    break;
                }
            }
            let what = if over_rldp { "RLDP" } else { "ADNL" };
            match (&got, &want) {
                (Some(g), Some(w)) if g == w => {}
                (Some(_), Some(_)) => ctx.violation("answer", format!("an overlay query over {what} got another answer than its subscriber gave")),
                (Some(_), None) => ctx.violation("answer", format!("an overlay query over {what} that nobody answers got an answer (overlay {i})")),
                (None, Some(_)) => ctx.violation("unanswered", format!("an overlay query of {} bytes over {what} is not answered (overlay {i})", q.len())),
                (None, None) => {}
            }
            // (what is not consumed with an answer may still have been offered)
            let seen: Vec<Ev> = rec.events.lock().unwrap().iter().filter(|e| e.data == q).cloned().collect();
            if served && seen.is_empty() {
                ctx.violation("lost", format!("an overlay query over {what} did not reach the subscriber"));
            }
            for e in &seen {
                if e.peer != from {
                    ctx.violation("sender", format!("an overlay query over {what} was not sent under the overlay's key"));
                }
                if e.local != at {
                    ctx.violation("receiver", format!("an overlay query over {what} was received under another key"));
                }
            }
            ctx.count(if over_rldp { "rldp_overlay_queries" } else { "overlay_queries" }, 1);
            if !served {
                ctx.count("not_served", 1);
            }
            ctx.case(("overlay query", what, i, q.len() / 1000, got.is_some(), round % 2));
            q
        }));
    }
    let mut sent: HashSet<Vec<u8>> = HashSet::new();
    for t in tasks {
        if let Ok(q) = t.await {
            sent.insert(q);
        }
    }
    let mut by: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, r) in recs.iter().enumerate() {
        for e in r.events.lock().unwrap().iter() {
            if !sent.contains(&e.data) {
                ctx.violation("invented", "an overlay subscriber was offered something that was not sent");
            }
            if *by.entry(e.data.clone()).or_insert(i) != i {
                ctx.violation("crossed", "an overlay query was offered to subscribers of two overlays");
            }
        }
    }
    // plain RLDP queries and DHT pings under their keys
    for _ in 0..4 {
        let l = [4usize, 768, 4000, 30_000][rng.gen_range(0..4)];
        let q = rand_bytes(rng, l);
        let (f, t) = (rng.gen_range(0..3usize), rng.gen_range(0..3usize));
        let (r, q2, lf, lt) = (a.rldp.clone(), q.clone(), sid(&a.id(f)), sid(&b.id(t)));
        let mut ok = false;
        for _ in 0..5 {
            let (r, q2) = (r.clone(), q2.clone());
            if let Some(Ok((Some(x), _))) = run_node(async move { r.query(&lf, &lt, q2, None).await }).await {
                if x != echo_answer(&q) {
                    ctx.violation("answer", "an RLDP query through a built stack got another answer");
                }
                ok = true;
                break;
            }
        }
        if !ok {
            ctx.violation("unanswered", "an RLDP query through a built stack is not answered");
        }
        if b.plain.count(|e| e.data == q && (e.peer != a.id(f) || e.local != b.id(t))) > 0 {
            ctx.violation("sender", "an RLDP query through a built stack came from another key");
        }
        ctx.count("layer_queries", 1);
        ctx.case(("rldp", l));
    }
    let d = DNode::new(&b.idents[b.dht_tag], b.adnl.socket_addr(), unix_now());
    on_node(|| a.dht.add_dht_peer(d.tl())).ok();
    if *a.dht.key().id().as_slice() != a.id(a.dht_tag) {
        ctx.violation("sender", "the DHT layer has not the key of its tag");
    }
    let (dh, p) = (a.dht.clone(), sid(&b.id(b.dht_tag)));
    let mut ok = false;
    for _ in 0..5 {
        let dh = dh.clone();
        if run_node(async move { dh.ping(&p).await.unwrap_or(false) }).await == Some(true) {
            ok = true;
            break;
        }
    }
    if !ok {
        ctx.violation("unanswered", "a DHT ping between built stacks is not answered");
    }
    ctx.count("layer_queries", 1);
    ctx.case(("dht", a.dht_tag == b.dht_tag));
}

/// Broadcasts to given peers, signed with given keys.
async fn targets(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let packed = round % 2 == 1;
    let o = n.public(
        &id,
        OverlayOptions { force_compression: packed, broadcast_target_count: 2, fec_broadcast_wave_len: rng.gen_range(1..30), fec_broadcast_wave_interval_ms: 4, ..Default::default() },
    );
    let mut peers: Vec<Serve> = Vec::new();
    for _ in 0..3 {
        peers.push(member(rng, &n, &o).await);
    }
    for _ in 0..2 {
        // known, but not in the overlay
        peers.push(stranger(rng, &n).await);
    }
    let other = Ident::gen(rng);
    let other_key = keystore(&[other.clone()]).key_by_tag(0).unwrap().clone();
    for k in 0..4u32 {
        for p in &peers {
            p.barrier().await;
            p.log.lock().unwrap().clear();
        }
        let len = [20usize, 768, 769, 9000][k as usize];
        let mut data = match rng.gen() {
            true => rand_bytes(rng, len),
            false => vec![3u8; len],
        };
        data[..8].copy_from_slice(&rng.gen::<[u8; 8]>());
        let mut who: Vec<usize> = (0..peers.len()).collect();
        who.shuffle(rng);
        who.truncate(rng.gen_range(0..=peers.len()));
        let mut list: Vec<_> = who.iter().map(|i| sid(&peers[*i].me.short)).collect();
        let foreign = rng.gen_range(0..3) == 0;
        if foreign {
            // nobody known: the others must get it all the same
            let at = rng.gen_range(0..=list.len());
            list.insert(at, sid(&rand32(rng)));
        }
        let total = list.len();
        let source = rng.gen::<bool>();
        let src = if source { other.public } else { n.n.pk(0) };
        let info = on_node(|| o.o.broadcast(&o.adnl, data.clone(), source.then_some(&other_key), BroadcastTarget::Explicit(Arc::new(list.clone()))));
        if info.recipient_count != total {
            ctx.violation("recipients", format!("a broadcast to {total} given peers reports {} recipients", info.recipient_count));
        }
        let fec = len > 768;
        if !fec && info.packets != 1 {
            ctx.violation("packets", format!("an ordinary broadcast reports {} packets", info.packets));
        }
        let mine = |m: &Om| match m {
            Om::B(b) => b.src == src && verify(&b.src, &b.to_sign(&data), &b.sig),
            Om::F(p) => p.src == src && p.hash == sha256(&data),
            _ => false,
        };
        let need = |p: &Serve| -> bool {
            let h = heard(p);
            if !fec {
                return !h.is_empty();
            }
            let s: HashSet<u32> = h.iter().filter_map(|(_, m)| if let Om::F(p) = m { Some(p.seqno) } else { None }).collect();
            // enough to be decoded
            s.len() as u32 >= info.packets * 2 / 3
        };
        let ok = eventually(Duration::from_secs(4), || who.iter().all(|i| need(&peers[*i]))).await;
        sleep_ms(if fec { 60 } else { 20 }).await;
        for p in &peers {
            p.barrier().await;
        }
        if !ok {
            let dry = who.iter().filter(|i| heard(&peers[**i]).is_empty()).count();
            // one datagram may get lost
            if dry > 1 || fec {
                ctx.violation("left-out", format!("{dry} of {} given peers were sent nothing of a broadcast of {len} bytes, others not enough", who.len()));
            }
        }
        for (i, p) in peers.iter().enumerate() {
            let h = heard(p);
            if !who.contains(&i) && !h.is_empty() {
                ctx.violation("not-meant", format!("a peer that is not among the given ones was sent a broadcast of {len} bytes"));
            }
            let mut seen = HashSet::new();
            for (ov, m) in &h {
                if *ov != id || !mine(m) {
                    ctx.violation("sender", format!("a broadcast is not that of the overlay, of the given key or of the data (given key: {source}, {len} bytes)"));
                }
                if let Om::F(x) = m {
                    if !x.valid() || x.fec.0 != x.size || (!packed && x.size != len as u32) {
                        ctx.violation("part", "a part of a broadcast is not validly signed or of another size");
                    }
                    if x.seqno > info.packets {
                        ctx.violation("packets", format!("part {} of a broadcast which reports {} packets", x.seqno, info.packets));
                    }
                    if !seen.insert(x.seqno) {
                        ctx.violation("twice", "a part was sent to a peer twice");
                    }
                }
            }
            if !fec && h.len() > 1 {
                ctx.violation("twice", "an ordinary broadcast was sent to a given peer more than once");
            }
        }
        ctx.count("broadcasts_to_targets", 1);
        ctx.case(("targets", len, who.len(), foreign, source, packed));
        if ctx.violated() {
            return;
        }
        // the parts still under way
        if fec {
            sleep_ms(40).await;
        }
    }
}

/// Exchanges with a peer whose answer is known, with filters.
async fn filters(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let o = n.public(&id, Default::default());
    let s = member(rng, &n, &o).await;
    for k in 0..5usize {
        let mut offered = Vec::new();
        let mut valid: Vec<[u8; 32]> = Vec::new();
        for _ in 0..rng.gen_range(0..6) {
            let who = Ident::gen(rng);
            let mut r = ONode::new(&who, id, unix_now() - rng.gen_range(0..100));
            match rng.gen_range(0..5) {
                0 => r.sig[rng.gen_range(0..64)] ^= 8,
                1 => r = ONode::new(&who, rand32(rng), r.version),
                _ => valid.push(who.short),
            }
            offered.push(r);
        }
        // the node itself and the peer
        if rng.gen() {
            offered.push(ONode::new(n.me(), id, unix_now()));
        }
        if rng.gen() {
            offered.push(ONode::new(&s.me, id, unix_now()));
            valid.push(s.me.short);
        }
        // one that is known already
        let known = Ident::gen(rng);
        o.add(&known, std::net::SocketAddrV4::new(Ipv4Addr::new(127, 9, rng.gen(), 3), 4000));
        offered.push(ONode::new(&known, id, unix_now()));
        valid.push(known.short);
        offered.shuffle(rng);
        let some: HashSet<[u8; 32]> = valid.iter().filter(|_| rng.gen()).copied().collect();
        let answer = onodes(&offered);
        let silent = rng.gen_range(0..8) == 0;
        s.set(answering(move |_| (!silent).then(|| answer.clone())));
        let set: HashSet<adnl::NodeIdShort> = some.iter().map(sid).collect();
        let dash: dashmap::DashSet<adnl::NodeIdShort> = set.iter().copied().collect();
        let mut got = None;
        for _ in 0..5 {
            let (oo, ad, p) = (o.o.clone(), n.n.adnl.clone(), sid(&s.me.short));
            let (set, dash) = (set.clone(), dash.clone());
            let t = Some(if silent { 150 } else { 1500 });
            let _g = ctx.op("exchange");
            got = run_node(async move {
                match k {
                    0 => oo.exchange_random_peers(&ad, &p, t).await,
                    1 => oo.exchange_random_peers_ext(&ad, &p, t, &()).await,
                    2 => oo.exchange_random_peers_ext(&ad, &p, t, &set).await,
                    3 => oo.exchange_random_peers_ext(&ad, &p, t, &dash).await,
                    _ => oo.exchange_random_peers_ext(&ad, &p, t, &true).await,
                }
            })
            .await;
            if silent || matches!(got, Some(Ok(Some(_)))) {
                break;
            }
        }
        let want: HashSet<[u8; 32]> = match k {
            0 => valid.iter().filter(|x| !o.o.is_known_peer(&sid(*x))).copied().collect(),
            1 => valid.iter().copied().collect(),
            2 | 3 => valid.iter().filter(|x| !some.contains(*x)).copied().collect(),
            _ => HashSet::new(),
        };
        match got {
            Some(Ok(None)) if silent => {}
            Some(Ok(Some(v))) if !silent => {
                let g: HashSet<[u8; 32]> = v.iter().map(|x| *x.as_slice()).collect();
                if g.len() != v.len() {
                    ctx.violation("exchange", "an exchange reports a peer twice");
                }
                if g != want {
                    ctx.violation("exchange", format!("an exchange with filter {k} reports {} peers; {} of the {} offered are valid and pass the filter", g.len(), want.len(), offered.len()));
                }
            }
            r => ctx.violation("exchange", format!("an exchange with a peer that is silent ({silent}) gives {:?}", r.map(|r| r.map(|x| x.map(|v| v.len())).map_err(|e| e.to_string())))),
        }
        // what the node told about itself
        for (_, m) in s.log.lock().unwrap().drain(..) {
            if let Msg::Query { data, .. } = m {
                let mut r = Rd::new(&data);
                let l = (|| -> R<Vec<ONode>> {
                    r.expect(id::OV_QUERY)?;
                    r.h256()?;
                    r.expect(id::OV_GET_RANDOM)?;
                    let c = r.u32()?;
                    (0..c).map(|_| ONode::read(&mut r)).collect()
                })();
                match l {
                    Ok(l) if l.first().is_some_and(|x| x.public == n.n.pk(0)) && l.iter().all(|x| x.valid() && x.overlay == id) => {}
                    _ => ctx.violation("exchange", "an exchange does not offer the node's own valid record first"),
                }
            }
        }
        ctx.count("exchanges", 1);
        ctx.case(("exchange", k, valid.len(), silent, round % 3));
    }
}

/// Signed DHT entries as callers make them.
async fn entries(ctx: &C, rng: &mut SmallRng) {
    let d = DhtNode::start(rng, default_opts(), dht::NodeOptions { value_ttl_sec: 900, ..Default::default() });
    let who = Ident::gen(rng);
    let key = keystore(&[who.clone()]).key_by_tag(0).unwrap().clone();
    for _ in 0..6 {
        let owner = if rng.gen_range(0..4) == 0 { rand32(rng) } else { who.short };
        let name: String = (0..rng.gen_range(0..20)).map(|_| rng.gen_range('a'..'z')).collect();
        let idx = [0, 1, 7, u32::MAX][rng.gen_range(0..4)];
        let l = rng.gen_range(0..300);
        let data = rand_bytes(rng, l);
        let typed = rng.gen_range(0..3) == 0;
        let (mode, t) = (rng.gen_range(0..3), rng.gen_range(1..100_000u32));
        let before = unix_now();
        let v = on_node(|| {
            let e = d.dht.entry(&owner, &name).with_key_index(idx);
            let e = if typed { e.with_data(everscale_network::proto::rpc::AdnlPing { value: 77 }) } else { e.with_data_raw(&data) };
            match mode {
                0 => e.sign(&key),
                1 => e.expire_at(before + t).sign(&key),
                _ => e.with_ttl(t).sign(&key),
            }
        });
        let after = unix_now();
        let data = if typed { W::new().u32(id::PING).u64(77).done() } else { data };
        let ser = tl_proto::serialize(&v);
        let Ok(x) = DValue::read(&mut Rd::new(&ser)) else {
            ctx.violation("entry", "a signed entry is not a value");
            continue;
        };
        let mut w = DValue::signed(&who, &name, idx, data.clone(), x.ttl);
        w.key.id = owner;
        w.resign(&who);
        if x != w {
            ctx.violation("entry", format!("a signed entry is not what was asked for: {x:?}\nexpected {w:?}"));
        }
        let plus = [900, t, t][mode];
        let exact = mode == 1;
        if x.ttl < before + plus || x.ttl > if exact { before } else { after } + plus {
            ctx.violation("entry", format!("a signed entry (mode {mode}) expires at {}, expected {plus} from {before}..{after}", x.ttl));
        }
        let kid = tl_proto::hash_as_boxed(d.dht.entry(&owner, &name).with_key_index(idx).key());
        if kid != DKey::new(owner, &name, idx).hash() {
            ctx.violation("entry", "an entry has another key hash");
        }
        ctx.count("entries", 1);
        ctx.case(("entry", mode, typed, idx, data.len() / 64));
    }
}

struct Refuse(Vec<[u8; 32]>, std::sync::Mutex<Vec<[u8; 32]>>);
impl adnl::PeerFilter for Refuse {
    fn check(&self, _: adnl::NewPeerContext, _: std::net::SocketAddrV4, peer: &adnl::NodeIdShort) -> bool {
        self.1.lock().unwrap().push(*peer.as_slice());
        !self.0.contains(peer.as_slice())
    }
}

/// A node made by the builder has the filter and the subscribers it was given, in that order; typed queries carry their
/// prefix and query, and nothing else.
async fn built(ctx: &C, rng: &mut SmallRng) {
    use everscale_network::proto;
    let idents: Vec<Ident> = (0..2).map(|_| Ident::gen(rng)).collect();
    let order: Arc<std::sync::Mutex<Vec<(usize, Vec<u8>)>>> = Default::default();
    // the first takes queries whose last byte is even, the second those that are odd but 7
    let subs: Vec<Arc<Rec>> = (0..2usize)
        .map(|i| {
            let order = order.clone();
            Rec::new(move |e| {
                order.lock().unwrap().push((i, e.data.clone()));
                match (i, e.data[e.data.len() - 1]) {
                    (0, l) if l % 2 == 0 => Act::Answer(Some(tl_proto::serialize(proto::dht::Pong { random_id: l as u64 }))),
                    (0, _) | (1, 7) => Act::Reject,
                    (_, 9) => Act::Answer(Some(vec![1, 2, 3])),
                    (_, 11) => Act::Answer(None),
                    (_, l) => Act::Answer(Some(tl_proto::serialize(proto::dht::Pong { random_id: l as u64 + (1 << 40) }))),
                }
            })
        })
        .collect();
    let a = TestNode::start(rng, 2, default_opts(), Rec::echo());
    let refused = Ident::gen(rng);
    let filter = Arc::new(Refuse(vec![refused.short, *a.id(1).as_slice()], Default::default()));
    let (ks, f) = (keystore(&idents), filter.clone());
    let b = on_node(|| {
        NetworkBuilder::with_adnl_ext((Ipv4Addr::LOCALHOST, 0), ks, default_opts(), f)
            .with_query_subscriber(subs[0].clone())
            .with_message_subscriber(subs[1].clone())
            .with_query_subscriber(subs[1].clone())
            .with_message_subscriber(subs[0].clone())
            .build()
    });
    let Ok(b) = b else {
        ctx.violation("built", "a node with subscribers and a filter cannot be built");
        return;
    };
    let addr = b.socket_addr();
    for i in 0..2 {
        let pk = everscale_network::crypto::ed25519::PublicKey::from_bytes(idents[0].public).unwrap();
        on_node(|| a.adnl.add_peer(adnl::NewPeerContext::Dht, &a.id(i), &sid(&idents[0].short), addr, adnl::NodeIdFull::new(pk))).expect("add peer");
    }
    let (x, y) = (sid(&idents[0].short), sid(&refused.short));
    let pk = everscale_network::crypto::ed25519::PublicKey::from_bytes(refused.public).unwrap();
    let entered = on_node(|| b.add_peer(adnl::NewPeerContext::Dht, &x, &y, "127.0.0.1:4000".parse().unwrap(), adnl::NodeIdFull::new(pk)));
    if matches!(entered, Ok(true)) || b.get_peer_address(&x, &y).is_some() || !filter.1.lock().unwrap().contains(&refused.short) {
        ctx.violation("filter", format!("a peer the builder's filter refuses was added: {entered:?}"));
    }
    let mut wires: Vec<Vec<u8>> = Vec::new();
    for k in 0..14u64 {
        // a(1) is refused by the filter
        let from = (k == 13) as usize;
        let last = if k < 12 { k as u8 } else { rng.gen() };
        let id = rng.gen::<u64>() & !(0xff << 56) | (last as u64) << 56;
        let plen = [0, 4, 1, 36, 3, 700, 1500][rng.gen_range(0..7)];
        let mut prefix = rand_bytes(rng, plen);
        if plen >= 4 {
            prefix[..4].copy_from_slice(&0x5151_0001u32.to_le_bytes());
        }
        let with = k % 3 != 0;
        let mut wire = if with { prefix.clone() } else { vec![] };
        wire.extend(tl_proto::serialize(proto::rpc::DhtPing { random_id: id }));
        let expect: Result<Option<u64>, ()> = match last {
            _ if from == 1 => Ok(None),
            l if l % 2 == 0 => Ok(Some(l as u64)),
            7 | 11 => Ok(None),
            9 => Err(()),
            l => Ok(Some(l as u64 + (1 << 40))),
        };
        let mut got = Ok(None);
        for _ in 0..if matches!(expect, Ok(None)) { 1 } else { 4 } {
            let (n, me, prefix) = (a.adnl.clone(), a.id(from), prefix.clone());
            let t = Some(if matches!(expect, Ok(None)) { 200 } else { 2000 });
            got = match run_node(async move {
                let q = proto::rpc::DhtPing { random_id: id };
                if with {
                    n.query_with_prefix::<_, proto::dht::Pong>(&me, &x, &prefix, q, t).await
                } else {
                    n.query::<_, proto::dht::Pong>(&me, &x, q, t).await
                }
            })
            .await
            {
                Some(Ok(r)) => Ok(r.map(|p| p.random_id)),
                Some(Err(_)) => Err(()),
                None => return,
            };
            if got == expect {
                break;
            }
        }
        if got != expect {
            ctx.violation("answer", format!("a typed query (prefix {with}, {plen} bytes; last byte {last}) gave {got:?} instead of {expect:?}"));
        }
        let want: &[usize] = match last {
            _ if from == 1 => &[],
            l if l % 2 == 0 => &[0],
            _ => &[0, 1],
        };
        wires.push(wire.clone());
        if expect == Ok(None) && !want.is_empty() {
            // it may come late
            for _ in 0..200 {
                if order.lock().unwrap().iter().filter(|o| o.1 == wire).count() == want.len() {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(10)).await;
            }
        }
        let all: Vec<(usize, Vec<u8>)> = order.lock().unwrap().clone();
        let seen: Vec<usize> = all.iter().filter(|o| o.1 == wire).map(|o| o.0).collect();
        let foreign = all.iter().filter(|o| !wires.contains(&o.1)).count();
        let good = foreign == 0 && seen.chunks(want.len().max(1)).all(|c| c == want) && (!seen.is_empty() || expect == Ok(None));
        if !good {
            ctx.violation("offered", format!("a typed query (prefix {with}, {plen} bytes, last byte {last}) was offered to {seen:?} ({foreign} offers of other queries), subscribers {want:?} in that order are meant"));
        }
        ctx.count("typed_queries", 1);
        ctx.case(("typed", with, plen, last));
    }
    // messages: the first message subscriber takes all
    let mut m = 0x5151_0002u32.to_le_bytes().to_vec();
    m.extend(rand_bytes(rng, 40));
    let mut arrived = false;
    for _ in 0..4 {
        on_node(|| a.adnl.send_custom_message(&a.id(0), &x, &m)).ok();
        arrived = subs[1].wait(1, Duration::from_secs(1), |e| !e.query && e.data == m).await;
        if arrived {
            break;
        }
    }
    if !arrived || subs[0].count(|e| !e.query) > 0 {
        ctx.violation("offered", format!("a message is not taken by the subscriber first given to the builder (it came: {arrived})"));
    }
    b.shutdown();
}
