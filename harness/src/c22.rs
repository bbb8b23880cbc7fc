//! C22: each overlay node delivers a broadcast once and relays it boundedly.
use std::collections::{HashMap, HashSet};
use std::time::{Duration, Instant};

use everscale_network::overlay;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::nodes::*;
use crate::overw::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one broadcast of which a node gets many copies (from several peers, at once, late, or wrapped differently), or which it sends itself and gets back, or which travels through a network of live nodes; non-trivial because deliveries and relays of the same broadcast or part are counted at the application and at every neighbour; distinct by kind, number of peers and copies, configured counts and number of relays");
    let mut rng = ctx.rng(22);
    let only = std::env::var("EVMON_ONLY").ok().and_then(|x| x.parse::<u64>().ok());
    let mut tasks = Vec::new();
    for i in (0..5u64).filter(|i| only.is_none_or(|o| o == *i)) {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = 0;
            while ctx.within(28, 600) && (round < [8, 6, 5, 2, 8][i as usize] || !ctx.quick()) && !ctx.violated() {
                match i {
                    0 => copies(&ctx, &mut rng, round).await,
                    1 => own(&ctx, &mut rng, round).await,
                    2 => mesh(&ctx, &mut rng, round).await,
                    3 => expiry(&ctx, &mut rng, round).await,
                    _ => same_bytes(&ctx, &mut rng, round).await,
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    if only.is_none() {
        ctx.require("copied_broadcasts", 60);
        ctx.require("relays", 200);
        ctx.require("own_broadcasts", 30);
        ctx.require("mesh_deliveries", 60);
        ctx.require("replays", 100);
        ctx.require("same_bytes", 20);
    }
    ctx.check_panics("overlay broadcasts");
}

/// What a relayed message is a copy of.
fn key(m: &Om) -> ([u8; 32], u32) {
    match m {
        // the data (plain or compressed) is made unique by its first bytes, so that the signature tells it
        Om::B(b) => (sha256(&b.sig), u32::MAX),
        Om::F(p) => (sha256(&[&p.hash[..], &p.src].concat()), p.seqno),
        Om::Other(_) => ([0; 32], 0),
    }
}

/// Relays of each broadcast or part: which peers heard it how often.
fn relays(peers: &[&Serve]) -> HashMap<([u8; 32], u32), HashMap<usize, usize>> {
    let mut out: HashMap<_, HashMap<usize, usize>> = HashMap::new();
    for (i, p) in peers.iter().enumerate() {
        for (_, m) in heard(p) {
            *out.entry(key(&m)).or_default().entry(i).or_default() += 1;
        }
    }
    out
}

fn check_relays(ctx: &C, peers: &[&Serve], limit: usize, only_from: Option<usize>, what: &str) -> usize {
    let mut n = 0;
    for (k, by) in relays(peers) {
        let total: usize = by.values().sum();
        n += total;
        if total > limit {
            ctx.violation("relayed-too-often", format!("{what}: one {} was relayed {total} times (to {} peers), {limit} are configured", if k.1 == u32::MAX { "broadcast" } else { "part" }, by.len()));
        }
        if by.values().any(|c| *c > 1) {
            ctx.violation("relayed-twice", format!("{what}: a peer was sent the same broadcast or part twice"));
        }
        if let Some(s) = only_from {
            if by.contains_key(&s) {
                ctx.violation("relayed-back", format!("{what}: a broadcast was relayed to the peer it came from"));
            }
        }
    }
    n
}

async fn copies(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let (limit, flimit) = (rng.gen_range(1..5u32), rng.gen_range(1..5u32));
    let o = n.public(
        &id,
        overlay::OverlayOptions { secondary_broadcast_target_count: limit, secondary_fec_broadcast_target_count: flimit, ..Default::default() },
    );
    let many = 2 + (round as usize % 3) * 2;
    let mut peers = Vec::new();
    for _ in 0..many {
        peers.push(member(rng, &n, &o).await);
    }
    let all: Vec<&Serve> = peers.iter().collect();
    for i in 0..10u32 {
        for p in &peers {
            p.log.lock().unwrap().clear();
        }
        let who = Ident::gen(rng);
        let single = i % 3 == 0;
        let fec = i % 2 == 0;
        let data = rand_bytes(rng, if fec { [500, 5000, 30_000][i as usize % 3] } else { 300 });
        let senders: Vec<usize> = if single { vec![rng.gen_range(0..many)] } else { (0..many).collect() };
        let rounds = rng.gen_range(1..4);
        let mut msgs: Vec<Vec<u8>> = Vec::new();
        let extra = rng.gen_range(4..30);
        if fec {
            for p in parts(&who, &data, extra) {
                msgs.push(p.ser(&id));
                if rng.gen_range(0..3) == 0 {
                    let mut p = p;
                    p.cert = Some(rand_bytes(rng, 64));
                    msgs.push(p.ser(&id));
                }
            }
        } else {
            let b = Bcast::new(&who, ANY, &data, unix_now());
            msgs.push(b.ser(&id));
            msgs.push(b.clone().packed().ser(&id));
            let mut c = b.clone();
            c.cert = Some(rand_bytes(rng, 64));
            msgs.push(c.ser(&id));
            msgs.push([b.ser(&id), vec![1, 2, 3, 4]].concat());
            c.flags = 3;
            msgs.push(c.ser(&id));
        }
        let mut copies = 0;
        let mut ok = false;
        for _ in 0..4 {
            for r in 0..rounds {
                for (j, m) in msgs.iter().enumerate() {
                    for s in &senders {
                        peers[*s].send(Msg::Custom(m.clone()));
                        copies += 1;
                    }
                    if j % 10 == 9 {
                        sleep_ms(3).await;
                    }
                }
                if r == 0 && rng.gen() {
                    peers[senders[0]].barrier().await;
                }
            }
            peers[senders[0]].barrier().await;
            ok = o.wait(&data, Duration::from_millis(700)).await;
            if ok {
                break;
            }
        }
        // late ones
        for m in &msgs {
            peers[senders[senders.len() - 1]].send(Msg::Custom(m.clone()));
        }
        peers[senders[senders.len() - 1]].barrier().await;
        sleep_ms(60).await;
        for p in &peers {
            p.barrier().await;
        }
        let c = o.count(&data);
        if c > 1 {
            ctx.violation("delivered-twice", format!("a broadcast ({}) was delivered {c} times after {copies} copies from {} peers", if fec { "in parts" } else { "whole" }, senders.len()));
        }
        if !ok {
            ctx.violation("lost", "a broadcast sent by every member was not delivered");
        }
        let lim = if fec { flimit } else { limit } as usize;
        let r = check_relays(ctx, &all, lim, single.then_some(senders[0]), if fec { "parts" } else { "whole" });
        if r == 0 {
            ctx.violation("not-relayed", format!("a broadcast was not relayed to any of {} other members ({} configured)", many - 1, lim));
        }
        ctx.count("relays", r as u64);
        ctx.count("copied_broadcasts", 1);
        ctx.count("copies", copies);
        ctx.case((fec, single, many, lim, data.len(), rounds, r.min(10)));
        if ctx.violated() {
            return;
        }
    }
}

/// The same bytes in parts of several broadcasts at once (of several sources, of one source at several times, plain and
/// compressed, or while the node itself broadcasts them) are delivered once, or not at all by their originator.
async fn same_bytes(ctx: &C, rng: &mut SmallRng, round: u64) {
    let _op = ctx.op("same bytes");
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let o = n.public(&id, Default::default());
    let (s, w) = (member(rng, &n, &o).await, member(rng, &n, &o).await);
    for style in 0..5u64 {
        let len = rng.gen_range(1500..20_000);
        let data = vec![rand_bytes(rng, 700), vec![9; len]].concat();
        let now = unix_now();
        let (a, b) = (Ident::gen(rng), Ident::gen(rng));
        let streams: Vec<Vec<Part>> = match style {
            0 => vec![parts(&a, &data, 6), parts(&b, &data, 6)],
            1 => vec![parts(&a, &data, 6), parts_of(&a, &data, &data, ANY, now - 1, 6)],
            2 => vec![parts(&a, &data, 6), parts_of(&a, &data, &compress(&data), ANY, now, 6)],
            3 => vec![parts(&a, &data, 6), parts_of(&a, &data, &data, 0, now, 6), parts_of(&b, &data, &compress(&data), 0, now, 6)],
            _ => vec![parts(&a, &data, 6)],
        };
        // all are begun before any can be finished
        for ps in &streams {
            s.send(Msg::Custom(ps[0].ser(&id)));
        }
        s.barrier().await;
        if style == 4 {
            o.send(data.clone());
        }
        let mut rest: Vec<Vec<Vec<u8>>> = streams.iter().map(|ps| ps.iter().skip(1).map(|p| p.ser(&id)).rev().collect()).collect();
        let at_once = (round + style) % 2 == 0;
        let mut sent = 0;
        while rest.iter().any(|r| !r.is_empty()) {
            let live: Vec<usize> = (0..rest.len()).filter(|i| !rest[*i].is_empty()).collect();
            let i = if at_once { live[rng.gen_range(0..live.len())] } else { live[0] };
            let m = rest[i].pop().unwrap();
            let from = if rng.gen() { &s } else { &w };
            from.send(Msg::Custom(m));
            sent += 1;
            if sent % 15 == 0 {
                sleep_ms(2).await;
            }
        }
        s.barrier().await;
        w.barrier().await;
        let mut got = style == 4 || o.wait(&data, Duration::from_millis(700)).await;
        for _ in 0..4 {
            if got {
                break;
            }
            for ps in &streams {
                for p in ps {
                    s.send(Msg::Custom(p.ser(&id)));
                }
                sleep_ms(5).await;
            }
            s.barrier().await;
            got = o.wait(&data, Duration::from_millis(700)).await;
        }
        sleep_ms(60).await;
        let c = o.count(&data);
        if style == 4 && c > 0 {
            ctx.violation("own-delivered", format!("a node was delivered what it broadcast itself, in parts of {} bytes begun before", data.len()));
        }
        if c > 1 {
            ctx.violation("delivered-twice", format!("the same {} bytes in parts of {} broadcasts (style {style}) were delivered {c} times", data.len(), streams.len()));
        }
        if !got {
            ctx.violation("lost", format!("the same {} bytes in parts of {} broadcasts (style {style}) were not delivered", data.len(), streams.len()));
        }
        ctx.count("same_bytes", 1);
        ctx.case(("same bytes", style, at_once, data.len() / 4000));
        if ctx.violated() {
            return;
        }
    }
}

/// A node's own broadcasts come back to it.
async fn own(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let limit = rng.gen_range(1..5u32);
    let o = n.public(
        &id,
        overlay::OverlayOptions {
            broadcast_target_count: limit,
            secondary_broadcast_target_count: 4,
            secondary_fec_broadcast_target_count: 4,
            force_compression: rng.gen(),
            fec_broadcast_wave_interval_ms: 3,
            ..Default::default()
        },
    );
    let many = rng.gen_range(1..7usize);
    let mut peers = Vec::new();
    for _ in 0..many {
        peers.push(member(rng, &n, &o).await);
    }
    let all: Vec<&Serve> = peers.iter().collect();
    // earlier broadcasts: their last packets may come late
    let mut old: HashSet<[u8; 32]> = HashSet::new();
    for i in 0..6u32 {
        for p in &peers {
            p.log.lock().unwrap().clear();
        }
        let len = [10, 700, 769, 5000, 60_000, 300][i as usize];
        let data = match rng.gen() {
            true => rand_bytes(rng, len),
            false => {
                let mut d = vec![7; len];
                let u: [u8; 8] = rng.gen();
                d[..8].copy_from_slice(&u);
                d
            }
        };
        let info = o.send(data.clone());
        let again = (i == 5).then(|| o.send(data.clone()));
        // until no more arrives
        let (mut last, mut still) = (usize::MAX, 0);
        for _ in 0..100 {
            let c: usize = peers.iter().map(|p| p.log.lock().unwrap().len()).sum();
            still = if c == last && c > 0 { still + 1 } else { 0 };
            if still == 3 {
                break;
            }
            last = c;
            sleep_ms(40).await;
        }
        let new = |p: &Serve| heard(p).into_iter().map(|(_, m)| key(&m)).filter(|k| !old.contains(&k.0)).collect::<HashSet<_>>();
        let heard_by: HashSet<usize> = (0..many).filter(|i| !new(&peers[*i]).is_empty()).collect();
        if heard_by.len() > limit as usize || info.recipient_count > limit as usize {
            ctx.violation("too-many-targets", format!("a broadcast was sent to {} members (reported {}), {limit} are configured", heard_by.len(), info.recipient_count));
        }
        if info.recipient_count != many.min(limit as usize) || (heard_by.len() != info.recipient_count && len > 5000) {
            ctx.violation("targets", format!("a broadcast was sent to {} members, reported {}; {many} are there and {limit} configured", heard_by.len(), info.recipient_count));
        }
        for (_, by) in relays(&all) {
            if by.values().any(|c| *c > 1) {
                ctx.violation("relayed-twice", "a member was sent the same part or broadcast twice by its originator");
            }
        }
        if let Some(a) = again {
            ctx.count("sent_again", 1);
            // an equal broadcast of the same second is the same one
            let _ = a;
        }
        // everything comes back from everyone
        let msgs: HashSet<Vec<u8>> = peers.iter().flat_map(|p| p.customs()).filter(|d| read_om(d).is_ok()).collect();
        for p in &peers {
            p.log.lock().unwrap().clear();
        }
        for (j, m) in msgs.iter().enumerate() {
            for p in &peers {
                p.send(Msg::Custom(m.clone()));
            }
            if j % 10 == 9 {
                sleep_ms(3).await;
            }
        }
        for p in &peers {
            p.barrier().await;
        }
        sleep_ms(80).await;
        for p in &peers {
            p.barrier().await;
        }
        if o.len() > 0 {
            ctx.violation("delivered-to-originator", format!("a broadcast of {len} bytes was delivered to its originator"));
        }
        // (what no member had got before is an original that came late)
        let r: usize = peers.iter().map(|p| p.customs().iter().filter(|d| msgs.contains(*d)).count()).sum();
        if r > 0 {
            ctx.violation("relayed-own", format!("{r} copies of its own broadcast were relayed by the originator"));
        }
        old.extend(msgs.iter().filter_map(|m| read_om(m).ok()).map(|(_, m)| key(&m).0));
        ctx.count("own_broadcasts", 1);
        ctx.count("own_parts", msgs.len() as u64);
        ctx.case(("own", len, many, limit, heard_by.len(), round % 2));
        if ctx.violated() {
            return;
        }
    }
}

async fn mesh(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let count = rng.gen_range(4..9usize);
    let mut nodes = Vec::new();
    for _ in 0..count {
        let n = OvNode::start(rng);
        let o = n.public(&id, overlay::OverlayOptions { fec_broadcast_wave_interval_ms: 4, force_compression: rng.gen(), ..Default::default() });
        nodes.push((n, o));
    }
    // a ring with chords, at most 4 neighbours each, so that relays reach all but the sender
    let mut deg = vec![0; count];
    let mut edges = HashSet::new();
    let mut link = |a: usize, b: usize, deg: &mut Vec<usize>| {
        if a != b && deg[a] < 4 && deg[b] < 4 && edges.insert((a.min(b), a.max(b))) {
            deg[a] += 1;
            deg[b] += 1;
            nodes[a].1.add(nodes[b].0.me(), nodes[b].0.n.addr());
            nodes[b].1.add(nodes[a].0.me(), nodes[a].0.n.addr());
        }
    };
    for i in 0..count {
        link(i, (i + 1) % count, &mut deg);
    }
    if round % 2 == 0 {
        for _ in 0..count {
            link(rng.gen_range(0..count), rng.gen_range(0..count), &mut deg);
        }
    }
    let mut sent: Vec<(Vec<u8>, usize)> = Vec::new();
    for i in 0..4 {
        let len = [100, 2000, 40_000, 760][i % 4];
        let mut reached = 0;
        for _ in 0..5 {
            let data = rand_bytes(rng, len);
            let from = rng.gen_range(0..count);
            nodes[from].1.send(data.clone());
            sent.push((data.clone(), from));
            eventually(Duration::from_millis(2500), || {
                reached = (0..count).filter(|i| nodes[*i].1.count(&data) > 0).count();
                reached == count - 1
            })
            .await;
            if reached == count - 1 {
                break;
            }
        }
        if reached < count - 1 {
            ctx.violation("lost", format!("broadcasts of {len} bytes reach {reached} of {} nodes only", count - 1));
        }
        ctx.count("mesh_deliveries", reached as u64);
        ctx.case(("mesh", count, edges.len(), len));
    }
    sleep_ms(200).await;
    for (data, from) in &sent {
        for (i, n) in nodes.iter().enumerate() {
            let c = n.1.count(data);
            if i == *from && c > 0 {
                ctx.violation("delivered-to-originator", "a broadcast was delivered to its originator");
            }
            if c > 1 {
                ctx.violation("delivered-twice", format!("a node of a network delivered a broadcast {c} times"));
            }
        }
    }
    for n in &nodes {
        for d in n.1.got.lock().unwrap().iter() {
            if !sent.iter().any(|(s, f)| *s == d.data && nodes[*f].0.me().short == d.from) {
                ctx.violation("forged", "a node of a network delivered what nobody sent");
            }
        }
    }
}

/// Broadcasts are forgotten, but not before their copies are outdated.
async fn expiry(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let timeout = 1 + round % 2;
    let log = [0u32, 2][round as usize % 2];
    let o = n.public(
        &id,
        overlay::OverlayOptions { broadcast_timeout_sec: timeout, max_broadcast_log: log, broadcast_gc_interval_ms: 30, ..Default::default() },
    );
    let (s, w) = (member(rng, &n, &o).await, member(rng, &n, &o).await);
    let mut all: Vec<(Vec<u8>, Vec<Vec<u8>>, i64)> = Vec::new();
    for ahead in [0i64, 0, 1, 2, 3, 5, 60, 1000, -1] {
        let who = Ident::gen(rng);
        let date = (unix_now() as i64 + ahead) as u32;
        let data = rand_bytes(rng, 200);
        all.push((data.clone(), vec![Bcast::new(&who, ANY, &data, date).ser(&id)], ahead));
        let data = rand_bytes(rng, 3000);
        all.push((data.clone(), parts_of(&who, &data, &data, ANY, date, 3).iter().map(|p| p.ser(&id)).collect(), ahead));
    }
    // and some of its own, to nobody
    for i in 0..6 {
        o.send_to(rand_bytes(rng, if i % 2 == 0 { 150 } else { 2000 }), overlay::BroadcastTarget::Explicit(Default::default()));
    }
    let end = Instant::now() + Duration::from_millis(timeout * 3000 + 2600);
    let mut first: Vec<Option<Instant>> = vec![None; all.len()];
    while Instant::now() < end && !ctx.violated() {
        for (i, (data, msgs, ahead)) in all.iter().enumerate() {
            for m in msgs {
                s.send(Msg::Custom(m.clone()));
            }
            ctx.count("replays", 1);
            let c = o.count(data);
            if c > 0 && first[i].is_none() {
                first[i] = Some(Instant::now());
            }
            if c > 1 {
                ctx.violation(
                    "delivered-twice",
                    format!(
                        "a broadcast ({} messages) dated {ahead} s ahead was delivered again {:?} after its first delivery (timeout {timeout} s, log of {log})",
                        msgs.len(),
                        first[i].map(|f| f.elapsed()).unwrap_or_default()
                    ),
                );
            }
        }
        s.barrier().await;
        sleep_ms(120).await;
    }
    for (i, (_, msgs, ahead)) in all.iter().enumerate() {
        if *ahead == 0 && first[i].is_none() && !ctx.violated() {
            ctx.violation("lost", format!("a fresh broadcast of {} messages was not delivered", msgs.len()));
        }
        ctx.case(("expiry", *ahead, msgs.len(), first[i].is_some(), timeout, log));
    }
    check_relays(ctx, &[&s, &w], 1, Some(0), "replays");
    // nothing of it stays, except for the configured number
    let ok = eventually(Duration::from_secs(8), || o.o.metrics().owned_broadcasts_len <= log as usize).await;
    let m = o.o.metrics();
    if !ok && !ctx.violated() {
        ctx.violation("kept", format!("{} broadcasts are remembered long after they expired, {log} are configured ({} finished)", m.owned_broadcasts_len, m.finished_broadcasts_len));
    }
}
