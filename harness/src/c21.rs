//! C21: overlay broadcasts are delivered intact and attributed to their signer.
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;

use everscale_network::overlay;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::nodes::*;
use crate::overw::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one broadcast between live nodes (over a perfect or a lossy link), or one scripted broadcast or part, genuine or altered in one signed field; non-trivial because every delivered and every relayed one is matched against an independent implementation of signing and coding; distinct by kind, size class, compression, flags, altered field and outcome");
    let mut rng = ctx.rng(21);
    let only = std::env::var("EVMON_ONLY").ok().and_then(|x| x.parse::<u64>().ok());
    let mut tasks = Vec::new();
    for i in (0..4u64).filter(|i| only.is_none_or(|o| o == *i)) {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = 0;
            while ctx.within(25, 600) && (round < [4, 4, 8, 6][i as usize] || !ctx.quick()) && !ctx.violated() {
                match i {
                    0 => direct(&ctx, &mut rng, round).await,
                    1 => lossy(&ctx, &mut rng, round).await,
                    2 => ordinary(&ctx, &mut rng, round).await,
                    _ => fec(&ctx, &mut rng, round).await,
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    if only.is_none() {
        ctx.require("direct", 100);
        ctx.require("lossy", 30);
        ctx.require("genuine", 120);
        ctx.require("altered", 250);
        ctx.require("genuine_fec", 15);
        ctx.require("altered_parts", 200);
    }
    ctx.check_panics("overlay broadcasts");
}

fn fill(rng: &mut SmallRng, len: usize) -> Vec<u8> {
    match rng.gen_range(0..4) {
        0 => vec![rng.gen(); len],
        1 => {
            // looks compressed
            let mut d = compress(&rand_bytes(rng, len / 2));
            if d.len() <= len {
                let mut x = rand_bytes(rng, len - d.len());
                x.extend(&d);
                if rng.gen() && x.len() == d.len() + 8 {
                    x[..8].copy_from_slice(&[0x50, 0x2a, 0x4d, 0x18, 0, 0, 0, 0]);
                }
                x
            } else {
                d.truncate(len);
                d
            }
        }
        _ => rand_bytes(rng, len),
    }
}
fn class(n: usize) -> usize {
    match n {
        0..=10 => n,
        11..=256 => 11,
        257..=767 => 12,
        768..=770 => n,
        771..=3000 => 13,
        3001..=100_000 => 14,
        _ => 15,
    }
}
fn opts(rng: &mut SmallRng) -> overlay::OverlayOptions {
    overlay::OverlayOptions { force_compression: rng.gen(), fec_broadcast_wave_interval_ms: 4, ..Default::default() }
}

/// Broadcasts of every size between nodes.
async fn direct(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let (a, b) = (OvNode::start(rng), OvNode::start(rng));
    let other = Ident::gen(rng);
    let mut oa = opts(rng);
    oa.max_ordinary_broadcast_len = [768, 768, 0, 5000][round as usize % 4];
    let (va, vb) = (a.public(&id, oa), b.public(&id, opts(rng)));
    va.add(b.me(), b.n.addr());
    vb.add(a.me(), a.n.addr());
    // someone else's key in the same store signs some of them
    let key = Arc::new(everscale_network::adnl::Key::from_bytes(other.secret));
    let mut sizes: Vec<usize> = vec![0, 1, 3, 4, 5, 253, 254, 255, 256, 257, 258, 766, 767, 768, 769, 770, 1535, 1536, 1537];
    for _ in 0..8 {
        sizes.push(rng.gen_range(0..5000));
    }
    sizes.push(rng.gen_range(20_000..60_000));
    sizes.push([200_000, 700_000, 1_500_000, 60_000][round as usize % 4]);
    // all that was ever broadcast, and by whom
    let mut log: HashMap<Vec<u8>, HashSet<[u8; 32]>> = HashMap::new();
    for len in sizes {
        let mut ok = false;
        for _ in 0..4 {
            let mut data = fill(rng, len);
            if len >= 8 {
                // unique
                let x: [u8; 8] = rng.gen();
                data[..8].copy_from_slice(&x);
            } else if vb.count(&data) > 0 {
                ok = true;
                break;
            }
            let foreign = rng.gen_range(0..3) == 0;
            let before = vb.len();
            log.entry(data.clone()).or_default().insert(if foreign { other.short } else { a.me().short });
            on_node(|| va.o.broadcast(&va.adnl, data.clone(), foreign.then_some(&key), Default::default()));
            ok = vb.wait(&data, Duration::from_millis(2500 + len as u64 / 200)).await;
            for d in vb.got.lock().unwrap()[before..].iter() {
                match log.get(&d.data) {
                    Some(by) if by.contains(&d.from) => {}
                    Some(_) => ctx.violation("attribution", format!("a broadcast of {} bytes is attributed to someone else than its signer", d.data.len())),
                    None => ctx.violation("altered", format!("{} bytes were delivered that nobody broadcast (sent {len} bytes)", d.data.len())),
                }
            }
            if ok || ctx.violated() {
                break;
            }
        }
        ctx.count("direct", 1);
        if !ok && !ctx.violated() {
            ctx.violation("lost", format!("a broadcast of {len} bytes never arrives (ordinary up to {})", oa.max_ordinary_broadcast_len));
        }
        ctx.case(("direct", class(len), oa.force_compression, oa.max_ordinary_broadcast_len));
        if ctx.violated() {
            return;
        }
    }
}

async fn lossy(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let (a, b) = (OvNode::start_ext(Ident::gen(rng), next_ip()), OvNode::start_ext(Ident::gen(rng), next_ip()));
    let net = Net::new(rng.gen());
    net.attach(a.n.addr());
    net.attach(b.n.addr());
    let (va, vb) = (a.public(&id, opts(rng)), b.public(&id, opts(rng)));
    va.add(b.me(), b.n.addr());
    vb.add(a.me(), a.n.addr());
    let mut log: HashSet<Vec<u8>> = HashSet::new();
    for (kind, drop, dup, delay) in [("loss", 8, 0, 0u64), ("repeats", 0, 50, 0), ("reorder", 0, 0, 40), ("all", 5, 25, 20)] {
        net.set(move |r, _, _, p| {
            if r.gen_range(0..100) < drop {
                return vec![];
            }
            let n = 1 + (r.gen_range(0..100) < dup) as usize;
            (0..n).map(|_| (Duration::from_millis(if delay > 0 { r.gen_range(0..delay) } else { 0 }), p.clone())).collect()
        });
        for len in [rng.gen_range(8..700), rng.gen_range(8000..20_000), rng.gen_range(100_000..300_000)] {
            let mut ok = false;
            for _ in 0..6 {
                let data = rand_bytes(rng, len);
                let before = vb.len();
                log.insert(data.clone());
                va.send(data.clone());
                ok = vb.wait(&data, Duration::from_millis(1500)).await;
                for d in vb.got.lock().unwrap()[before..].iter() {
                    if !log.contains(&d.data) {
                        ctx.violation("altered", format!("{} bytes were delivered that nobody broadcast ({kind})", d.data.len()));
                    }
                    if d.from != a.me().short {
                        ctx.violation("attribution", "a broadcast is attributed to someone else");
                    }
                }
                if ok || ctx.violated() {
                    break;
                }
            }
            ctx.count("lossy", 1);
            ctx.case(("lossy", kind, class(len), round % 4));
            if !ok && !ctx.violated() {
                ctx.violation("lost", format!("broadcasts of {len} bytes never arrive ({kind})"));
            }
            if ctx.violated() {
                return;
            }
        }
    }
}

/// Everything the watcher heard has to be among the genuine ones.
fn check_relays(ctx: &C, w: &Serve, ov: &[u8; 32], genuine: &HashSet<Vec<u8>>, what: &str) -> usize {
    let mut n = 0;
    for d in w.customs() {
        let Ok((o, m)) = read_om(&d) else {
            ctx.violation("relay", format!("a member got an overlay message that cannot be read ({what})"));
            continue;
        };
        if o != *ov {
            ctx.violation("relay", "a relayed message names another overlay");
        }
        if !genuine.contains(&d) {
            let valid = match &m {
                Om::B(b) => b.valid(),
                Om::F(p) => p.valid(),
                _ => false,
            };
            ctx.violation("relay", format!("an altered broadcast was relayed (its signature is {valid}, {what})"));
        }
        n += 1;
    }
    n
}

async fn ordinary(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let timeout = [60u64, 60, 20, 3600][round as usize % 4];
    let o = n.public(&id, overlay::OverlayOptions { broadcast_timeout_sec: timeout, ..Default::default() });
    let (s, w) = (member(rng, &n, &o).await, member(rng, &n, &o).await);
    let mut genuine = HashSet::new();
    let mut want: Vec<(Vec<u8>, [u8; 32])> = Vec::new();
    let mut bad: Vec<(&'static str, Vec<u8>)> = Vec::new();
    let now = unix_now();
    for i in 0..24u32 {
        let who = Ident::gen(rng);
        let flags = [0, 1, 1, 3, 2, 0x8000_0001][rng.gen_range(0..6)];
        let len = rng.gen_range(8..900);
        let data = fill(rng, len);
        let age = match i % 6 {
            0 => timeout as u32 - 10,
            1 => timeout as u32 / 2,
            _ => 0,
        };
        let mut b = Bcast::new(&who, flags, &data, now - age);
        if rng.gen_range(0..3) == 0 {
            b = b.packed();
        }
        if rng.gen_range(0..4) == 0 {
            b.cert = Some(rand_bytes(rng, 64));
        }
        // altered ones first, so that none of them is a repetition
        for what in ["data", "date", "source", "flags", "signature", "short signature", "no signature", "other signer", "old", "overflowing date", "source kind", "long signature"] {
            if rng.gen_range(0..3) > 0 {
                continue;
            }
            let mut x = b.clone();
            match what {
                "data" => match x.data.len() {
                    0 => x.data.push(1),
                    l => x.data[rng.gen_range(0..l)] ^= 1 << rng.gen_range(0..8),
                },
                "date" => x.date ^= 1 << rng.gen_range(0..4),
                "source" => x.src = Ident::gen(rng).public,
                "flags" => x.flags ^= ANY,
                "signature" => x.sig[rng.gen_range(0..64)] ^= 1 << rng.gen_range(0..8),
                "short signature" => x.sig.truncate(rng.gen_range(1..64)),
                "long signature" => x.sig.extend(rand_bytes(rng, 4)),
                "no signature" => x.sig.clear(),
                "other signer" => x.sig = Ident::gen(rng).sign(&x.to_sign(&data)).to_vec(),
                "old" | "overflowing date" => {
                    let d = if what == "old" { [0, now - timeout as u32 - 5, now / 2][rng.gen_range(0..3)] } else { u32::MAX - rng.gen_range(0..2) };
                    if what == "old" {
                        x = Bcast::new(&who, flags, &data, d);
                    } else {
                        x.date = d;
                    }
                }
                _ => {}
            }
            let raw = if what == "source kind" {
                // another kind of key in front of the same bytes
                let mut raw = x.ser(&id);
                let k = [id::PUB_AES, id::PUB_OVERLAY, id::PUB_UNENC, 7][rng.gen_range(0..4)];
                raw[40..44].copy_from_slice(&k.to_le_bytes());
                raw
            } else {
                x.ser(&id)
            };
            // a flipped bit in a compressed frame may leave what it stands for
            if what == "data" && x.data != data && x.data.last() == Some(&0x80) {
                let same = zstd::decode_all(&x.data[..x.data.len() - 1]).is_ok_and(|d| d.len() >= 4 && d[..d.len() - 4] == data[..]);
                if same {
                    continue;
                }
            }
            bad.push((what, raw.clone()));
            s.send(Msg::Custom(raw));
            ctx.count("altered", 1);
            ctx.case(("altered", what, flags & 1, class(data.len())));
        }
        let raw = b.ser(&id);
        genuine.insert(raw.clone());
        want.push((data.clone(), who.short));
        s.send(Msg::Custom(raw));
        ctx.count("genuine", 1);
        ctx.case(("genuine", flags, class(data.len()), b.cert.is_some(), age));
        if i % 6 == 5 {
            s.barrier().await;
        }
    }
    s.barrier().await;
    // what is signed over other bytes than those announced is not for this overlay either
    eventually(Duration::from_millis(600), || o.len() >= want.len()).await;
    // lost ones again (the node drops repetitions)
    for _ in 0..4 {
        for (raw, _) in genuine.iter().zip(0..).filter(|_| o.len() < want.len()) {
            s.send(Msg::Custom(raw.clone()));
        }
        s.barrier().await;
        if eventually(Duration::from_millis(300), || o.len() >= want.len()).await {
            break;
        }
    }
    sleep_ms(150).await;
    w.barrier().await;
    let got = o.got.lock().unwrap().clone();
    for d in &got {
        match want.iter().find(|w| w.0 == d.data) {
            Some(w) if w.1 == d.from => {}
            Some(_) => ctx.violation("attribution", "a broadcast is attributed to someone else than its signer"),
            None => ctx.violation("forged", format!("{} bytes were delivered that nobody signed (or that are outdated)", d.data.len())),
        }
    }
    for (d, _) in &want {
        if !got.iter().any(|g| g.data == *d) {
            ctx.violation("lost", format!("a genuine broadcast of {} bytes was not delivered", d.len()));
        }
    }
    let relayed = check_relays(ctx, &w, &id, &genuine, "ordinary");
    ctx.count("relays_seen", relayed as u64);
    if relayed == 0 && !ctx.violated() {
        ctx.violation("not-relayed", "no broadcast was relayed to the only other member");
    }
    for (what, raw) in bad.iter().take(40) {
        if w.customs().contains(raw) {
            ctx.violation("relay", format!("a broadcast with altered {what} was relayed"));
        }
    }
}

/// Several parts, some of them altered copies, in random order.
async fn fec(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let o = n.public(&id, Default::default());
    let (s, w) = (member(rng, &n, &o).await, member(rng, &n, &o).await);
    let now = unix_now();
    let mut genuine = HashSet::new();
    let mut want: Vec<(Vec<u8>, [u8; 32])> = Vec::new();
    let mut unwanted: Vec<[u8; 32]> = Vec::new();
    for i in 0..4u32 {
        let who = Ident::gen(rng);
        let flags = [0, 1, 1, 3, 2][rng.gen_range(0..5)];
        let len = [rng.gen_range(1..768), rng.gen_range(769..4000), rng.gen_range(4000..40_000), 768 * 5][i as usize % 4];
        let data = fill(rng, len);
        let wire = if rng.gen_range(0..3) == 0 { compress(&data) } else { data.clone() };
        // what is delivered must hash to what was signed, even if the signer says otherwise
        let lie = match (round + i as u64) % 5 {
            4 => 1 + rng.gen_range(0..3u8),
            _ => 0,
        };
        let mut ps = match lie {
            1 => parts_of(&who, &rand_bytes(rng, 30), &wire, flags, now, 6),
            2 => parts_of(&who, &data, &wire, flags, now - 3000, 6),
            _ => parts_of(&who, &data, &wire, flags, now, 6),
        };
        if lie == 3 {
            for p in &mut ps {
                p.size = if i % 2 == 0 { p.size + 1 } else { p.size - 1 };
                p.sign(&who);
            }
        }
        let k = ps.len() - 6;
        // lose some, shuffle
        let lose = rng.gen_range(0..4usize).min(k);
        for _ in 0..lose {
            ps.remove(rng.gen_range(0..ps.len()));
        }
        if rng.gen() {
            for a in (1..ps.len()).rev() {
                ps.swap(a, rng.gen_range(0..a + 1));
            }
        }
        // altered parts of another broadcast (which is never sent itself)
        let ghost = rand_bytes(rng, len);
        let gid = Ident::gen(rng);
        for p in parts_of(&gid, &ghost, &ghost, flags, now, 12) {
            let (what, x) = alter(rng, p, &gid);
            let raw = x.ser(&id);
            unwanted.push(sha256(&raw));
            s.send(Msg::Custom(raw));
            ctx.count("altered_parts", 1);
            ctx.case(("altered part", what, flags & 1));
        }
        if rng.gen() {
            s.barrier().await;
        }
        for (j, p) in ps.iter().enumerate() {
            let raw = p.ser(&id);
            if lie != 2 {
                genuine.insert(raw.clone());
            }
            s.send(Msg::Custom(raw.clone()));
            if rng.gen_range(0..4) == 0 {
                s.send(Msg::Custom(raw));
            }
            if j % 20 == 19 {
                sleep_ms(2).await;
            }
        }
        ctx.count(if lie == 0 { "genuine_fec" } else { "lying_fec" }, 1);
        ctx.case(("fec", class(len), flags, wire.len() == data.len(), lie, lose));
        s.barrier().await;
        if lie == 0 {
            let mut ok = o.wait(&data, Duration::from_millis(800)).await;
            // more symbols than needed were sent, but the link may have lost some
            for extra in 1..6 {
                if ok {
                    break;
                }
                for p in parts_of(&who, &data, &wire, flags, now, 6 + 20 * extra).into_iter().skip(k + 6) {
                    let raw = p.ser(&id);
                    genuine.insert(raw.clone());
                    s.send(Msg::Custom(raw));
                }
                ok = o.wait(&data, Duration::from_millis(500)).await;
            }
            if !ok {
                ctx.violation("lost", format!("a broadcast of {len} bytes in parts was not delivered"));
            }
            want.push((data, who.short));
        }
    }
    sleep_ms(200).await;
    w.barrier().await;
    let got = o.got.lock().unwrap().clone();
    for d in &got {
        match want.iter().find(|w| w.0 == d.data) {
            Some(w) if w.1 == d.from => {}
            Some(_) => ctx.violation("attribution", "a broadcast in parts is attributed to someone else than its signer"),
            None => ctx.violation("forged", format!("{} bytes were delivered from parts that do not hash to what was signed, or are altered or outdated", d.data.len())),
        }
    }
    let relayed = check_relays(ctx, &w, &id, &genuine, "parts");
    ctx.count("relays_seen", relayed as u64);
    if relayed == 0 && !ctx.violated() {
        ctx.violation("not-relayed", "no part was relayed to the only other member");
    }
    if w.customs().iter().any(|d| unwanted.contains(&sha256(d))) {
        ctx.violation("relay", "an altered part was relayed");
    }
}

pub fn alter(rng: &mut SmallRng, p: Part, who: &Ident) -> (&'static str, Part) {
    let mut x = p;
    let what = match rng.gen_range(0..13) {
        0 => {
            let l = x.data.len();
            x.data[rng.gen_range(0..l)] ^= 1 << rng.gen_range(0..8);
            "data"
        }
        1 => {
            x.date = x.date.wrapping_add(1);
            "date"
        }
        2 => {
            x.src = Ident::gen(rng).public;
            "source"
        }
        3 => {
            x.flags ^= 1 << rng.gen_range(0..3);
            "flags"
        }
        4 => {
            x.sig[rng.gen_range(0..64)] ^= 1 << rng.gen_range(0..8);
            "signature"
        }
        5 => {
            x.hash[rng.gen_range(0..32)] ^= 1;
            "hash"
        }
        6 => {
            x.size ^= 1 << rng.gen_range(0..5);
            "size"
        }
        7 => {
            x.seqno ^= 1 << rng.gen_range(0..12);
            "number"
        }
        8 => {
            match rng.gen_range(0..3) {
                0 => x.fec.0 ^= 1 << rng.gen_range(0..16),
                1 => x.fec.1 ^= 1 << rng.gen_range(0..16),
                _ => x.fec.2 ^= 1 << rng.gen_range(0..8),
            }
            "coding parameters"
        }
        9 => {
            x.sig.truncate(rng.gen_range(0..64));
            "short signature"
        }
        10 => {
            let o = Ident::gen(rng);
            x.sig = o.sign(&x.to_sign()).to_vec();
            "other signer"
        }
        11 => {
            x.date = [0, u32::MAX, unix_now() - 1000][rng.gen_range(0..3)];
            "old or overflowing date"
        }
        _ => {
            x.date = unix_now() - 1000;
            x.sign(who);
            "outdated, signed"
        }
    };
    (what, x)
}
