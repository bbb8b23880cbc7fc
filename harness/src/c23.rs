//! C23: forged broadcast parts cannot suppress a genuine broadcast.
use std::collections::HashSet;
use std::time::Duration;

use everscale_network::overlay;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::c21::alter;
use crate::nodes::*;
use crate::overw::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one genuine broadcast whose parts reach a node among forged ones of one kind, placed before, between or after them, or one hostile broadcast; non-trivial because the genuine broadcast has to be delivered from its genuine parts alone while every relay is checked to be genuine; distinct by kind of forgery, place, size and flags");
    let mut rng = ctx.rng(23);
    let only = std::env::var("EVMON_ONLY").ok().and_then(|x| x.parse::<u64>().ok());
    let mut tasks = Vec::new();
    for i in (0..4u64).filter(|i| only.is_none_or(|o| o == *i)) {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = i * 3;
            let last = round + [10, 10, 10, 3][i as usize];
            while ctx.within(28, 600) && (round < last || !ctx.quick()) && !ctx.violated() {
                match i {
                    0..=2 => forged(&ctx, &mut rng, round).await,
                    _ => hostile(&ctx, &mut rng).await,
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    if only.is_none() {
        ctx.require("attacked", 60);
        ctx.require("forged_parts", 800);
        ctx.require("hostile_parts", 60);
        ctx.require("bombs", 4);
    }
    ctx.check_panics("overlay broadcasts");
}

const KINDS: [&str; 10] = [
    "altered parts",
    "same numbers, other data",
    "own parts with the same hash",
    "own parts with other parameters",
    "own parts with another size",
    "impossible parameters",
    "unsigned, all numbers",
    "hash of a whole broadcast",
    "own parts of the same data",
    "far numbers",
];

/// Forged parts against the broadcast `ps` of `who`.
fn forge(rng: &mut SmallRng, kind: usize, ps: &[Part], who: &Ident, evil: &Ident) -> Vec<Part> {
    let mut out = Vec::new();
    let n = ps.len();
    match kind {
        0 => {
            for _ in 0..25 {
                let p = ps[rng.gen_range(0..n)].clone();
                let x = alter(rng, p, who).1;
                // only those whose signature is bad, outdated ones are checked elsewhere
                out.push(x);
            }
        }
        1 => {
            for p in ps {
                let mut x = p.clone();
                x.data = rand_bytes(rng, p.data.len());
                out.push(x);
            }
        }
        2 => {
            for p in ps {
                let mut x = p.clone();
                x.data = rand_bytes(rng, p.data.len());
                x.sign(evil);
                out.push(x);
            }
        }
        3 => {
            for p in ps {
                let mut x = p.clone();
                match rng.gen_range(0..3) {
                    0 => x.fec.0 = rng.gen_range(1..5000),
                    1 => x.fec.1 = rng.gen_range(64..2000),
                    _ => x.fec.2 = rng.gen(),
                }
                x.sign(evil);
                out.push(x);
            }
        }
        4 => {
            for p in ps {
                let mut x = p.clone();
                x.size = [0, x.size + 1, u32::MAX, x.size - 1][rng.gen_range(0..4)];
                x.sign(evil);
                out.push(x);
            }
        }
        5 => {
            for _ in 0..20 {
                let mut x = ps[rng.gen_range(0..n)].clone();
                x.fec = [(0, 768, 1), (u32::MAX, 768, 1), (100, 0, 1), (100, 1, 1), (u32::MAX, u32::MAX, 0), (0, 0, 0), (1, 65535, 1), (50_000_000, 8, 9), (70_000, 65536, 2)][rng.gen_range(0..9)];
                if rng.gen() {
                    x.data = vec![];
                }
                if rng.gen() {
                    x.sign(evil);
                }
                out.push(x);
            }
        }
        6 => {
            for i in 0..300u32 {
                let mut x = ps[rng.gen_range(0..n)].clone();
                x.seqno = i;
                x.sig = vec![0; 64];
                out.push(x);
            }
        }
        8 => {
            for p in ps.iter().take(n / 2) {
                let mut x = p.clone();
                x.sign(evil);
                out.push(x);
            }
        }
        9 => {
            for s in [511, 512, 1024, 65_535, 1 << 20, u32::MAX - 1, u32::MAX, 0xff_0000, 0xff_0001, 1 << 24] {
                let mut x = ps[rng.gen_range(0..n)].clone();
                x.seqno = s;
                out.push(x.clone());
                x.sign(evil);
                out.push(x);
            }
        }
        _ => {}
    }
    out
}

async fn forged(ctx: &C, rng: &mut SmallRng, round: u64) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let o = n.public(&id, overlay::OverlayOptions::default());
    let (s, x, w) = (member(rng, &n, &o).await, member(rng, &n, &o).await, member(rng, &n, &o).await);
    let evil = Ident::gen(rng);
    let mut genuine: HashSet<Vec<u8>> = HashSet::new();
    let mut signed_evil: HashSet<Vec<u8>> = HashSet::new();
    let mut datas: HashSet<Vec<u8>> = HashSet::new();
    for i in 0..4u64 {
        let kind = ((round + i * 3) % KINDS.len() as u64) as usize;
        let place = (round + i) % 4;
        let who = Ident::gen(rng);
        let flags = rng.gen_range(0..2);
        let len = [600, 3000, 20_000, 768 * 3][rng.gen_range(0..4)];
        let data = rand_bytes(rng, len);
        if kind == 7 {
            // parts whose hash is the id of a whole broadcast
            let b = Bcast::new(&who, ANY, &data[..300], unix_now());
            let mut p = parts(&evil, &rand_bytes(rng, 2000), 1).remove(0);
            p.hash = sha256(&b.to_sign(&data[..300]));
            p.sign(&evil);
            x.send(Msg::Custom(p.ser(&id)));
            signed_evil.insert(p.ser(&id));
            x.barrier().await;
            genuine.insert(b.ser(&id));
            let mut ok = false;
            for _ in 0..4 {
                s.send(Msg::Custom(b.ser(&id)));
                s.barrier().await;
                ok = o.wait(&data[..300], Duration::from_millis(400)).await;
                if ok {
                    break;
                }
            }
            if !ok {
                ctx.violation("suppressed", "a genuine broadcast is not delivered after a part that names its id as hash");
            }
            ctx.count("attacked", 1);
            ctx.count("forged_parts", 1);
            ctx.case((KINDS[kind], flags));
            continue;
        }
        let ps = parts_of(&who, &data, &data, flags, unix_now(), 4);
        let bad = forge(rng, kind, &ps, &who, &evil);
        ctx.count("forged_parts", bad.len() as u64);
        for p in &bad {
            if p.valid() && p.src != who.public {
                signed_evil.insert(p.ser(&id));
            }
        }
        for p in &ps {
            genuine.insert(p.ser(&id));
        }
        let mut hostile = bad.iter();
        let place_name = ["before", "between", "after the first", "twice before"][place as usize];
        if place == 0 || place == 3 {
            for _ in 0..if place == 3 { 2 } else { 1 } {
                for (j, p) in bad.iter().enumerate() {
                    x.send(Msg::Custom(p.ser(&id)));
                    if j % 20 == 19 {
                        sleep_ms(2).await;
                    }
                }
            }
            x.barrier().await;
            hostile = [].iter();
        }
        let per = (bad.len() / ps.len()).max(1);
        for (j, p) in ps.iter().enumerate() {
            s.send(Msg::Custom(p.ser(&id)));
            if place == 2 && j == 0 {
                s.barrier().await;
                for (k, p) in hostile.by_ref().enumerate() {
                    x.send(Msg::Custom(p.ser(&id)));
                    if k % 20 == 19 {
                        sleep_ms(2).await;
                    }
                }
                x.barrier().await;
            }
            if place == 1 {
                for p in hostile.by_ref().take(per) {
                    x.send(Msg::Custom(p.ser(&id)));
                }
                if rng.gen_range(0..4) == 0 {
                    x.barrier().await;
                }
            }
            if j % 20 == 19 {
                sleep_ms(2).await;
            }
        }
        s.barrier().await;
        // what may have been lost on the way is repeated with new symbols, by the genuine source only
        let mut ok = o.wait(&data, Duration::from_millis(600)).await;
        for extra in 1..6u32 {
            if ok {
                break;
            }
            for p in parts_of(&who, &data, &data, flags, unix_now(), 4 + 10 * extra).into_iter().skip(ps.len()) {
                genuine.insert(p.ser(&id));
                s.send(Msg::Custom(p.ser(&id)));
            }
            s.barrier().await;
            ok = o.wait(&data, Duration::from_millis(400)).await;
        }
        if !ok {
            ctx.violation("suppressed", format!("a genuine broadcast of {len} bytes is not delivered from its genuine parts with {} forged ones {place_name} ({})", bad.len(), KINDS[kind]));
        }
        ctx.count("attacked", 1);
        ctx.case((KINDS[kind], place, len, flags));
        // a part which someone else signed anew is a broadcast of the same data by them
        let resigned = matches!(kind, 3 | 4 | 8);
        datas.insert(data.clone());
        for d in o.got.lock().unwrap().iter() {
            if d.data == data && d.from != who.short && !(resigned && d.from == evil.short) {
                ctx.violation("attribution", format!("a genuine broadcast is attributed to someone else ({})", KINDS[kind]));
            }
        }
        if ctx.violated() {
            break;
        }
    }
    sleep_ms(150).await;
    for p in [&w, &s, &x] {
        p.barrier().await;
        for d in p.customs() {
            if !genuine.contains(&d) && !signed_evil.contains(&d) && read_om(&d).is_ok() {
                ctx.violation("relay", "a forged part was relayed");
            }
        }
    }
    if o.got.lock().unwrap().iter().any(|d| d.from == evil.short && !datas.contains(&d.data)) {
        ctx.violation("forged", "something was delivered from parts of a member that never sent the data");
    }
}

/// Grows to `mb` megabytes when decompressed.
fn bomb(mb: usize) -> Vec<u8> {
    let mut z = vec![0x28, 0xb5, 0x2f, 0xfd, 0x00, 7 << 3];
    let blocks = mb * 8;
    for i in 0..blocks {
        let h: u32 = (i + 1 == blocks) as u32 | 1 << 1 | (128 * 1024) << 3;
        z.extend_from_slice(&h.to_le_bytes()[..3]);
        z.push(0);
    }
    z.push(0x80);
    z
}
fn peak_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines().find(|l| l.starts_with("VmHWM")).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok()).unwrap_or(0) / 1024
}

async fn hostile(ctx: &C, rng: &mut SmallRng) {
    let id = rand32(rng);
    let n = OvNode::start(rng);
    let o = n.public(&id, Default::default());
    let s = member(rng, &n, &o).await;
    let evil = Ident::gen(rng);
    // parts of every shape, correctly signed
    for i in 0..40u32 {
        let mut p = parts(&evil, &rand_bytes(rng, 1500), 2).remove(rng.gen_range(0..4));
        p.hash = rand32(rng);
        p.fec = (
            [0, 1, 63, 768, 769, 43_000_000, 44_000_000, u32::MAX, rng.gen()][rng.gen_range(0..9)],
            [0, 1, 7, 8, 63, 64, 65, 768, 65_535, 65_536, u32::MAX, rng.gen()][rng.gen_range(0..12)],
            rng.gen(),
        );
        p.size = [p.fec.0, rng.gen(), 0][rng.gen_range(0..3)];
        p.seqno = [rng.gen_range(0..4), rng.gen(), u32::MAX, 1 << 24, (1 << 24) - 1][rng.gen_range(0..5)];
        let l = [0, 1, 63, 64, 768, 900, (p.fec.1 as usize).min(900)][rng.gen_range(0..7)];
        p.data = rand_bytes(rng, l);
        p.sign(&evil);
        s.send(Msg::Custom(p.ser(&id)));
        // enough of it to make it decode
        if i % 4 == 0 {
            for q in 0..4 {
                p.seqno = q;
                p.sign(&evil);
                s.send(Msg::Custom(p.ser(&id)));
            }
        }
        ctx.count("hostile_parts", 1);
        ctx.case(("hostile", p.fec.0.leading_zeros(), p.fec.1.leading_zeros(), l));
        if i % 10 == 9 {
            s.barrier().await;
        }
    }
    // little data that becomes a lot, whole (not even signed) and in parts
    let before = peak_mb();
    let z = bomb(1500);
    for kind in 0..2 {
        if kind == 0 {
            let mut b = Bcast::new(&evil, ANY, &z, unix_now());
            b.sig[3] ^= 1;
            s.send(Msg::Custom(b.ser(&id)));
        } else {
            for (j, p) in parts_of(&evil, &rand_bytes(rng, 9), &z, ANY, unix_now(), 12).iter().enumerate() {
                s.send(Msg::Custom(p.ser(&id)));
                if j % 10 == 9 {
                    sleep_ms(2).await;
                }
            }
        }
        s.barrier().await;
        sleep_ms(400).await;
        ctx.count("bombs", 1);
        ctx.case(("bomb", kind));
    }
    let grown = peak_mb().saturating_sub(before);
    if grown > 900 {
        ctx.violation("memory", format!("{} bytes of hostile broadcasts made the node use {grown} MB", z.len()));
    }
    // it still works
    let who = Ident::gen(rng);
    let data = rand_bytes(rng, 3000);
    let mut ok = false;
    for extra in 0..5u32 {
        for p in parts_of(&who, &data, &data, ANY, unix_now(), 3 + 5 * extra) {
            s.send(Msg::Custom(p.ser(&id)));
        }
        ok = o.wait(&data, Duration::from_millis(800)).await;
        if ok {
            break;
        }
    }
    if !ok {
        ctx.violation("suppressed", "a genuine broadcast is not delivered after hostile ones");
    }
    if o.len() > 1 {
        ctx.violation("forged", "a hostile broadcast was delivered");
    }
}
