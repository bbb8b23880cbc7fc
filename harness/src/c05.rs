//! C05: hostile datagrams do not crash, wedge or bloat the node.
use std::time::{Duration, Instant};

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

fn weird_u32(rng: &mut SmallRng) -> u32 {
    match rng.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => u32::MAX - rng.gen_range(0..1100),
        4 => 0x8000_0000,
        5 => rng.gen_range(0..5000),
        6 => unix_now(),
        _ => rng.gen(),
    }
}

pub fn weird_msg(rng: &mut SmallRng, depth: u32) -> Vec<u8> {
    match rng.gen_range(0..13) {
        0 => Msg::Custom(rand_bytes_upto(rng, 8)).ser(),
        1 => Msg::Query { id: rng.gen(), data: rand_bytes_upto(rng, 8) }.ser(),
        2 => Msg::Answer { id: rng.gen(), data: rand_bytes_upto(rng, 40) }.ser(),
        3 => Msg::Create { key: weird_key(rng), date: weird_u32(rng) }.ser(),
        4 => Msg::Confirm { key: weird_key(rng), peer_key: weird_key(rng), date: weird_u32(rng) }.ser(),
        5 => Msg::Nop.ser(),
        6 => Msg::Reinit(weird_u32(rng)).ser(),
        7 if depth < 2 => {
            // a complete one-part transfer of something weird, possibly another part
            let inner = weird_msg(rng, depth + 1);
            Msg::Part { hash: sha256(&inner), total: inner.len() as u32, offset: 0, data: inner }.ser()
        }
        8 => {
            let d = rand_bytes_upto(rng, 300);
            Msg::Part { hash: sha256(&d), total: d.len() as u32, offset: weird_u32(rng), data: d }.ser()
        }
        9 => Msg::Part { hash: rng.gen(), total: weird_u32(rng), offset: weird_u32(rng), data: rand_bytes_upto(rng, 100) }.ser(),
        10 => Msg::Part { hash: sha256(&[]), total: 0, offset: 0, data: vec![] }.ser(),
        11 => rand_bytes_upto(rng, 60),
        _ => W::new().u32(rng.gen()).raw(&rand_bytes_upto(rng, 60)).done(),
    }
}

fn weird_key(rng: &mut SmallRng) -> [u8; 32] {
    match rng.gen_range(0..4) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => rng.gen(),
        _ => Ident::gen(rng).public,
    }
}

fn rand_bytes_upto(rng: &mut SmallRng, max: usize) -> Vec<u8> {
    let n = rng.gen_range(0..=max);
    rand_bytes(rng, n)
}

fn weird_addr(rng: &mut SmallRng, w: &WirePeer) -> AddrList {
    let mut a = w.addr_list();
    match rng.gen_range(0..7) {
        0 => a.addrs.clear(),
        1 => a.addrs.push((weird_u32(rng), weird_u32(rng))),
        2 => a.addrs[0].1 = weird_u32(rng),
        3 => a.reinit_date = weird_u32(rng),
        4 => a.expire_at = weird_u32(rng),
        5 => a.priority = weird_u32(rng),
        _ => a.version = weird_u32(rng),
    }
    a
}

pub async fn run(ctx: C) {
    ctx.rule("one case = one hostile datagram; kinds: random bytes, addressed garbage, correctly encrypted garbage, well-formed packets with malicious fields (handshake and channel), multi-packet sequences against transfers; distinct by kind and content hash; after every batch an honest peer is served, no thread spins, nothing panicked");
    let mut rng = ctx.rng(1);
    let continued: Vec<_> = (0..3u64)
        .map(|i| {
            let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
            tokio::spawn(async move { continued(&ctx, &mut SmallRng::seed_from_u64(seed), i).await })
        })
        .collect();
    let mut batch = 0u64;
    while ctx.within(25, 900) && (batch < 10 || !ctx.quick()) {
        one(&ctx, &mut rng, batch).await;
        batch += 1;
    }
    if !ctx.violated() {
        spoiled(&ctx, &mut rng).await;
    }
    ctx.require("spoiled", 10);
    for t in continued {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    ctx.require("continued", 12);
    ctx.require("hostile", 2000);
    ctx.require("honest_served", 20);
}

pub async fn one(ctx: &C, rng: &mut SmallRng, batch: u64) {
    let opts = adnl::NodeOptions {
        transfer_timeout_sec: 1,
        packet_history_enabled: batch % 2 == 0,
        packet_signature_required: batch % 3 != 2,
        ..default_opts()
    };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut honest = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    let mut mal = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if !mal.ping(rng, 5, Duration::from_secs(1)).await || !mal.establish_channel(rng).await {
        ctx.violation("honest-refused", "a fresh node does not serve a fresh peer");
        return;
    }
    let chan = mal.chan.clone().unwrap();
    let mut last_desc = String::new();
    for group in 0..8 {
        for i in 0..ctx.pick(50u64, 120) {
            let kind = rng.gen_range(0..12);
            let p: Vec<u8> = match kind {
                0 => {
                    let n = [0usize, 1, 3, 31, 32, 33, 63, 64, 65, 67, 68, 69, 95, 96, 97, 99, 100, 101, 128, 1400, 2047, 2048, 2049, 3000][rng.gen_range(0..24)];
                    rand_bytes(rng, n)
                }
                1 | 2 => {
                    // addressed garbage of any length
                    let mut p = match rng.gen_range(0..4) {
                        0 => node.idents[0].short.to_vec(),
                        1 => chan.out_id(false).to_vec(),
                        2 => chan.out_id(true).to_vec(),
                        _ => chan.in_id(false).to_vec(),
                    };
                    if rng.gen() {
                        p.extend_from_slice(&Ident::gen(rng).public);
                    }
                    let n = [0usize, 1, 3, 4, 5, 31, 32, 33, 36, 37, 60, 64, 68, 69, 100, 500][rng.gen_range(0..16)];
                    p.extend(rand_bytes(rng, n));
                    p
                }
                3 | 4 => {
                    // properly encrypted garbage
                    let n = [0usize, 1, 3, 4, 8, 16, 40, 100, 400][rng.gen_range(0..9)];
                    let mut d = rand_bytes(rng, n);
                    if rng.gen() {
                        d = [id::PACKET.to_le_bytes().to_vec(), d].concat();
                    }
                    let v = [None, Some(0)][rng.gen_range(0..2)];
                    if kind == 3 {
                        seal_handshake(rng, &mal.to_short, &mal.to_pub, &d, v)
                    } else {
                        chan.seal(&d, rng.gen(), v)
                    }
                }
                5 => {
                    // valid contents with one byte changed, correctly sealed and re-signed or not
                    let m = weird_msg(rng, 0);
                    let mut c = mal.handshake_contents(rng, vec![]);
                    c.messages = vec![m];
                    let me = mal.me.clone();
                    WirePeer::sign(&mut c, &me);
                    let mut d = c.ser(true);
                    for _ in 0..rng.gen_range(1..4) {
                        let i = rng.gen_range(0..d.len());
                        d[i] = rng.gen();
                    }
                    if rng.gen_bool(0.3) {
                        let n = rng.gen_range(0..d.len());
                        d.truncate(n);
                    }
                    seal_handshake(rng, &mal.to_short, &mal.to_pub, &d, None)
                }
                6 => {
                    let mut c = mal.channel_contents(rng, vec![]);
                    c.messages = vec![weird_msg(rng, 0)];
                    let mut d = c.ser(true);
                    for _ in 0..rng.gen_range(0..4) {
                        let i = rng.gen_range(0..d.len());
                        d[i] = rng.gen();
                    }
                    chan.seal(&d, rng.gen(), None)
                }
                _ => {
                    // fully valid packet around malicious fields
                    let hs = rng.gen_bool(0.6);
                    let mut c = if hs { mal.handshake_contents(rng, vec![]) } else { mal.channel_contents(rng, vec![]) };
                    let n = [1usize, 1, 1, 2, 3, 0][rng.gen_range(0..6)];
                    c.messages = (0..n).map(|_| weird_msg(rng, 0)).collect();
                    c.force_vec = rng.gen_bool(0.2);
                    if rng.gen_bool(0.2) {
                        c.seqno = Some([0, 1, u64::MAX, u64::MAX - 1, u64::MAX - 500, rng.gen()][rng.gen_range(0..6)]);
                    }
                    if rng.gen_bool(0.2) {
                        c.confirm_seqno = Some([u64::MAX, 1, rng.gen()][rng.gen_range(0..3)]);
                    }
                    if rng.gen_bool(0.2) {
                        c.address = Some(weird_addr(rng, &mal));
                    }
                    if rng.gen_bool(0.1) {
                        c.priority_address = Some(weird_addr(rng, &mal));
                    }
                    if rng.gen_bool(0.1) {
                        c.recv_ver = Some(weird_u32(rng));
                        c.recv_prio_ver = Some(weird_u32(rng));
                    }
                    if hs && rng.gen_bool(0.2) {
                        c.reinit = Some((weird_u32(rng), weird_u32(rng)));
                    }
                    if rng.gen_bool(0.05) {
                        c.rand2 = rand_bytes(rng, 255);
                    }
                    if rng.gen_bool(0.03) {
                        c.flags_xor = 1 << rng.gen_range(0..32);
                    }
                    if hs {
                        let me = mal.me.clone();
                        WirePeer::sign(&mut c, &me);
                    }
                    let d = c.ser(true);
                    if hs {
                        seal_handshake(rng, &mal.to_short, &mal.to_pub, &d, None)
                    } else {
                        chan.seal(&d, rng.gen(), None)
                    }
                }
            };
            last_desc = format!("batch {batch} group {group} packet {i} kind {kind} len {}", p.len());
            mal.send_raw(&p).await;
            ctx.case((kind, sha256(&p)));
            ctx.count("hostile", 1);
            if group == 0 && batch == 0 && i % 6 == 0 {
                ctx.sample(json!({"kind": kind, "len": p.len()}));
            }
            if i % 25 == 24 {
                sleep_ms(1).await;
            }
        }
        // Directed sequences against transfers and channels
        sequences(ctx, rng, &mut mal).await;
        ctx.check_panics(&format!("hostile datagrams, near {last_desc}"));
        if ctx.violated() {
            return;
        }
        if !honest.ping(rng, 8, Duration::from_millis(1500)).await {
            // Who is to blame: a hang or drops?
            ctx.violation("wedged", format!("an honest peer is no longer served after hostile datagrams ({last_desc})"));
            return;
        }
        ctx.count("honest_served", 1);
        mal.drain();
        mal.chan_key = Ident::gen(rng);
    }
    if let Some(s) = spinning("node").await {
        ctx.violation("spin", format!("a node thread keeps spinning after hostile datagrams: {s}"));
        return;
    }
    // Partial transfers disappear
    let t = Instant::now();
    let n = node.adnl.metrics().incoming_transfers_len;
    ctx.count("partial_transfers", n as u64);
    if !eventually(Duration::from_secs(12), || node.adnl.metrics().incoming_transfers_len == 0).await {
        ctx.violation("transfers-leak", format!("{} unfinished transfers left {:?} after the last part, timeout 1 s", node.adnl.metrics().incoming_transfers_len, t.elapsed()));
    }
}

/// Transfers continued over one or more of their timeouts and then abandoned are gone some time later. Timeouts are
/// counted in whole seconds, so that they have to be longer than one to be outlived.
async fn continued(ctx: &C, rng: &mut SmallRng, i: u64) {
    let timeout = 2 + i % 2;
    let opts = adnl::NodeOptions { transfer_timeout_sec: timeout, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if !w.ping(rng, 8, Duration::from_secs(1)).await {
        ctx.inconclusive("no contact");
        return;
    }
    if i == 2 {
        w.establish_channel(rng).await;
    }
    let ids: Vec<[u8; 32]> = (0..6).map(|_| rand32(rng)).collect();
    for k in 0..8u32 {
        for (j, hash) in ids.iter().enumerate() {
            // the first is never continued, the last is continued longest
            if k <= j as u32 + (j as u32 / 3) {
                let data = rand_bytes(rng, 500);
                let m = Msg::Part { hash: *hash, total: 6000, offset: 500 * k, data };
                for _ in 0..2 {
                    send_both(rng, &mut w, m.clone()).await;
                }
            }
        }
        sleep_ms(850).await;
        w.drain();
    }
    ctx.count("continued", ids.len() as u64);
    ctx.case(("continued", timeout, i));
    let t = Instant::now();
    if !eventually(Duration::from_secs(3 * timeout + 12), || node.adnl.metrics().incoming_transfers_len == 0).await {
        ctx.violation("transfers-leak", format!("{} unfinished transfers of 6 are left {:?} after the last part, timeout {timeout} s", node.adnl.metrics().incoming_transfers_len, t.elapsed()));
    }
}

/// A peer that knows what another one is about to send in several packets cannot spoil it.
async fn spoiled(ctx: &C, rng: &mut SmallRng) {
    let node = TestNode::start(rng, 1, default_opts(), Rec::echo());
    let mut honest = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    let mut mal = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if !honest.ping(rng, 8, Duration::from_secs(1)).await || !mal.ping(rng, 8, Duration::from_secs(1)).await {
        ctx.inconclusive("no contact");
        return;
    }
    for case in 0..10u32 {
        let mut d = 0x5a3e_0002u32.to_le_bytes().to_vec();
        d.extend(rand_bytes(rng, 3000));
        let raw = Msg::Custom(d.clone()).ser();
        let (hash, total) = (sha256(&raw), raw.len() as u32);
        let part = |o: usize, d: &[u8], total: u32| Msg::Part { hash, total, offset: o as u32, data: d.to_vec() };
        let bad: Vec<Msg> = match case % 5 {
            0 => vec![part(0, &rand_bytes(rng, 900), total)],
            1 => vec![part(0, &raw[..10], 11)],
            2 => vec![part(900, &[1], total), part(0, &[2], total)],
            3 => vec![part(2000, &rand_bytes(rng, 1000), total), part(5, &rand_bytes(rng, 1000), total)],
            _ => vec![part(0, &raw[..900], u32::MAX)],
        };
        let late = case >= 5;
        let mut seq: Vec<(bool, Msg)> = raw.chunks(900).enumerate().map(|(i, c)| (true, part(i * 900, c, total))).collect();
        for m in bad {
            seq.insert(if late { 1 } else { 0 }, (false, m));
        }
        for (good, m) in seq {
            let w = if good { &mut honest } else { &mut mal };
            w.send(rng, vec![m]).await;
            ctx.count("hostile", !good as u64);
            sleep_ms(10).await;
        }
        ctx.count("spoiled", 1);
        ctx.case(("spoiled", case));
        if !node.rec.wait(1, Duration::from_secs(5), |e| e.data == d && e.peer == honest.me.short).await {
            return ctx.violation("spoiled", format!("a long message of an honest peer is lost because another peer sent parts that claim to belong to it (kind {case})"));
        }
    }
}

async fn send_both(rng: &mut SmallRng, w: &mut WirePeer, m: Msg) {
    if w.chan.is_some() && rng.gen() {
        let p = rng.gen();
        w.send_ch(rng, vec![m], p).await;
    } else {
        w.send(rng, vec![m]).await;
    }
}

async fn sequences(ctx: &C, rng: &mut SmallRng, w: &mut WirePeer) {
    let pause = Duration::from_millis(2);
    // the second part completes the total while an empty part sits at the needed offset
    for variant in 0..8 {
        let body = rand_bytes(rng, 64);
        let hash = if rng.gen() { sha256(&body) } else { rng.gen() };
        let total = body.len() as u32;
        let part = |o: u32, d: &[u8]| Msg::Part { hash, total, offset: o, data: d.to_vec() };
        let seq = match variant {
            0 => vec![part(0, &[]), part(1, &body)],
            1 => vec![part(0, &body[..32]), part(32, &[]), part(33, &body[32..])],
            2 => vec![part(0, &body[..40]), part(20, &body[..24])],
            3 => vec![part(0, &body[..60]), part(10, &body[..60])],
            4 => vec![part(u32::MAX, &body[..32]), part(u32::MAX - 10, &body[..32])],
            5 => vec![part(0, &body[..32]), part(0, &body), part(32, &body[32..])],
            6 => vec![
                part(0, &body[..32]),
                Msg::Part { hash, total: 10, offset: 0, data: body[..10].to_vec() },
                Msg::Part { hash, total: u32::MAX, offset: 32, data: body[32..].to_vec() },
            ],
            _ => vec![
                Msg::Part { hash, total: 0, offset: 0, data: vec![] },
                Msg::Part { hash, total: 0, offset: 0, data: vec![1] },
                Msg::Part { hash, total: 1, offset: 0, data: vec![] },
                Msg::Part { hash, total: 1, offset: 5, data: vec![1] },
            ],
        };
        for m in seq {
            send_both(rng, w, m).await;
            tokio::time::sleep(pause).await;
            ctx.count("hostile", 1);
        }
        ctx.case(("sequence", variant, rng.gen::<u8>()));
    }
}
