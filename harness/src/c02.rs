//! C02: only authenticated packets act.
use std::time::Duration;

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

struct Env {
    node: TestNode,
    honest: WirePeer,
    attacker: WirePeer,
    /// honest peer of the second local identity
    honest2: WirePeer,
}

fn marker(rng: &mut SmallRng) -> Vec<u8> {
    let mut v = vec![0x77, 0x66, 0x55, 0x44];
    v.extend(rand_bytes(rng, 28));
    v
}

/// Message that would be noticed if it were processed, with the bytes to look for.
fn noticeable(rng: &mut SmallRng) -> (Msg, Vec<u8>) {
    let m = marker(rng);
    match rng.gen_range(0..2) {
        0 => (Msg::Custom(m.clone()), m),
        _ => (Msg::Query { id: rng.gen(), data: m.clone() }, m),
    }
}

async fn env(rng: &mut SmallRng, required: bool, version: Option<u16>) -> Env {
    let opts = adnl::NodeOptions {
        packet_signature_required: required,
        packet_history_enabled: false,
        version,
        ..default_opts()
    };
    let node = TestNode::start(rng, 2, opts, Rec::echo());
    let mut honest = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    let mut honest2 = WirePeer::new(rng, node.addr(), node.pk(1)).await;
    let mut attacker = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    honest.version = version;
    honest2.version = version;
    attacker.version = version;
    let _ = &mut attacker;
    Env { node, honest, attacker, honest2 }
}

pub async fn run(ctx: C) {
    ctx.rule("one case = one hostile datagram (variant, signature policy, packet version); non-trivial because an honest twin of each variant family is shown to be delivered in the same environment; distinct by variant, policy, version and mutated position");
    let mut rng = ctx.rng(1);
    let mut round = 0u64;
    while ctx.within(25, 600) && (round < 12 || !ctx.quick()) {
        let required = round % 3 != 2;
        let version = if round % 2 == 0 { None } else { Some(0) };
        one_round(&ctx, &mut rng, required, version, round).await;
        round += 1;
    }
    for _ in 0..ctx.pick(4, 30) {
        untouched(&ctx, &mut rng).await;
        if ctx.violated() {
            break;
        }
    }
    ctx.require("untouched_offers", 4);
    if clock_is_virtual() {
        ctx.require("untouched_channels", 4);
    }
    ctx.require("honest_controls", 40);
    ctx.require("hostile_packets", 500);
}

/// Packets with a channel's id that its peer did not make, `n` of them.
async fn garbage(w: &WirePeer, ch: &Chan, rng: &mut SmallRng, n: usize) {
    let c = Contents { rand1: vec![1; 3], rand2: vec![2; 7], seqno: Some(900), confirm_seqno: Some(0), messages: vec![Msg::Nop.ser()], ..Default::default() };
    for k in 0..n {
        let prio = rng.gen();
        let p = match k % 4 {
            0 => {
                let len = rng.gen_range(0..200);
                [ch.out_id(prio).to_vec(), rand_bytes(rng, len)].concat()
            }
            1 => {
                let mut p = ch.seal(&c.ser(false), prio, None);
                let i = rng.gen_range(32..p.len());
                p[i] ^= 1 << rng.gen_range(0..8);
                p
            }
            2 => seal(ch.out_id(prio).to_vec(), &rand32(rng), &c.ser(false), None),
            // what the node itself sent, sent back under the other id
            _ => seal(ch.out_id(prio).to_vec(), &ch.in_secret(prio), &c.ser(false), None),
        };
        w.send_raw(&p).await;
    }
}

/// Packets with the id of a channel that do not come from its peer do not touch it: they neither confirm an offer nor
/// keep a dead channel alive.
pub async fn untouched(ctx: &C, rng: &mut SmallRng) {
    let _op = ctx.op("untouched");
    let opts = adnl::NodeOptions { channel_reset_timeout_sec: 10, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    let mut stranger = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    let pid = sid(&w.me.short);
    // an offer that is not confirmed yet
    let mut ch = None;
    for _ in 0..10 {
        let date = unix_now();
        let m = vec![Msg::Create { key: w.chan_key.public, date }, Msg::Query { id: rng.gen(), data: W::new().u32(id::PING).u64(1).done() }];
        w.send(rng, m).await;
        let key = w.recv_msg(Duration::from_millis(800), |_, m| if let Msg::Confirm { key, date, .. } = m { Some((*key, *date)) } else { None }).await;
        if let Some((key, date)) = key {
            ch = Chan::new(&w.me.short, &w.to_short, &w.chan_key, &key, date);
            break;
        }
    }
    let Some(ch) = ch else {
        ctx.violation("no-service", "an honest offer of a channel is not confirmed");
        return;
    };
    for who in [&w, &stranger] {
        garbage(who, &ch, rng, 12).await;
    }
    sleep_ms(40).await;
    if !stranger.ping(rng, 6, Duration::from_millis(1500)).await {
        ctx.violation("no-service", "an honest peer is not answered");
        return;
    }
    w.drain();
    let mut via = None;
    for k in 0..8u8 {
        let d = [b"still?".as_slice(), &[k]].concat();
        node.adnl.send_custom_message(&node.id(0), &pid, &d).ok();
        via = w.recv_msg(Duration::from_millis(800), |g, m| if *m == Msg::Custom(d.clone()) { Some((g.via, g.msgs.iter().any(|m| matches!(m, Msg::Confirm { .. })))) } else { None }).await;
        if via.is_some() {
            break;
        }
        // it may have been sent over the channel, which is not set up on this side
        if w.undecodable > 0 {
            break;
        }
    }
    if via != Some((Via::Handshake, true)) {
        ctx.violation("channel-touched", format!("undecipherable packets with its id made an offered channel count as confirmed (next message: {via:?}, {} datagrams that are no handshake)", w.undecodable));
        return;
    }
    ctx.count("untouched_offers", 1);
    ctx.case(("untouched", "offer"));
    // an established one
    let mut ok = false;
    for _ in 0..4 {
        ok = ok || w.establish_channel(rng).await;
    }
    let Some(ch) = w.chan.clone().filter(|_| ok) else {
        ctx.violation("no-channel", "an honest peer gets no channel");
        return;
    };
    if !clock_is_virtual() {
        return;
    }
    sleep_ms(30).await;
    let ask = || {
        let (adnl, l) = (node.adnl.clone(), node.id(0));
        run_node(async move { adnl.query_raw(&l, &pid, vec![3u8; 8].into(), Some(30)).await })
    };
    ask().await;
    clock_shift(6);
    for who in [&w, &stranger] {
        garbage(who, &ch, rng, 12).await;
    }
    sleep_ms(40).await;
    stranger.ping(rng, 6, Duration::from_millis(1500)).await;
    clock_shift(6);
    // the time is up since the first unanswered query
    ask().await;
    sleep_ms(30).await;
    w.drain();
    let mut via = None;
    for k in 0..8u8 {
        let d = [b"again?".as_slice(), &[k]].concat();
        node.adnl.send_custom_message(&node.id(0), &pid, &d).ok();
        via = w.recv_msg(Duration::from_millis(800), |g, m| if *m == Msg::Custom(d.clone()) { Some(g.via) } else { None }).await;
        if via.is_some() {
            break;
        }
    }
    if via != Some(Via::Handshake) {
        ctx.violation("channel-touched", format!("undecipherable packets with its id keep a channel alive whose peer has not been heard of beyond the reset timeout (next message: {via:?})"));
        return;
    }
    ctx.count("untouched_channels", 1);
    ctx.case(("untouched", "channel"));
}

async fn barrier(ctx: &C, e: &mut Env, rng: &mut SmallRng) -> bool {
    if !e.honest.ping(rng, 6, Duration::from_millis(1500)).await {
        ctx.violation("honest-refused", "after hostile packets an honest, correctly signed peer is no longer served");
        return false;
    }
    sleep_ms(15).await;
    true
}

async fn one_round(ctx: &C, rng: &mut SmallRng, required: bool, version: Option<u16>, round: u64) {
    let mut e = env(rng, required, version).await;
    let label = format!("required={required} version={version:?}");

    // ---- honest controls
    for (who, what) in [(0, "peer"), (1, "second identity")] {
        let w = if who == 0 { &mut e.honest } else { &mut e.honest2 };
        if !w.ping(rng, 6, Duration::from_millis(1500)).await {
            ctx.violation("honest-refused", format!("honest signed ping of {what} not answered ({label})"));
            return;
        }
        ctx.count("honest_controls", 1);
    }
    // honest from_short, signed
    {
        let m = marker(rng);
        let mut ok = false;
        for _ in 0..4 {
            let mut c = e.honest.handshake_contents(rng, vec![Msg::Custom(m.clone())]);
            c.from = None;
            c.from_short = Some(e.honest.me.short);
            c.address = None;
            let me = e.honest.me.clone();
            WirePeer::sign(&mut c, &me);
            e.honest.send_contents(rng, &c).await;
            if e.node.rec.wait(1, Duration::from_millis(1500), |ev| ev.data == m).await {
                ok = true;
                break;
            }
        }
        if !ok {
            ctx.violation("honest-refused", format!("signed packet naming a known short id was not delivered ({label})"));
            return;
        }
        ctx.count("honest_controls", 1);
    }
    // both full and short sender, agreeing
    {
        let m = marker(rng);
        let mut ok = false;
        for _ in 0..4 {
            let mut c = e.honest.handshake_contents(rng, vec![Msg::Custom(m.clone())]);
            c.from_short = Some(e.honest.me.short);
            let me = e.honest.me.clone();
            WirePeer::sign(&mut c, &me);
            e.honest.send_contents(rng, &c).await;
            if e.node.rec.wait(1, Duration::from_millis(1500), |ev| ev.data == m).await {
                ok = true;
                break;
            }
        }
        if !ok {
            ctx.violation("honest-refused", format!("signed packet with full key and matching short id was not delivered ({label})"));
            return;
        }
        ctx.count("honest_controls", 1);
    }
    if !required {
        // unsigned is fine when signatures are not required
        for short in [false, true] {
            let m = marker(rng);
            let mut ok = false;
            for _ in 0..4 {
                let mut c = e.honest.handshake_contents(rng, vec![Msg::Custom(m.clone())]);
                if short {
                    c.from = None;
                    c.from_short = Some(e.honest.me.short);
                }
                e.honest.send_contents(rng, &c).await;
                if e.node.rec.wait(1, Duration::from_millis(1500), |ev| ev.data == m).await {
                    ok = true;
                    break;
                }
            }
            if !ok {
                ctx.violation("honest-refused", format!("unsigned packet (short={short}) not delivered although signatures are optional"));
                return;
            }
            ctx.count("honest_controls", 1);
        }
    }
    // A channel for the honest peer
    if !e.honest.establish_channel(rng).await {
        ctx.violation("no-channel", format!("no channel could be established ({label})"));
        return;
    }
    ctx.count("honest_controls", 1);
    e.honest.drain();
    e.node.rec.take();

    let before = e.node.adnl.metrics();
    let addr_before = e.node.adnl.get_peer_address(&e.node.id(0), &sid(&e.honest.me.short));
    let chan = e.honest.chan.clone().unwrap();

    // ---- hostile packets
    let mut marks: Vec<(Vec<u8>, String)> = Vec::new();
    let attack_rounds = ctx.pick(2, 6);
    for _ in 0..attack_rounds {
        let variants = 40;
        for v in 0..variants {
            let (m, mark) = noticeable(rng);
            let msgs = vec![m];
            let mut detail = 0usize;
            // Attack packets are sent from the attacker's socket, with the attacker's address in them
            let mut c = e.attacker.handshake_contents(rng, msgs.clone());
            c.reinit = Some((e.honest.start, 0));
            let victim = e.honest.me.clone();
            let atk = e.attacker.me.clone();
            let to0 = (e.attacker.to_short, e.attacker.to_pub);
            let to1 = (e.honest2.to_short, e.honest2.to_pub);
            let mut to = to0;
            let mut raw: Option<Vec<u8>> = None;
            let mut name;
            match v {
                0 => {
                    name = "own key, wrong signer";
                    WirePeer::sign(&mut c, &victim);
                }
                1 => {
                    name = "own key, no signature";
                    if !required {
                        continue;
                    }
                }
                2 => {
                    name = "own key, damaged signature";
                    WirePeer::sign(&mut c, &atk);
                    detail = rng.gen_range(0..64);
                    c.signature.as_mut().unwrap()[detail] ^= 1 << rng.gen_range(0..8);
                }
                3 => {
                    name = "victim's key, attacker's signature";
                    c.from = Some(victim.public);
                    WirePeer::sign(&mut c, &atk);
                }
                4 => {
                    name = "victim's key, no signature";
                    c.from = Some(victim.public);
                    if !required {
                        continue;
                    }
                }
                5 => {
                    name = "full key and another's short id, signed";
                    c.from_short = Some(victim.short);
                    WirePeer::sign(&mut c, &atk);
                }
                6 => {
                    name = "known short id, no signature";
                    c.from = None;
                    c.from_short = Some(victim.short);
                    if rng.gen() {
                        c.address = None;
                    }
                    if !required {
                        continue;
                    }
                }
                7 => {
                    name = "known short id, attacker's signature";
                    c.from = None;
                    c.from_short = Some(victim.short);
                    WirePeer::sign(&mut c, &atk);
                }
                8 => {
                    name = "unknown short id, signed";
                    c.from = None;
                    c.from_short = Some(atk.short);
                    WirePeer::sign(&mut c, &atk);
                }
                9 => {
                    name = "no sender, signed";
                    c.from = None;
                    WirePeer::sign(&mut c, &atk);
                }
                10 => {
                    name = "no sender, unsigned";
                    c.from = None;
                }
                11 => {
                    name = "signature of the wrong length";
                    WirePeer::sign(&mut c, &atk);
                    detail = [0usize, 1, 32, 63, 65, 128][rng.gen_range(0..6)];
                    c.signature.as_mut().unwrap().resize(detail, 0);
                }
                12..=19 => {
                    // valid signature, one field changed afterwards
                    if v % 2 == 0 {
                        c.from = Some(victim.public);
                        WirePeer::sign(&mut c, &victim);
                    } else {
                        WirePeer::sign(&mut c, &atk);
                    }
                    let k = v - 12;
                    name = [
                        "message changed after signing",
                        "message changed after signing (own)",
                        "address changed after signing",
                        "seqno changed after signing",
                        "dates changed after signing",
                        "padding changed after signing",
                        "message added after signing",
                        "rand1 changed after signing",
                    ][k];
                    match k {
                        0 | 1 => {
                            let (m2, _) = noticeable(rng);
                            // keep the mark, change the rest of the signed message
                            c.messages = vec![match m2 {
                                Msg::Custom(_) => Msg::Custom(mark.clone()).ser(),
                                _ => Msg::Query { id: rng.gen(), data: mark.clone() }.ser(),
                            }];
                            c.rand2.push(1);
                        }
                        2 => c.address.as_mut().unwrap().addrs[0].1 ^= 1,
                        3 => c.seqno = Some(c.seqno.unwrap() + 1),
                        4 => c.reinit = Some((c.reinit.unwrap().0 + 1, 0)),
                        5 => c.rand2[0] ^= 1,
                        6 => c.messages.push(Msg::Nop.ser()),
                        _ => c.rand1[0] ^= 1,
                    }
                }
                20 => {
                    name = "addressed to an unknown identity";
                    WirePeer::sign(&mut c, &atk);
                    to = (rng.gen(), to.1);
                }
                21 => {
                    name = "addressed to one identity, encrypted for another";
                    WirePeer::sign(&mut c, &atk);
                    to = (to1.0, to0.1);
                }
                22 => {
                    name = "captured packet re-targeted to the other identity";
                    c.from = Some(victim.public);
                    WirePeer::sign(&mut c, &victim);
                    let mut p = seal_handshake(rng, &to0.0, &to0.1, &c.ser(true), version);
                    p[..32].copy_from_slice(&to1.0);
                    raw = Some(p);
                }
                23..=27 => {
                    name = "datagram with a flipped bit";
                    WirePeer::sign(&mut c, &atk);
                    let mut p = seal_handshake(rng, &to0.0, &to0.1, &c.ser(true), version);
                    detail = match v {
                        23 => rng.gen_range(0..32),
                        24 => rng.gen_range(32..64),
                        25 => rng.gen_range(64..100),
                        _ => rng.gen_range(100..p.len()),
                    };
                    // the top bit of an x25519/ed25519 key may legitimately not matter
                    let bit = if (32..64).contains(&detail) { rng.gen_range(0..7) } else { rng.gen_range(0..8) };
                    p[detail] ^= 1 << bit;
                    raw = Some(p);
                }
                28 => {
                    name = "truncated datagram";
                    WirePeer::sign(&mut c, &atk);
                    let mut p = seal_handshake(rng, &to0.0, &to0.1, &c.ser(true), version);
                    detail = rng.gen_range(1..p.len());
                    p.truncate(detail);
                    raw = Some(p);
                }
                29 => {
                    name = "extended datagram";
                    WirePeer::sign(&mut c, &atk);
                    let mut p = seal_handshake(rng, &to0.0, &to0.1, &c.ser(true), version);
                    detail = rng.gen_range(1..20);
                    p.extend(rand_bytes(rng, detail));
                    raw = Some(p);
                }
                30 => {
                    name = "unsupported packet version";
                    WirePeer::sign(&mut c, &atk);
                    let ver = [1u16, 2, 255, 256, 0x7fff, 0xffff][rng.gen_range(0..6)];
                    detail = ver as usize;
                    raw = Some(seal_handshake(rng, &to0.0, &to0.1, &c.ser(true), Some(ver)));
                }
                31 => {
                    name = "channel id with a foreign secret";
                    let mut c2 = c.clone();
                    c2.from = None;
                    let prio = rng.gen();
                    let secret: [u8; 32] = rng.gen();
                    raw = Some(seal(chan.out_id(prio).to_vec(), &secret, &c2.ser(true), version));
                }
                32 => {
                    name = "channel packet sealed with the other priority's secret";
                    let mut c2 = c.clone();
                    c2.from = None;
                    let prio = rng.gen();
                    raw = Some(seal(chan.out_id(prio).to_vec(), &chan.out_secret(!prio), &c2.ser(true), version));
                }
                33 => {
                    name = "channel packet sealed with the reverse direction's secret";
                    let mut c2 = c.clone();
                    c2.from = None;
                    let prio = rng.gen();
                    raw = Some(seal(chan.out_id(prio).to_vec(), &chan.in_secret(prio), &c2.ser(true), version));
                }
                34 => {
                    name = "channel packet reflected to its sender's inbound id";
                    let mut c2 = c.clone();
                    c2.from = None;
                    raw = Some(seal(chan.in_id(false).to_vec(), &chan.in_secret(false), &c2.ser(true), version));
                }
                35 => {
                    name = "channel packet naming a sender";
                    let mut c2 = c.clone();
                    c2.reinit = None;
                    match rng.gen_range(0..3) {
                        0 => c2.from = Some(victim.public),
                        1 => {
                            c2.from = None;
                            c2.from_short = Some(victim.short);
                        }
                        _ => c2.from = Some(atk.public),
                    }
                    if rng.gen() {
                        WirePeer::sign(&mut c2, &victim);
                    }
                    raw = Some(chan.seal(&c2.ser(true), rng.gen(), version));
                }
                36 => {
                    name = "channel packet with a wrong signature";
                    let mut c2 = c.clone();
                    c2.from = None;
                    c2.reinit = None;
                    WirePeer::sign(&mut c2, &atk);
                    raw = Some(chan.seal(&c2.ser(true), rng.gen(), version));
                }
                37 | 38 => {
                    name = "channel datagram with a flipped bit";
                    let mut c2 = c.clone();
                    c2.from = None;
                    c2.reinit = None;
                    let mut p = chan.seal(&c2.ser(true), rng.gen(), version);
                    detail = rng.gen_range(0..p.len());
                    p[detail] ^= 1 << rng.gen_range(0..8);
                    raw = Some(p);
                }
                _ => {
                    name = "channel creation forged for the victim";
                    c.from = Some(victim.public);
                    c.messages.insert(0, Msg::Create { key: e.attacker.chan_key.public, date: unix_now() + 10 }.ser());
                    WirePeer::sign(&mut c, &atk);
                }
            }
            if rng.gen_bool(0.2) && raw.is_none() && ![12, 13, 14, 15, 16, 17, 18, 19].contains(&v) {
                // same attack with several messages
                name = name.trim_end();
            }
            let p = raw.unwrap_or_else(|| seal_handshake(rng, &to.0, &to.1, &c.ser(true), version));
            e.attacker.send_raw(&p).await;
            ctx.case((name, required, version, detail));
            ctx.count("hostile_packets", 1);
            if round == 0 && v % 8 == 0 {
                ctx.sample(json!({"variant": name, "signatures_required": required, "version": version, "bytes": p.len()}));
            }
            marks.push((mark, format!("{name} (detail {detail}, {label})")));
            if v % 10 == 9 && !barrier(ctx, &mut e, rng).await {
                return;
            }
        }
    }
    if !barrier(ctx, &mut e, rng).await {
        return;
    }
    for ev in e.node.rec.take() {
        if let Some((_, name)) = marks.iter().find(|(m, _)| *m == ev.data) {
            ctx.violation(
                "unauthenticated-delivered",
                format!("message of a hostile packet was delivered (from {}): {name}", hex(&ev.peer[..4])),
            );
        }
    }
    // No reply to the attacker
    let mut replies = 0;
    while let Some(g) = e.attacker.recv(Duration::from_millis(1)).await {
        replies += 1;
        ctx.violation("unauthenticated-answered", format!("the node sent something to the attacker: {:?} ({label})", g.msgs));
        break;
    }
    if replies == 0 && e.attacker.undecodable > 0 {
        ctx.violation("unauthenticated-answered", format!("the node sent {} datagrams to the attacker's address ({label})", e.attacker.undecodable));
    }
    let after = e.node.adnl.metrics();
    if after.peer_count != before.peer_count {
        ctx.violation("peer-registered", format!("hostile packets changed the number of peers {} -> {} ({label})", before.peer_count, after.peer_count));
    }
    if after.channels_by_peers_len != before.channels_by_peers_len {
        ctx.violation("channel-registered", format!("hostile packets changed the number of channels {} -> {} ({label})", before.channels_by_peers_len, after.channels_by_peers_len));
    }
    let addr = e.node.adnl.get_peer_address(&e.node.id(0), &sid(&e.honest.me.short));
    if addr != addr_before {
        ctx.violation("peer-redirected", format!("hostile packets moved the address of an honest peer to {addr:?} ({label})"));
    }
    // The honest peer's channel still works
    let m = marker(rng);
    let mut ok = false;
    for _ in 0..4 {
        e.honest.send_ch(rng, vec![Msg::Custom(m.clone())], false).await;
        if e.node.rec.wait(1, Duration::from_millis(1500), |ev| ev.data == m).await {
            ok = true;
            break;
        }
    }
    if !ok {
        ctx.violation("channel-broken", format!("after hostile packets the honest peer's channel no longer works ({label})"));
    } else {
        ctx.count("honest_controls", 1);
    }
}
