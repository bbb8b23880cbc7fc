//! C04: packets follow the wire protocol, judged by the independent implementation in wire.rs.
use std::time::Duration;

use everscale_network::adnl;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::json;

use crate::nodes::*;
use crate::rt::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one datagram exchanged between the node and the independent protocol implementation (direction, packet form, version, priority, payload length, id order) or one damaged datagram; all are decided: opened, parsed and compared, or shown to be dropped");
    let mut rng = ctx.rng(1);
    let mut round = 0u64;
    while ctx.within(20, 600) && (round < 24 || !ctx.quick()) {
        let version = [None, Some(0u16)][round as usize % 2];
        let prio = (round / 2) % 2 == 1;
        one(&ctx, &mut rng, version, prio, round).await;
        round += 1;
    }
    // The version is carried by every packet whatever its number, so sending is checked for others too
    if !ctx.violated() {
        for v in [1u16, 2, 255, 256, 0xffff] {
            other_versions(&ctx, &mut rng, v).await;
        }
    }
    if !ctx.violated() {
        lookalikes(&ctx, &mut rng).await;
    }
    ctx.require("lookalikes", 4);
    ctx.require("from_node_handshake", 20);
    ctx.require("from_node_channel", 200);
    ctx.require("to_node", 200);
    ctx.require("shapes", 100);
    ctx.require("damaged", 100);
}

fn check_got(ctx: &C, g: &Got, want_version: Option<u16>, node: &TestNode) -> bool {
    if g.version != want_version {
        ctx.violation("version", format!("packet carries version {:?}, configured {want_version:?}", g.version));
        return false;
    }
    match g.via {
        Via::Handshake => {
            ctx.count("from_node_handshake", 1);
            let Some(from) = g.contents.from else {
                ctx.violation("handshake-sender", "handshake packet without the sender's key");
                return false;
            };
            if from != node.pk(0) {
                ctx.violation("handshake-sender", "handshake packet names a key that is not the node's");
                return false;
            }
            match &g.contents.signature {
                Some(s) if verify(&from, &g.contents.ser(false), s) => {}
                s => {
                    ctx.violation("handshake-signature", format!("handshake signature does not verify: {:?}", s.as_ref().map(|s| s.len())));
                    return false;
                }
            }
        }
        Via::Channel { prio } => {
            ctx.count("from_node_channel", 1);
            if prio {
                ctx.count("from_node_priority", 1);
            }
            if g.contents.from.is_some() || g.contents.from_short.is_some() {
                ctx.violation("channel-sender", "channel packet names a sender");
                return false;
            }
        }
    }
    // Our own writer reproduces the very bytes
    if g.contents.ser(true) != g.raw {
        ctx.violation("encoding", format!("packet contents are not the canonical encoding: {}", hex(&g.raw)));
        return false;
    }
    true
}

async fn one(ctx: &C, rng: &mut SmallRng, version: Option<u16>, prio: bool, round: u64) {
    let opts = adnl::NodeOptions {
        version,
        force_use_priority_channels: prio,
        ..default_opts()
    };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    // both forms have to be accepted whatever the node itself sends
    w.version = [None, Some(0)][rng.gen_range(0..2)];
    let order = w.me.short < w.to_short;

    // Handshake towards the node, and its reply
    for len in [4usize, 5, 100, 600, 800] {
        let data = rand_bytes(rng, len);
        let qid: [u8; 32] = rng.gen();
        let mut ok = false;
        for _ in 0..4 {
            w.send(rng, vec![Msg::Query { id: qid, data: data.clone() }]).await;
            while let Some(g) = w.recv(Duration::from_millis(1200)).await {
                if !check_got(ctx, &g, version, &node) {
                    return;
                }
                ok |= w.assemble(&g).iter().any(|m| matches!(m, Msg::Answer { id, data: d } if *id == qid && *d == echo_answer(&data)));
                if ok {
                    break;
                }
            }
            if ok {
                break;
            }
        }
        ctx.case(("handshake", len, version, w.version));
        ctx.count("to_node", 1);
        if !ok {
            ctx.violation("handshake", format!("handshake query of {len} bytes (version {:?}) not answered correctly; {} undecodable datagrams", w.version, w.undecodable));
            return;
        }
    }
    if w.undecodable > 0 {
        ctx.violation("undecodable", format!("{} datagrams of the node could not be opened (version {version:?})", w.undecodable));
        return;
    }
    // Channel
    if !w.establish_channel(rng).await {
        ctx.violation("channel", format!("no channel agreed with the independent implementation (order {order}, version {version:?}, {} undecodable)", w.undecodable));
        return;
    }
    ctx.count("channels", 1);
    ctx.count(if order { "wire_id_smaller" } else { "wire_id_greater" }, 1);
    let lens: Vec<usize> = (0..ctx.pick(40, 120)).map(|i| if i < 24 { 4 + i * 40 } else { rng.gen_range(4..940) }).collect();
    for len in lens {
        let data = rand_bytes(rng, len);
        if data[..4] == id::PING.to_le_bytes() {
            continue;
        }
        let wprio = rng.gen();
        w.version = [None, Some(0)][rng.gen_range(0..2)];
        // towards the node
        let mut ok = false;
        for _ in 0..4 {
            w.send_ch(rng, vec![Msg::Custom(data.clone())], wprio).await;
            if node.rec.wait(1, Duration::from_millis(1500), |e| e.data == data).await {
                ok = true;
                break;
            }
        }
        ctx.count("to_node", 1);
        ctx.case(("channel-in", len, w.version, wprio, order));
        if !ok {
            ctx.violation("channel-in", format!("channel packet (priority {wprio}, version {:?}, {len} bytes, id order {order}) not accepted", w.version));
            return;
        }
        // from the node
        let data = rand_bytes(rng, len);
        let mut ok = false;
        for _ in 0..4 {
            if node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), &data).is_err() {
                ctx.violation("send-refused", "the node refused to send to a peer with a channel");
                return;
            }
            while let Some(g) = w.recv(Duration::from_millis(1200)).await {
                if !check_got(ctx, &g, version, &node) {
                    return;
                }
                if g.msgs.iter().any(|m| *m == Msg::Custom(data.clone())) {
                    ok = true;
                    break;
                }
            }
            if ok {
                break;
            }
        }
        ctx.case(("channel-out", len, version, prio, order));
        if !ok {
            ctx.violation("channel-out", format!("a message of {len} bytes sent by the node was not readable by the peer (version {version:?}, priority {prio}, {} undecodable)", w.undecodable));
            return;
        }
    }
    if w.undecodable > 0 {
        ctx.violation("undecodable", format!("{} datagrams of the node could not be opened (version {version:?}, priority {prio})", w.undecodable));
        return;
    }
    if round < 4 {
        ctx.sample(json!({"version": version, "priority": prio, "wire_id_smaller": order, "payloads": 40}));
    }
    // packets of every shape
    if !shapes(ctx, rng, &node, &mut w).await {
        return;
    }
    // Damaged channel and handshake packets are dropped
    node.rec.take();
    let mut marks = Vec::new();
    for i in 0..ctx.pick(30, 120) {
        let mark = rand_bytes(rng, 40);
        let versioned = [None, Some(0)][rng.gen_range(0..2)];
        let hs = i % 3 == 0;
        let mut p = if hs {
            let mut c = w.handshake_contents(rng, vec![Msg::Custom(mark.clone())]);
            let me = w.me.clone();
            WirePeer::sign(&mut c, &me);
            seal_handshake(rng, &w.to_short, &w.to_pub, &c.ser(true), versioned)
        } else {
            let c = w.channel_contents(rng, vec![Msg::Custom(mark.clone())]);
            w.chan.as_ref().unwrap().seal(&c.ser(true), rng.gen(), versioned)
        };
        // damage the checksum, the version field or the data, not the addressing
        let start = if hs { 64 } else { 32 };
        let at = match i % 3 {
            0 => start + rng.gen_range(0..32),
            1 => start + rng.gen_range(0..40).min(p.len() - start - 1),
            _ => rng.gen_range(start..p.len()),
        };
        p[at] ^= 1 << rng.gen_range(0..8);
        w.send_raw(&p).await;
        ctx.case(("damaged", hs, versioned, at));
        ctx.count("damaged", 1);
        marks.push((mark, at, hs));
        if i % 10 == 9 {
            w.ping(rng, 4, Duration::from_millis(1000)).await;
        }
    }
    w.ping(rng, 4, Duration::from_millis(1000)).await;
    sleep_ms(10).await;
    for e in node.rec.take() {
        if let Some(m) = marks.iter().find(|m| m.0 == e.data) {
            ctx.violation("damaged-accepted", format!("datagram with a flipped bit at byte {} (handshake {}) was processed", m.1, m.2));
        } else {
            ctx.violation("damaged-accepted", "a damaged datagram produced an unknown message");
        }
    }
}

/// The configured version number is encoded as prescribed (receivers may not support it).
/// Valid packets with and without each optional field.
async fn shapes(ctx: &C, rng: &mut SmallRng, node: &TestNode, w: &mut WirePeer) -> bool {
    for i in 0..24u32 {
        let hs = i % 2 == 0;
        let prio = !hs && rng.gen();
        let marks: Vec<Vec<u8>> = (0..rng.gen_range(1..4)).map(|_| rand_bytes(rng, 24)).collect();
        let (short, single, vec) = (hs && rng.gen(), rng.gen::<bool>(), rng.gen::<bool>());
        let opt: [bool; 8] = rng.gen();
        let lens: [usize; 2] = std::array::from_fn(|_| [0, 1, 3, 7, 15, 31, 253, 254, 255, 260][rng.gen_range(0..10)]);
        let mut ok = false;
        for _ in 0..4 {
            let msgs: Vec<Msg> = marks.iter().map(|m| Msg::Custom(m.clone())).collect();
            let mut c = if hs { w.handshake_contents(rng, msgs) } else { w.channel_contents(rng, msgs) };
            if single {
                c.single = Some(c.messages.remove(0));
                c.force_vec = vec;
                if !vec && c.messages.len() == 1 {
                    c.force_vec = true;
                }
            } else {
                c.force_vec = vec;
            }
            c.rand1 = rand_bytes(rng, lens[0]);
            c.rand2 = rand_bytes(rng, lens[1]);
            if hs {
                if opt[0] {
                    c.from_short = Some(w.me.short);
                }
                if short {
                    c.from = None;
                    c.from_short = Some(w.me.short);
                }
            }
            let list = w.addr_list();
            if opt[1] {
                c.address = None;
            }
            if opt[2] {
                c.priority_address = Some(list);
            }
            if opt[3] {
                c.confirm_seqno = None;
            }
            if opt[4] {
                c.recv_ver = Some(rng.gen());
            }
            if opt[5] {
                c.recv_prio_ver = Some(rng.gen());
            }
            c.reinit = match opt[6] {
                true => None,
                false => Some((w.start, w.their_start)),
            };
            if opt[7] {
                c.seqno = None;
            }
            if hs || rng.gen() {
                let me = w.me.clone();
                WirePeer::sign(&mut c, &me);
            }
            if hs {
                w.send_contents(rng, &c).await;
            } else {
                let p = w.chan.as_ref().unwrap().seal(&c.ser(true), prio, w.version);
                w.send_raw(&p).await;
            }
            let mut all = true;
            for m in &marks {
                all &= node.rec.wait(1, Duration::from_millis(1200), |e| e.data == *m).await;
            }
            if all {
                ok = true;
                break;
            }
        }
        ctx.count("shapes", 1);
        ctx.case(("shape", hs, short, single, vec, marks.len(), opt));
        if !ok {
            ctx.violation(
                "shape",
                format!("a valid packet is not accepted in full: handshake {hs}, short id {short}, single message {single}, vector {vec}, {} messages, optional fields {opt:?}, random bytes {lens:?}", marks.len()),
            );
            return false;
        }
        // in their order, the single one first
        let order: Vec<usize> = node.rec.events.lock().unwrap().iter().filter_map(|e| marks.iter().position(|m| *m == e.data)).collect();
        if !order.windows(2).all(|x| x[0] < x[1]) && order.len() == marks.len() {
            ctx.violation("shape-order", format!("the messages of one packet were delivered in another order: {order:?}"));
            return false;
        }
    }
    true
}

async fn other_versions(ctx: &C, rng: &mut SmallRng, v: u16) {
    let opts = adnl::NodeOptions { version: Some(v), ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    w.send(rng, vec![Msg::Nop]).await;
    if !eventually(Duration::from_secs(3), || node.adnl.get_peer_address(&node.id(0), &sid(&w.me.short)).is_some()).await {
        node.know_wire(0, &w);
    }
    for _ in 0..4 {
        let data = rand_bytes(rng, 50);
        node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), &data).ok();
        if let Some(g) = w.recv(Duration::from_millis(1500)).await {
            ctx.case(("version", v));
            check_got(ctx, &g, Some(v), &node);
            return;
        }
        if w.undecodable > 0 {
            ctx.violation("undecodable", format!("packet of configured version {v} could not be opened"));
            return;
        }
    }
    ctx.violation("handshake", format!("no packet came from a node configured with version {v}"));
}

/// Packets without version whose bytes happen to pass for a version (one in 65536) are read all the same.
async fn lookalikes(ctx: &C, rng: &mut SmallRng) {
    let opts = adnl::NodeOptions { packet_signature_required: false, ..default_opts() };
    let node = TestNode::start(rng, 1, opts, Rec::echo());
    let mut w = WirePeer::new(rng, node.addr(), node.pk(0)).await;
    if !w.ping(rng, 10, Duration::from_millis(800)).await || !w.establish_channel(rng).await {
        ctx.inconclusive("no channel formed");
        return;
    }
    let tmp = Ident::gen(rng);
    let tmp_secret = tmp.shared(&w.to_pub).unwrap();
    let mut head = w.to_short.to_vec();
    head.extend_from_slice(&tmp.public);
    for i in 0..ctx.pick(3, 12) {
        for kind in 0..3 {
            // 0: handshake naming only the short id, unsigned; 1, 2: channel
            let mut ok = false;
            for _ in 0..3 {
                let mut mark = rand_bytes(rng, 20 + 7 * i);
                mark[..4].copy_from_slice(&0x5151_0001u32.to_le_bytes());
                let mut c = if kind == 0 {
                    let mut c = w.handshake_contents(rng, vec![Msg::Custom(mark.clone())]);
                    c.from = None;
                    c.from_short = Some(w.me.short);
                    c
                } else {
                    w.channel_contents(rng, vec![Msg::Custom(mark.clone())])
                };
                let mut n = 0u32;
                let p = loop {
                    n += 1;
                    c.rand2[..4].copy_from_slice(&n.to_le_bytes());
                    let p = if kind == 0 { seal(head.clone(), &tmp_secret, &c.ser(true), None) } else { w.chan.as_ref().unwrap().seal(&c.ser(true), kind == 2, None) };
                    if looks_versioned(&p, if kind == 0 { 64 } else { 32 }) {
                        break p;
                    }
                };
                w.send_raw(&p).await;
                if node.rec.wait(1, Duration::from_millis(1500), |e| e.data == mark).await {
                    ok = true;
                    break;
                }
            }
            ctx.count("lookalikes", 1);
            ctx.case(("lookalike", kind, i));
            if !ok {
                ctx.violation("lookalike-dropped", format!("valid packets without version which happen to look versioned are dropped ({})", ["handshake", "channel", "priority channel"][kind]));
                return;
            }
        }
    }
    ctx.check_panics("lookalikes");
}
