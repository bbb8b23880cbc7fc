//! An unsigned packet must not be taken for one of the known peer it names.
use std::time::Duration;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(4);
        let n = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        let mut w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        if !w.ping(&mut rng, 10, Duration::from_millis(500)).await {
            return Err("no contact".into());
        }
        let mut d = 0x7777_1111u32.to_le_bytes().to_vec();
        d.extend_from_slice(b"I am somebody else");
        // from the outside, with nothing but public knowledge
        let mut mal = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        for _ in 0..3 {
            let mut c = mal.handshake_contents(&mut rng, vec![Msg::Custom(d.clone())]);
            c.from = None;
            c.from_short = Some(w.me.short);
            c.address = None;
            c.seqno = Some(w.seqno as u64 + 5);
            c.signature = None;
            mal.send_contents(&mut rng, &c).await;
            sleep_ms(100).await;
        }
        if n.rec.count(|e| e.data == d) > 0 {
            return Err("an unsigned packet was attributed to a peer".into());
        }
        if !w.ping(&mut rng, 10, Duration::from_millis(500)).await {
            return Err("the peer lost contact".into());
        }
        Ok(())
    })
}
