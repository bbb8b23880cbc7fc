//! Who shows an expired address list does not become known.
use std::time::Duration;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(4);
        let n = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        let mut ok = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        let mut w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        let mut d = 0x7777_1111u32.to_le_bytes().to_vec();
        d.extend_from_slice(b"outdated");
        for _ in 0..3 {
            let mut c = w.handshake_contents(&mut rng, vec![Msg::Custom(d.clone())]);
            let mut l = w.addr_list();
            l.version = unix_now() - 100;
            l.expire_at = unix_now() - 10;
            c.address = Some(l);
            WirePeer::sign(&mut c, &w.me);
            w.send_contents(&mut rng, &c).await;
            sleep_ms(50).await;
        }
        if !ok.ping(&mut rng, 10, Duration::from_millis(500)).await {
            return Err("no contact".into());
        }
        if n.rec.len() > 0 || n.adnl.metrics().peer_count != 1 {
            return Err("a stranger with an expired address was accepted".into());
        }
        Ok(())
    })
}
