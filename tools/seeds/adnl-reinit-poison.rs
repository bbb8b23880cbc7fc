//! A packet rejected for a reinit date in the future must not make later genuine packets stale.
use std::time::Duration;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(4);
        let n = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        let mut w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        if !w.ping(&mut rng, 10, Duration::from_millis(500)).await {
            return Err("no contact".into());
        }
        let mut d = 0x7777_1111u32.to_le_bytes().to_vec();
        d.extend_from_slice(b"from the future!");
        let mut c = w.handshake_contents(&mut rng, vec![Msg::Custom(d)]);
        let (_, dst) = c.reinit.unwrap_or_default();
        c.reinit = Some((unix_now() + 50_000, dst));
        WirePeer::sign(&mut c, &w.me);
        for _ in 0..3 {
            w.send_contents(&mut rng, &c).await;
            sleep_ms(50).await;
        }
        if n.rec.len() > 0 {
            return Err("a packet from the future was processed".into());
        }
        if !w.ping(&mut rng, 10, Duration::from_millis(500)).await {
            return Err("genuine packets are ignored after one from the future was rejected".into());
        }
        Ok(())
    })
}
