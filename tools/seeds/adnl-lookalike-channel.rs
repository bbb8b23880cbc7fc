//! Packets without version are understood even when they look versioned by chance.
use std::time::Duration;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(4);
        let n = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        let mut w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        if !w.ping(&mut rng, 10, Duration::from_millis(500)).await || !w.establish_channel(&mut rng).await {
            return Err("no channel".into());
        }
        let mut d = 0x7777_1111u32.to_le_bytes().to_vec();
        d.extend_from_slice(b"just a message");
        for _ in 0..3 {
            let mut c = w.channel_contents(&mut rng, vec![Msg::Custom(d.clone())]);
            let mut k = 0u32;
            let p = loop {
                k += 1;
                c.rand2[..4].copy_from_slice(&k.to_le_bytes());
                let p = w.chan.as_ref().unwrap().seal(&c.ser(true), false, None);
                if looks_versioned(&p, 32) {
                    break p;
                }
            };
            w.send_raw(&p).await;
            if n.rec.wait(1, Duration::from_secs(2), |e| e.data == d).await {
                return Ok(());
            }
        }
        Err("a valid channel packet was dropped".into())
    })
}
