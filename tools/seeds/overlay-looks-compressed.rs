//! What looks compressed is delivered as it was sent.
use std::time::Duration;
use everscale_network::overlay;
use nodes::*;
use overw::*;
use rt::*;
use tl::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let id = rand32(&mut rng);
        let n = OvNode::start(&mut rng);
        let o = n.public(&id, overlay::OverlayOptions::default());
        let m = member(&mut rng, &n, &o).await;
        let inner = rand_bytes(&mut rng, 3000);
        let data = compress(&inner);
        for _ in 0..4 {
            for p in parts(&m.me, &data, 6) {
                m.send(Msg::Custom(p.ser(&id)));
                sleep_ms(2).await;
            }
            if o.wait(&data, Duration::from_secs(1)).await || o.len() > 0 {
                break;
            }
        }
        if o.count(&inner) > 0 {
            return Err("a broadcast was altered".into());
        }
        if o.count(&data) != 1 {
            return Err("a broadcast was not delivered".into());
        }
        Ok(())
    })
}
