//! A broadcast is delivered once, compressed or not.
use std::time::Duration;
use everscale_network::overlay;
use nodes::*;
use overw::*;
use rt::*;
use tl::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let id = rand32(&mut rng);
        let n = OvNode::start(&mut rng);
        let o = n.public(&id, overlay::OverlayOptions::default());
        let m = member(&mut rng, &n, &o).await;
        let data = rand_bytes(&mut rng, 200);
        let b = Bcast::new(&m.me, 1, &data, unix_now());
        for _ in 0..3 {
            m.send(Msg::Custom(b.ser(&id)));
            sleep_ms(50).await;
            m.send(Msg::Custom(b.clone().packed().ser(&id)));
            sleep_ms(50).await;
        }
        if !o.wait(&data, Duration::from_secs(2)).await {
            return Err("not delivered".into());
        }
        sleep_ms(300).await;
        match o.count(&data) {
            1 => Ok(()),
            c => Err(format!("delivered {c} times")),
        }
    })
}
