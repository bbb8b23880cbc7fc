//! Targets after one which cannot be reached are served as well.
use std::sync::Arc;
use everscale_network::overlay;
use nodes::*;
use overw::*;
use rt::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let id = rand32(&mut rng);
        let n = OvNode::start(&mut rng);
        let o = n.public(&id, overlay::OverlayOptions::default());
        let a = member(&mut rng, &n, &o).await;
        let b = member(&mut rng, &n, &o).await;
        let unknown = rand32(&mut rng);
        let t = Arc::new(vec![sid(&a.me.short), sid(&unknown), sid(&b.me.short)]);
        for _ in 0..10 {
            let d = rand_bytes(&mut rng, 30);
            o.send_to(d, overlay::BroadcastTarget::Explicit(t.clone()));
            sleep_ms(50).await;
        }
        a.barrier().await;
        b.barrier().await;
        if heard(&a).is_empty() {
            return Err("the first target got nothing".into());
        }
        if heard(&b).is_empty() {
            return Err("the target after an unknown one got nothing".into());
        }
        Ok(())
    })
}
