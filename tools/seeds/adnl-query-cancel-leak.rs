//! Timed out and cancelled queries must not stay pending.
use std::time::Duration;
use bytes::Bytes;
use nodes::*;
use rt::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(2);
        let n = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        // a peer that never answers
        let w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        n.know_wire(0, &w);
        let (me, peer) = (n.id(0), sid(&w.me.short));
        for i in 0..8u8 {
            let adnl = n.adnl.clone();
            run_node(async move { adnl.query_raw(&me, &peer, Bytes::from(vec![i; 40]), Some(60)).await.ok() }).await;
        }
        for i in 0..8u8 {
            let adnl = n.adnl.clone();
            let t = node_rt().spawn(async move { adnl.query_raw(&me, &peer, Bytes::from(vec![i; 40]), Some(60_000)).await.ok() });
            sleep_ms(50).await;
            t.abort();
        }
        if !eventually(Duration::from_secs(5), || n.adnl.metrics().query_count == 0).await {
            return Err(format!("{} queries are still pending", n.adnl.metrics().query_count));
        }
        Ok(())
    })
}
