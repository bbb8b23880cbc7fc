//! At most max_peer_queries queries to a peer are under way.
use std::sync::Arc;
use std::time::Duration;
use everscale_network::rldp;
use nodes::*;
use rldpw::*;
use rt::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let opts = rldp::NodeOptions { query_min_timeout_ms: 4000, query_max_timeout_ms: 8000, max_peer_queries: 2, ..Default::default() };
        let n = Arc::new(RNode::start(&mut rng, opts, Rec::echo()));
        // never answers
        let p = RPeer::new(&mut rng, &n, |_, _| vec![]).await;
        let peer = p.s.me.short;
        for k in 0..6u8 {
            let n = n.clone();
            tokio::spawn(async move { n.query(peer, vec![k; 50]).await });
        }
        sleep_ms(2500).await;
        let got = p.queries.lock().unwrap().len();
        if got == 0 {
            return Err("no query arrived".into());
        }
        if got > 2 {
            return Err(format!("{got} queries are under way"));
        }
        Ok(())
    })
}
