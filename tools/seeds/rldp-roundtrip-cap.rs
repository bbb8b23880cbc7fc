//! A query nobody answers ends after the maximum timeout.
use std::time::Duration;
use everscale_network::rldp;
use nodes::*;
use rldpw::*;
use rt::*;
use serve::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let opts = rldp::NodeOptions { query_min_timeout_ms: 300, query_max_timeout_ms: 800, ..Default::default() };
        let n = RNode::start(&mut rng, opts, Rec::echo());
        let s = Serve::new(&mut rng, n.n.addr(), n.n.pk(0)).await;
        n.knows(&s);
        s.set(|_| vec![]);
        let (r, local, peer) = (n.rldp.clone(), n.n.id(0), sid(&s.me.short));
        let q = rand_bytes(&mut rng, 50);
        match tokio::time::timeout(Duration::from_secs(30), run_node(async move { r.query(&local, &peer, q, Some(100_000)).await })).await {
            Err(_) => Err("not over after 30 s although 800 ms are the maximum".into()),
            Ok(Some(Ok((None, _)))) => Ok(()),
            Ok(_) => Err("an answer or an error".into()),
        }
    })
}
