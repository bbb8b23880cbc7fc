//! Nothing is left of a query that was answered.
use std::time::Duration;
use everscale_network::rldp;
use nodes::*;
use rldpw::*;
use rt::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let opts = rldp::NodeOptions { query_min_timeout_ms: 300, query_max_timeout_ms: 900, ..Default::default() };
        let n = RNode::start(&mut rng, opts, Rec::new(|e| Act::Answer(Some(e.data.clone()))));
        let p = RPeer::new(&mut rng, &n, |_, _| vec![]).await;
        let mut answered = 0;
        for _ in 0..5 {
            let (tid, qid, q) = (rand32(&mut rng), rand32(&mut rng), rand_bytes(&mut rng, 60));
            if p.ask(&tid, &rquery(&qid, 1 << 20, &q), Duration::from_secs(5)).await.is_some() {
                answered += 1;
            }
        }
        if answered == 0 {
            return Err("no query was answered".into());
        }
        let mut left = 0;
        for _ in 0..200 {
            left = n.rldp.metrics().transfers_cache_len;
            if left == 0 {
                return Ok(());
            }
            sleep_ms(100).await;
        }
        Err(format!("{left} transfers are left of {answered} answered queries"))
    })
}
