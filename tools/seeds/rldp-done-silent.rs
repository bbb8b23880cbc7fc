//! Whoever repeats packets of a finished transfer is told that it is complete.
use std::time::Duration;
use everscale_network::rldp;
use nodes::*;
use rldpw::*;
use rt::*;
use tl::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let n = RNode::start(&mut rng, rldp::NodeOptions { query_min_timeout_ms: 3000, ..Default::default() }, Rec::echo());
        let p = RPeer::new(&mut rng, &n, |_, _| vec![]).await;
        let (tid, qid) = (rand32(&mut rng), rand32(&mut rng));
        let q = rquery(&qid, 1 << 20, &rand_bytes(&mut rng, 2000));
        if p.ask(&tid, &q, Duration::from_secs(20)).await.is_none() {
            return Err("no answer".into());
        }
        p.s.barrier().await;
        let seen = || p.log.lock().unwrap().iter().filter(|m| matches!(m, RM::Complete { tid: t, .. } if *t == tid)).count();
        let before = seen();
        let parts = transfer(&tid, &q, 5);
        for i in 0..100 {
            p.send(&parts[i % parts.len()]);
            sleep_ms(20).await;
            if seen() > before {
                return Ok(());
            }
        }
        Err("the completion is not repeated".into())
    })
}
