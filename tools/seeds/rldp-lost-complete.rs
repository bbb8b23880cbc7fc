//! A sender whose first 'complete' of a part was lost has to get another one when it repeats a packet of that part.
use std::time::Duration;
use everscale_network::rldp;
use nodes::*;
use rldpw::*;
use rt::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let opts = rldp::NodeOptions { query_min_timeout_ms: 4000, query_max_timeout_ms: 15000, ..Default::default() };
        let n = RNode::start(&mut rng, opts, Rec::echo());
        let p = RPeer::new(&mut rng, &n, |_, _| vec![]).await;
        let tid = rand32(&mut rng);
        let query = rquery(&rand32(&mut rng), 1 << 20, &rand_bytes(&mut rng, SLICE + 5000));
        let parts = transfer(&tid, &query, 20);
        let of = |k: u32| parts.iter().filter(move |m| matches!(m, RM::Part { part, .. } if *part == k)).cloned().collect::<Vec<_>>();
        let completes = |log: &Vec<RM>, k: u32| log.iter().filter(|m| matches!(m, RM::Complete { part, .. } if *part == k)).count();
        let first = of(0);
        // all of part 0, until it is completed
        for _ in 0..10 {
            for (i, m) in first.iter().enumerate() {
                p.send(m);
                if i % 20 == 19 {
                    sleep_ms(2).await;
                }
            }
            sleep_ms(100).await;
            if completes(&p.log.lock().unwrap(), 0) > 0 {
                break;
            }
        }
        if completes(&p.log.lock().unwrap(), 0) == 0 {
            return Err("part 0 was never completed".into());
        }
        sleep_ms(300).await;
        p.log.lock().unwrap().clear();
        // that confirmation was lost: repeat some packets as the sender would do
        for k in 0..40 {
            p.send(&first[k % first.len()]);
            sleep_ms(20).await;
            if completes(&p.log.lock().unwrap(), 0) > 0 {
                break;
            }
        }
        sleep_ms(200).await;
        if completes(&p.log.lock().unwrap(), 0) == 0 {
            return Err("repeated packets of a finished part are not confirmed".into());
        }
        let _ = Duration::ZERO;
        Ok(())
    })
}
