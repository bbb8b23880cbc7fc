//! Unfinished multipart messages are forgotten after their timeout.
use std::time::Duration;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(4);
        let mut o = default_opts();
        o.transfer_timeout_sec = 2;
        let n = TestNode::start(&mut rng, 1, o, Rec::echo());
        let mut w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        if !w.ping(&mut rng, 10, Duration::from_millis(500)).await {
            return Err("no contact".into());
        }
        let data = rand_bytes(&mut rng, 4000);
        let hash = sha256(&data);
        for k in 0..2usize {
            let part = Msg::Part { hash, total: 4000, offset: 1000 * k as u32, data: data[1000 * k..1000 * (k + 1)].to_vec() };
            for _ in 0..2 {
                w.send(&mut rng, vec![part.clone()]).await;
                sleep_ms(20).await;
            }
            sleep_ms(1300).await;
        }
        if n.adnl.metrics().incoming_transfers_len != 1 {
            // too slow for this
            println!("not tried");
            return Ok(());
        }
        let done = eventually(Duration::from_secs(12), || n.adnl.metrics().incoming_transfers_len == 0).await;
        if done { Ok(()) } else { Err("an abandoned transfer is still there after 12 s".into()) }
    })
}
