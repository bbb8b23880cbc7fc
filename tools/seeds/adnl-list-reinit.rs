//! The address list names the node's start, also after a peer was given up and begun anew with.
use std::time::Duration;
use everscale_network::adnl;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(32);
        let o = adnl::NodeOptions { channel_reset_timeout_sec: 10, ..default_opts() };
        let node = TestNode::start(&mut rng, 1, o, Rec::echo());
        let mut w = WirePeer::new(&mut rng, node.addr(), node.pk(0)).await;
        node.know_wire(0, &w);
        if !w.establish_channel(&mut rng).await {
            return Err("no channel".into());
        }
        for _ in 0..2 {
            let (adnl, l, p) = (node.adnl.clone(), node.id(0), sid(&w.me.short));
            run_node(async move { adnl.query_raw(&l, &p, vec![3u8; 8].into(), Some(30)).await }).await;
            clock_shift(40);
        }
        tokio::time::sleep(Duration::from_millis(50)).await;
        w.drain();
        for _ in 0..10 {
            node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), b"hello there").map_err(|e| e.to_string())?;
            if let Some(g) = w.recv(Duration::from_millis(800)).await {
                let a = g.contents.address.ok_or("no address")?;
                if a.reinit_date != node.adnl.start_time() {
                    return Err(format!("the list says {}, the node was started at {} ({:?})", a.reinit_date, node.adnl.start_time(), g.via));
                }
                return Ok(());
            }
        }
        Err("nothing arrives".into())
    })
}
