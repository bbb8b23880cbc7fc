//! A replaced channel is gone as a whole.
use std::time::Duration;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(4);
        let n = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        let mut w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        if !w.establish_channel(&mut rng).await {
            return Err("no channel".into());
        }
        w.auto_channel = false;
        let old = w.chan.clone().unwrap();
        let date = unix_now() + 10;
        let key = Ident::gen(&mut rng);
        let node_key = old.peer_key;
        for _ in 0..3 {
            w.send(&mut rng, vec![Msg::Create { key: key.public, date }]).await;
            sleep_ms(80).await;
        }
        w.drain();
        let m = n.adnl.metrics();
        if m.channels_by_id_len != 2 * m.channels_by_peers_len {
            return Err(format!("{} ids for {} channels", m.channels_by_id_len, m.channels_by_peers_len));
        }
        let new = Chan::new(&w.me.short, &w.to_short, &key, &node_key, date).ok_or("bad key")?;
        let mut d = 0x7777_1111u32.to_le_bytes().to_vec();
        d.push(0);
        for _ in 0..4 {
            let c = w.channel_contents(&mut rng, vec![Msg::Custom(d.clone())]);
            w.send_raw(&new.seal(&c.ser(true), true, None)).await;
            if n.rec.wait(1, Duration::from_secs(1), |e| e.data == d).await {
                break;
            }
        }
        d[4] = 1;
        for _ in 0..3 {
            let c = w.channel_contents(&mut rng, vec![Msg::Custom(d.clone())]);
            w.send_raw(&old.seal(&c.ser(true), true, None)).await;
            sleep_ms(60).await;
        }
        if n.rec.count(|e| e.data == d) > 0 {
            return Err("the replaced channel still delivers".into());
        }
        Ok(())
    })
}
