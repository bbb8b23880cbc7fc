//! Fresh packets that are late, but within the window, are accepted after a jump of the numbers.
use everscale_network::adnl;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(3);
        let opts = adnl::NodeOptions { packet_history_enabled: true, ..default_opts() };
        let n = TestNode::start(&mut rng, 1, opts, Rec::echo());
        let mut w = WirePeer::new(&mut rng, n.addr(), n.pk(0)).await;
        if !w.ping(&mut rng, 10, std::time::Duration::from_millis(500)).await {
            return Err("no contact".into());
        }
        let custom = |seqno: u64| {
            let mut d = 0x7777_1111u32.to_le_bytes().to_vec();
            d.extend_from_slice(&seqno.to_le_bytes());
            Msg::Custom(d)
        };
        let mut deliver = Vec::new();
        // the first window, some of the next one, a jump, and then late packets just below it
        deliver.extend((10..60u64).map(|k| k * 3));
        deliver.extend([256u64, 257, 300]);
        deliver.extend([1300u64, 1301]);
        let late: Vec<u64> = (10..60u64).map(|k| 1024 + k * 3).collect();
        for s in deliver.iter().chain(&late) {
            let mut c = w.handshake_contents(&mut rng, vec![custom(*s)]);
            c.seqno = Some(*s);
            WirePeer::sign(&mut c, &w.me);
            w.send_contents(&mut rng, &c).await;
            sleep_ms(10).await;
        }
        let got = |s: u64| n.rec.count(|e| e.data.ends_with(&s.to_le_bytes()));
        eventually(std::time::Duration::from_secs(3), || late.iter().all(|s| got(*s) == 1)).await;
        let lost = late.iter().filter(|s| got(**s) == 0).count();
        if lost > 0 {
            return Err(format!("{lost} of {} fresh packets within the window were rejected", late.len()));
        }
        Ok(())
    })
}
