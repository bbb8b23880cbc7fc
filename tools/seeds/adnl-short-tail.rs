//! Messages of every length arrive.
use std::time::Duration;
use everscale_network::adnl;
use nodes::*;
use rt::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(2);
        let a = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        let b = TestNode::start(&mut rng, 1, default_opts(), Rec::echo());
        a.know(0, &b, 0);
        for len in 1900..2060usize {
            let mut d = 0x7777_2222u32.to_le_bytes().to_vec();
            d.extend(rand_bytes(&mut rng, len));
            let mut ok = false;
            for _ in 0..3 {
                let (n, l, p, m) = (a.adnl.clone(), a.id(0), b.id(0), d.clone());
                on_node(move || n.send_custom_message(&l, &p, &m)).map_err(|e| e.to_string())?;
                if b.rec.wait(1, Duration::from_millis(700), |e| e.data == d).await {
                    ok = true;
                    break;
                }
            }
            if !ok {
                return Err(format!("a message of {} bytes does not arrive", d.len()));
            }
        }
        Ok(())
    })
}
