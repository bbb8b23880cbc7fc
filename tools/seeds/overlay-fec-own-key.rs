//! A broadcast is signed with the key that was passed.
use std::sync::Arc;
use everscale_network::{adnl, overlay};
use nodes::*;
use overw::*;
use rt::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let id = rand32(&mut rng);
        let n = OvNode::start(&mut rng);
        let o = n.public(&id, overlay::OverlayOptions::default());
        let m = member(&mut rng, &n, &o).await;
        let other = Ident::gen(&mut rng);
        let ks = keystore(std::slice::from_ref(&other));
        let key: Arc<adnl::Key> = ks.key_by_id(&sid(&other.short)).map_err(|e| e.to_string())?.clone();
        for len in [100usize, 5000] {
            let d = rand_bytes(&mut rng, len);
            on_node(|| o.o.broadcast(&o.adnl, d, Some(&key), overlay::BroadcastTarget::RandomNeighbours));
            sleep_ms(300).await;
        }
        m.barrier().await;
        let all = heard(&m);
        if all.len() < 4 {
            return Err("the broadcasts did not arrive".into());
        }
        for (_, x) in all {
            let src = match x {
                Om::B(b) => b.src,
                Om::F(p) => p.src,
                _ => continue,
            };
            if src != other.public {
                return Err("a broadcast is signed with another key".into());
            }
        }
        Ok(())
    })
}
