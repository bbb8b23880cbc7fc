//! Records of another overlay are no members of this one.
use everscale_network::overlay;
use nodes::*;
use overw::*;
use dhtw::*;
use rt::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let id = rand32(&mut rng);
        let n = OvNode::start(&mut rng);
        let o = n.public(&id, overlay::OverlayOptions::default());
        let s = stranger(&mut rng, &n).await;
        let rec = ONode::new(&Ident::gen(&mut rng), rand32(&mut rng), unix_now());
        if matches!(o.add_rec(&rec, s.addr), Ok(Some(_))) {
            return Err("a record of another overlay was accepted".into());
        }
        Ok(())
    })
}
