//! A member that was removed and added again is a member like any other.
use everscale_network::overlay;
use nodes::*;
use overw::*;
use rt::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(1);
        let id = rand32(&mut rng);
        let n = OvNode::start(&mut rng);
        let o = n.public(&id, overlay::OverlayOptions { max_neighbours: 200, ..Default::default() });
        let mut members = Vec::new();
        for _ in 0..3 {
            members.push(member(&mut rng, &n, &o).await);
        }
        let who = sid(&members[1].me.short);
        o.o.remove_public_peer(&who);
        o.add(&members[1].me, members[1].addr);
        if !o.o.is_active_public_peer(&who) {
            return Err("a member is not active after it was added again".into());
        }
        for _ in 0..60 {
            let d = rand_bytes(&mut rng, 20);
            o.send(d);
            sleep_ms(10).await;
            if !heard(&members[1]).is_empty() {
                return Ok(());
            }
        }
        members[1].barrier().await;
        if heard(&members[1]).is_empty() {
            return Err("a member is never sent anything after it was added again".into());
        }
        Ok(())
    })
}
