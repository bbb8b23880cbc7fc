//! A full lookup asks every known node, also when many of them know nothing.
use std::time::Duration;
use dhtw::*;
use everscale_network::{dht, proto};
use futures_util::StreamExt;
use nodes::*;
use rt::*;
use serve::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(6);
        let d = DhtNode::start(&mut rng, default_opts(), dht::NodeOptions { query_timeout_ms: 1000, ..Default::default() });
        let owner = Ident::gen(&mut rng);
        let key = DKey::new(owner.short, "thing", 0).hash();
        let mut nodes = Vec::new();
        for _ in 0..14 {
            nodes.push(Serve::new(&mut rng, d.n.addr(), d.n.pk(0)).await);
        }
        nodes.sort_by_key(|s| std::cmp::Reverse(affinity(&key, &s.me.short)));
        let v = DValue::signed(&owner, "thing", 0, tl_proto::serialize(proto::rpc::AdnlPing { value: 77 }), unix_now() + 600);
        for s in &nodes {
            let node = DNode::new(&s.me, s.addr, unix_now());
            let (dht, tl) = (d.dht.clone(), node.tl());
            run_node(async move { dht.add_dht_peer(tl).ok() }).await;
        }
        for holder in 0..nodes.len() {
            for (i, s) in nodes.iter().enumerate() {
                let answer = if i == holder { v.found() } else { not_found(&[]) };
                s.set(answering(move |_| Some(answer.clone())));
            }
            let mut found = false;
            for _ in 0..3 {
                let (dht, id) = (d.dht.clone(), owner.short);
                let got = run_node(async move { dht.entry(&id, "thing").values::<proto::rpc::AdnlPing>().use_full_batch().map(|x| x.1.value).collect::<Vec<_>>().await }).await;
                if got == Some(vec![77]) {
                    found = true;
                    break;
                }
            }
            if !found {
                return Err(format!("the value is not found when only node {holder} of {} has it", nodes.len()));
            }
        }
        let _ = Duration::ZERO;
        Ok(())
    })
}
