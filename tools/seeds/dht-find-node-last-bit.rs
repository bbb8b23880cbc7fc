//! A known node in the bucket of the last bit of a byte is reported when the key differs there.
use dhtw::*;
use everscale_network::dht;
use nodes::*;
use rt::*;
use serve::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(6);
        let d = DhtNode::start(&mut rng, default_opts(), dht::NodeOptions::default());
        let me = d.short();
        // a node that shares exactly the first 7 bits
        let who = loop {
            let i = Ident::gen(&mut rng);
            if affinity(&me, &i.short) == 7 {
                break i;
            }
        };
        let node = DNode::new(&who, "127.9.9.9:1234".parse().unwrap(), unix_now());
        let (dht, tl) = (d.dht.clone(), node.tl());
        run_node(async move { dht.add_dht_peer(tl).ok() }).await;
        let s = Serve::new(&mut rng, d.n.addr(), d.n.pk(0)).await;
        // the key differs from the node's id in the two lowest bits of the first byte
        let mut key = me;
        key[0] ^= 0b11;
        let a = s.ask(q_find_node(&key, 10)).await.ok_or("no answer")?;
        let got = read_nodes(&a).map_err(|_| "bad answer".to_string())?;
        if got.iter().any(|n| n.short() == who.short) {
            Ok(())
        } else {
            Err("a known closer node was left out".into())
        }
    })
}
