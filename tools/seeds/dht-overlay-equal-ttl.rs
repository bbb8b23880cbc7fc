//! Lists of overlay nodes with the same expiration are merged.
use dhtw::*;
use everscale_network::dht;
use nodes::*;
use rt::*;
use serve::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(5);
        let d = DhtNode::start(&mut rng, default_opts(), dht::NodeOptions::default());
        let s = Serve::new(&mut rng, d.n.addr(), d.n.pk(0)).await;
        if !s.barrier().await {
            return Err("no contact".into());
        }
        let name = rand32(&mut rng);
        let overlay = Pk::Overlay(name.to_vec()).short();
        let ttl = unix_now() + 1000;
        let nodes: Vec<ONode> = (0..3).map(|i| ONode::new(&Ident::gen(&mut rng), overlay, unix_now() + i)).collect();
        for o in &nodes {
            let v = DValue::overlay(&name, std::slice::from_ref(o), ttl);
            if s.ask(v.store()).await.is_none() {
                return Err("store was not confirmed".into());
            }
        }
        let key = DValue::overlay(&name, &[], ttl).key.hash();
        let a = s.ask(q_find_value(&key, 4)).await.ok_or("no answer")?;
        match read_find(&a).map_err(|_| "bad answer".to_string())? {
            Find::Value(v) => {
                let got = read_onodes(&v.value).map_err(|_| "bad value".to_string())?;
                if got.len() != nodes.len() {
                    return Err(format!("{} of {} members are stored", got.len(), nodes.len()));
                }
                Ok(())
            }
            _ => Err("not found".into()),
        }
    })
}
