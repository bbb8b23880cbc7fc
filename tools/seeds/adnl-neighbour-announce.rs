//! A neighbour is told the address under which it reaches the node.
use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::Duration;
use everscale_network::adnl;
use nodes::*;
use rt::*;
use tl::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(31);
        let o = adnl::NodeOptions { use_loopback_for_neighbours: true, ..default_opts() };
        let node = TestNode::start_ext(Ipv4Addr::new(192, 0, 2, 77), 0, vec![Ident::gen(&mut rng)], o, Rec::echo(), None);
        let mut w = WirePeer::new(&mut rng, node.addr(), node.pk(0)).await;
        w.addr = SocketAddrV4::new(Ipv4Addr::new(192, 0, 2, 77), w.addr.port());
        node.know_wire(0, &w);
        for _ in 0..10 {
            node.adnl.send_custom_message(&node.id(0), &sid(&w.me.short), b"hello there").map_err(|e| e.to_string())?;
            if let Some(g) = w.recv(Duration::from_millis(800)).await {
                let a = g.contents.address.ok_or("no address")?;
                if a.addrs != vec![(u32::from(Ipv4Addr::LOCALHOST), node.port() as u32)] {
                    return Err(format!("the neighbour is told {:?}", a.addrs.iter().map(|x| Ipv4Addr::from(x.0)).collect::<Vec<_>>()));
                }
                return Ok(());
            }
        }
        Err("nothing arrives".into())
    })
}
