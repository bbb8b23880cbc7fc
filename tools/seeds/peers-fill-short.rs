//! Filling a set from another one gives as many peers as asked for.
use everscale_network::adnl;
use nodes::*;
use rt::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(2);
        for _ in 0..20 {
            let other = adnl::PeersSet::with_capacity(50);
            let ids: Vec<_> = (0..24).map(|_| sid(&rand32(&mut rng))).collect();
            for i in &ids {
                other.insert(*i);
            }
            let set = adnl::PeersSet::with_capacity(50);
            set.randomly_fill_from(&other, 10, Some(&ids[..12].iter().copied().collect()));
            if set.len() != 10 {
                return Err(format!("{} peers instead of 10", set.len()));
            }
        }
        Ok(())
    })
}
