//! A key is added only once, and a tag is never shared.
use everscale_network::adnl::Keystore;
use rt::*;
use wire::*;

fn main() {
    main_with(|| async {
        let mut rng = rng(4);
        let (a, b) = (Ident::gen(&mut rng), Ident::gen(&mut rng));
        let mut ks = Keystore::builder().build();
        ks.add_key(a.secret, 1).map_err(|e| e.to_string())?;
        ks.add_key(b.secret, 2).map_err(|e| e.to_string())?;
        ks.add_key(b.secret, 2).map_err(|e| e.to_string())?;
        if ks.add_key(a.secret, 2).is_ok() {
            return Err("a key was added under the tag of another one".into());
        }
        if ks.key_by_tag(2).map_err(|e| e.to_string())?.id().as_slice() != &b.short {
            return Err("a tag changed its key".into());
        }
        Ok(())
    })
}
