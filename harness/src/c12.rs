//! C12: the keystore maps tags and ids to keys one-to-one.
use std::collections::HashMap;

use everscale_crypto::ed25519;
use everscale_network::adnl::{Keystore, NodeIdShort};
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::json;

use crate::rt::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one add to a keystore followed by a comparison of everything it can be asked with a model; non-trivial because adds that must fail alternate with ones that succeed; distinct by kind of add, size and position");
    let mut rng = ctx.rng(12);
    let rounds = ctx.pick(60, 800);
    for round in 0..rounds {
        if !ctx.within(60, 600) {
            break;
        }
        let idents: Vec<Ident> = (0..8).map(|_| Ident::gen(&mut rng)).collect();
        let mut ks = Keystore::builder().build();
        let mut model: HashMap<usize, usize> = HashMap::new(); // tag -> ident
        let tags: Vec<usize> = vec![0, 1, 2, 5, 1000, usize::MAX, usize::MAX - 1, rng.gen()];
        for step in 0..24 {
            let i = rng.gen_range(0..idents.len());
            let tag = *tags.choose(&mut rng).unwrap();
            let key_used = model.values().any(|x| *x == i);
            let kind = match (model.get(&tag), key_used) {
                (None, false) => "new",
                (None, true) => "existing key, new tag",
                (Some(x), _) if *x == i => "same again",
                (Some(_), true) => "both exist",
                (Some(_), false) => "existing tag, new key",
            };
            let r = ks.add_key(idents[i].secret, tag);
            let ok = matches!(kind, "new" | "same again");
            match &r {
                Ok(id) => {
                    if id.as_slice() != &idents[i].short {
                        ctx.violation("wrong-id", "adding a key returned another key's id");
                    }
                    if !ok {
                        ctx.violation("duplicate-accepted", format!("{kind}: the add succeeded"));
                    }
                }
                Err(_) if kind == "new" => ctx.violation("add-refused", "a new key under a new tag was refused"),
                Err(_) => {}
            }
            if kind == "new" {
                model.insert(tag, i);
            }
            check(&ctx, &ks, &model, &tags, &idents, kind);
            ctx.case((kind, model.len(), step / 8));
            if ctx.violated() {
                return;
            }
        }
        // The builder in one go
        let distinct: Vec<([u8; 32], usize)> = idents.iter().enumerate().map(|(k, i)| (i.secret, k * 3)).collect();
        match Keystore::builder().with_tagged_keys(distinct.clone()) {
            Err(e) => ctx.violation("add-refused", format!("distinct keys and tags were refused: {e}")),
            Ok(b) => {
                let m: HashMap<usize, usize> = (0..idents.len()).map(|k| (k * 3, k)).collect();
                check(&ctx, &b.build(), &m, &tags, &idents, "builder");
            }
        }
        for dup in 0..2 {
            let mut list = distinct.clone();
            let (a, b) = (rng.gen_range(0..4), rng.gen_range(4..8));
            if dup == 0 {
                list[b].0 = list[a].0;
            } else {
                list[b].1 = list[a].1;
            }
            if Keystore::builder().with_tagged_keys(list).is_ok() {
                ctx.violation("duplicate-accepted", "the builder accepted a duplicated key or tag");
            }
            ctx.case(("builder", dup));
        }
        if round == 0 {
            ctx.sample(json!({"tags": model.len(), "listed": ks.keys().len()}));
        }
    }
    ctx.require("comparisons", 500);
    ctx.check_panics("keystore");
}

fn check(ctx: &C, ks: &Keystore, model: &HashMap<usize, usize>, tags: &[usize], idents: &[Ident], what: &str) {
    for tag in tags.iter().copied().chain(model.keys().copied()) {
        match (ks.key_by_tag(tag), model.get(&tag)) {
            (Ok(k), Some(i)) => same_key(ctx, k, &idents[*i], "by tag"),
            (Err(_), None) => {}
            (r, m) => ctx.violation("tag-lookup", format!("after '{what}': tag found = {}, expected {}", r.is_ok(), m.is_some())),
        }
    }
    for (i, id) in idents.iter().enumerate() {
        let want = model.values().any(|x| *x == i);
        match ks.key_by_id(&NodeIdShort::new(id.short)) {
            Ok(k) if want => same_key(ctx, k, id, "by id"),
            Err(_) if !want => {}
            r => ctx.violation("id-lookup", format!("after '{what}': id found = {}, expected {want}", r.is_ok())),
        }
    }
    let mut listed: Vec<[u8; 32]> = ks.keys().keys().map(|k| *k.as_slice()).collect();
    let mut want: Vec<[u8; 32]> = model.values().map(|i| idents[*i].short).collect();
    listed.sort();
    want.sort();
    if listed != want {
        ctx.violation("listing", format!("after '{what}': {} keys are listed instead of {}", listed.len(), want.len()));
    }
    for (id, k) in ks.keys() {
        if k.id() != id {
            ctx.violation("listing", "a key is listed under another id");
        }
    }
    ctx.count("comparisons", 1);
}

fn same_key(ctx: &C, k: &everscale_network::adnl::Key, id: &Ident, how: &str) {
    let msg = everscale_network::proto::rpc::AdnlPing { value: 7 };
    let sig = k.sign(msg);
    let secret = ed25519::ExpandedSecretKey::from(&ed25519::SecretKey::from_bytes(id.secret));
    let ok = k.id().as_slice() == &id.short
        && k.full_id().public_key().as_bytes() == &id.public
        && verify(&id.public, &tl_proto::serialize(msg), &sig)
        && k.secret_key().nonce() == secret.nonce();
    if !ok {
        ctx.violation("key-material", format!("the key found {how} is not the one added"));
    }
}
