//! C11: the bounded peer set.
use std::collections::{HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use everscale_network::adnl::{NodeIdShort, PeersSet};
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::json;

use crate::rt::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one operation on a set compared with a first-in-first-out model, or one observation of a set shared by threads; non-trivial because sets are driven through many evictions; distinct by operation, capacity and fill level");
    let mut rng = ctx.rng(11);
    let mut n = 0;
    while ctx.within(25, 400) && (n < 60 || !ctx.quick()) {
        sequential(&ctx, &mut rng, n);
        n += 1;
    }
    for _ in 0..ctx.pick(3, 20) {
        concurrent(&ctx, &mut rng);
    }
    cross_fill(&ctx, &mut rng);
    ctx.require("operations", 5000);
    ctx.require("evictions", 500);
    ctx.require("removals", 200);
    ctx.require("concurrent_observations", 1000);
    ctx.check_panics("peer set");
}

fn nid(k: u32) -> NodeIdShort {
    NodeIdShort::new(sha256(&k.to_le_bytes()))
}

fn sequential(ctx: &C, rng: &mut SmallRng, round: u64) {
    let cap = match round % 8 {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => rng.gen_range(1..40u32),
    };
    let real_cap = cap.max(1) as usize;
    let universe: Vec<NodeIdShort> = (0..(real_cap as u32 * 2 + 3)).map(nid).collect();
    let mut model: VecDeque<NodeIdShort> = VecDeque::new();
    let set = if round % 3 == 0 {
        // with initial peers, repeated ones among them
        let n = rng.gen_range(0..real_cap * 2 + 2);
        let init: Vec<NodeIdShort> = (0..n).map(|_| *universe.choose(rng).unwrap()).collect();
        for p in &init {
            if model.len() < real_cap && !model.contains(p) {
                model.push_back(*p);
            }
        }
        PeersSet::with_peers_and_capacity(&init, cap)
    } else {
        PeersSet::with_capacity(cap)
    };
    let push = |model: &mut VecDeque<NodeIdShort>, p: NodeIdShort| {
        if model.contains(&p) {
            return false;
        }
        if model.len() == real_cap {
            model.pop_front();
            ctx.count("evictions", 1);
        }
        model.push_back(p);
        true
    };
    for _ in 0..ctx.pick(250, 600) {
        let p = *universe.choose(rng).unwrap();
        let op = rng.gen_range(0..11);
        let v0 = set.version();
        match op {
            0..=3 => {
                let want = push(&mut model, p);
                if set.insert(p) != want {
                    ctx.violation("insert-verdict", format!("inserting a peer that is {}present reported {}", if want { "not " } else { "" }, !want));
                }
                if want && set.version() == v0 {
                    ctx.violation("version", "the version did not change with the contents");
                }
            }
            4 => {
                let n = rng.gen_range(0..6);
                let ps: Vec<NodeIdShort> = (0..n).map(|_| *universe.choose(rng).unwrap()).collect();
                for p in &ps {
                    push(&mut model, *p);
                }
                set.extend(ps);
            }
            5 | 6 => {
                let amount = match rng.gen_range(0..6) {
                    0 => 0,
                    1 => u32::MAX - rng.gen_range(0..2),
                    _ => rng.gen_range(0..real_cap as u32 + 4),
                };
                let except = if rng.gen() { Some(p) } else { None };
                let got = set.get_random_peers(amount, except.as_ref());
                let avail = model.iter().filter(|x| Some(**x) != except).count();
                let uniq: HashSet<_> = got.iter().copied().collect();
                if got.len() != avail.min(amount as usize) {
                    ctx.violation("random-amount", format!("asked for {amount} random peers of {avail} eligible ones, got {}", got.len()));
                }
                if uniq.len() != got.len() {
                    ctx.violation("random-duplicates", "a random selection repeats a peer");
                }
                if got.iter().any(|x| Some(*x) == except) {
                    ctx.violation("random-excluded", "a random selection contains the excluded peer");
                }
                if got.iter().any(|x| !model.contains(x)) {
                    ctx.violation("random-foreign", "a random selection contains a peer that is not in the set");
                }
            }
            7 => {
                // fill from another set
                let other_ids: Vec<NodeIdShort> = if rng.gen() {
                    universe.choose_multiple(rng, real_cap + 1).copied().collect()
                } else {
                    (0..real_cap as u32 + 1).map(|k| nid(500_000 + k)).collect()
                };
                let other = PeersSet::with_peers_and_capacity(&other_ids, other_ids.len() as u32);
                let amount = rng.gen_range(0..real_cap as u32 + 3);
                let ex: Vec<NodeIdShort> = universe.choose_multiple(rng, 3).copied().collect();
                let except: dashmap::DashSet<NodeIdShort, ahash::RandomState> = ex.iter().copied().collect();
                let use_except = rng.gen();
                let fresh = PeersSet::with_capacity(1000);
                for (target, check_len) in [(&fresh, true), (&set, false)] {
                    let before: HashSet<NodeIdShort> = target.clone_inner().into_iter().collect();
                    target.randomly_fill_from(&other, amount, if use_except { Some(&except) } else { None });
                    let after: HashSet<NodeIdShort> = target.clone_inner().into_iter().collect();
                    let new: Vec<_> = after.difference(&before).collect();
                    let eligible = other_ids.iter().filter(|x| !(use_except && ex.contains(x))).count();
                    if new.iter().any(|x| !other_ids.contains(x) || (use_except && ex.contains(x))) {
                        ctx.violation("fill-foreign", "filling added an excluded or foreign peer");
                    }
                    if new.len() > amount as usize {
                        ctx.violation("fill-amount", format!("filling with {amount} added {}", new.len()));
                    }
                    if check_len && new.len() != eligible.min(amount as usize) {
                        ctx.violation("fill-amount", format!("filling an empty set with {amount} of {eligible} eligible peers added {}", new.len()));
                    }
                }
                // the order of additions is free: take the set's own word for its members
                let now = set.clone_inner();
                let kept: VecDeque<NodeIdShort> = model.iter().filter(|x| now.contains(x)).copied().collect();
                // evicted must be the oldest ones (a peer may leave and come back within one
                // filling when the sets overlap, so only for sets that do not)
                let gone = model.len() - kept.len();
                let added = now.iter().filter(|x| !model.contains(x)).count();
                let disjoint = !other_ids.iter().any(|x| model.contains(x));
                if disjoint && (!kept.iter().eq(model.iter().skip(gone)) || (gone > 0 && model.len() + added - gone < real_cap)) {
                    ctx.violation("eviction-order", "filling evicted a peer that was not among the oldest");
                }
                // restart the model from a fresh known state
                for k in 0..real_cap as u32 {
                    let p = nid(1_000_000 + rng.gen_range(0..1_000_000u32) * 64 + k);
                    set.insert(p);
                    if k == 0 {
                        model.clear();
                    }
                    model.push_back(p);
                }
                ctx.count("evictions", 1);
            }
            8 => set.randomly_fill_from(&set, 5, None),
            10 => {
                let want = model.iter().position(|x| *x == p);
                if let Some(i) = want {
                    model.remove(i);
                    ctx.count("removals", 1);
                }
                if set.remove(&p) != want.is_some() {
                    ctx.violation("remove-verdict", format!("removing a peer that is {}present reported otherwise", if want.is_some() { "" } else { "not " }));
                }
                if want.is_some() && set.version() == v0 {
                    ctx.violation("version", "the version did not change with the contents");
                }
            }
            _ => {
                let v = set.version();
                let _ = set.contains(&p);
                if set.version() != v {
                    ctx.violation("version", "the version changed without a change");
                }
            }
        }
        ctx.count("operations", 1);
        ctx.case((op, real_cap, model.len()));
        // everything it tells against the model
        let items = set.clone_inner();
        let by_iter: Vec<NodeIdShort> = set.iter().copied().collect();
        let by_get: Vec<NodeIdShort> = (0..set.len()).filter_map(|i| set.get(i)).collect();
        let want: HashSet<NodeIdShort> = model.iter().copied().collect();
        let have: HashSet<NodeIdShort> = items.iter().copied().collect();
        if items.len() > real_cap {
            ctx.violation("over-capacity", format!("{} peers in a set of {real_cap}", items.len()));
        }
        if have.len() != items.len() {
            ctx.violation("duplicates", "a peer is in the set twice");
        }
        if have != want {
            ctx.violation("contents", format!("after operation {op}: the set of capacity {real_cap} holds {} peers, {} of them expected (of {})", have.len(), have.intersection(&want).count(), want.len()));
        }
        if by_iter != items || by_get != items || set.get(items.len()).is_some() {
            ctx.violation("views", "iteration, indexing and cloning disagree");
        }
        if set.len() != want.len() || set.is_empty() != want.is_empty() || set.is_full() != (want.len() == real_cap) {
            ctx.violation("length", format!("length {} (empty {}, full {}) with {} of {real_cap} peers", set.len(), set.is_empty(), set.is_full(), want.len()));
        }
        for p in &universe {
            if set.contains(p) != want.contains(p) {
                ctx.violation("contains", "contains disagrees with the contents");
            }
        }
        if ctx.violated() {
            return;
        }
    }
    let want: HashSet<NodeIdShort> = model.iter().copied().collect();
    let v: Vec<NodeIdShort> = set.into_iter().collect();
    if v.len() != want.len() || v.iter().any(|x| !want.contains(x)) {
        ctx.violation("views", "consuming iteration disagrees with the contents");
    }
    if round == 5 {
        ctx.sample(json!({"capacity": real_cap, "universe": universe.len(), "members": want.len()}));
    }
}

/// Joins threads; a thread that does not come back is a hang.
fn join_all(ctx: &C, hs: Vec<std::thread::JoinHandle<()>>, what: &str) -> bool {
    let t = Instant::now();
    while hs.iter().any(|h| !h.is_finished()) {
        if t.elapsed() > Duration::from_secs(20) {
            ctx.violation("stuck", format!("{what}: an operation did not return"));
            return false;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for h in hs {
        if h.join().is_err() {
            ctx.violation("panicked", format!("{what}: an operation panicked"));
        }
    }
    true
}

fn concurrent(ctx: &C, rng: &mut SmallRng) {
    let cap = rng.gen_range(2..20u32);
    let set = Arc::new(PeersSet::with_capacity(cap));
    let other = Arc::new(PeersSet::with_capacity(50));
    let universe: Arc<Vec<NodeIdShort>> = Arc::new((0..60).map(nid).collect());
    let valid: Arc<HashSet<NodeIdShort>> = Arc::new(universe.iter().copied().collect());
    other.extend(universe.iter().copied().take(40));
    let stop = Arc::new(AtomicBool::new(false));
    let obs = Arc::new(AtomicU64::new(0));
    let inserted = Arc::new(AtomicU64::new(0));
    let mut hs = Vec::new();
    for t in 0..8 {
        let (set, other, universe, valid, stop, obs, inserted, ctx, seed) =
            (set.clone(), other.clone(), universe.clone(), valid.clone(), stop.clone(), obs.clone(), inserted.clone(), ctx.clone(), rng.gen::<u64>());
        hs.push(std::thread::Builder::new().name("node-set".into()).spawn(move || {
            let mut rng = SmallRng::seed_from_u64(seed);
            while !stop.load(Ordering::Relaxed) {
                let p = *universe.choose(&mut rng).unwrap();
                let what = if t < 4 { rng.gen_range(0..4) } else { rng.gen_range(3..9) };
                let seen: Vec<NodeIdShort> = match what {
                    0 | 1 => {
                        if set.insert(p) {
                            inserted.fetch_add(1, Ordering::Relaxed);
                        }
                        continue;
                    }
                    2 => {
                        set.extend(universe.choose_multiple(&mut rng, 3).copied());
                        continue;
                    }
                    3 => {
                        set.randomly_fill_from(&other, 3, None);
                        continue;
                    }
                    4 => set.clone_inner(),
                    5 => set.iter().copied().collect(),
                    6 => set.get_random_peers(rng.gen_range(0..cap + 2), Some(&p)),
                    7 => (0..cap as usize).filter_map(|i| set.get(i)).take(1).collect(),
                    _ => {
                        if set.len() > cap as usize {
                            ctx.violation("over-capacity", "more peers than the capacity seen concurrently");
                        }
                        set.contains(&p);
                        continue;
                    }
                };
                obs.fetch_add(1, Ordering::Relaxed);
                let uniq: HashSet<&NodeIdShort> = seen.iter().collect();
                if uniq.len() != seen.len() {
                    ctx.violation("duplicates", format!("a concurrent observation ({what}) shows a peer twice"));
                }
                if seen.len() > cap as usize {
                    ctx.violation("over-capacity", format!("a concurrent observation shows {} peers of at most {cap}", seen.len()));
                }
                if seen.iter().any(|x| !valid.contains(x)) {
                    ctx.violation("foreign", "a concurrent observation shows an id nobody inserted");
                }
                if what == 6 && seen.contains(&p) {
                    ctx.violation("random-excluded", "a concurrent selection contains the excluded peer");
                }
            }
        }).unwrap());
    }
    std::thread::sleep(Duration::from_millis(ctx.pick(700, 3000)));
    stop.store(true, Ordering::Relaxed);
    if join_all(ctx, hs, "shared set") {
        let v = set.clone_inner();
        let u: HashSet<_> = v.iter().copied().collect();
        if u.len() != v.len() || v.len() > cap as usize || v.iter().any(|x| !set.contains(x)) || universe.iter().filter(|x| set.contains(x)).count() != v.len() {
            ctx.violation("contents", "after concurrent use membership and listing disagree");
        }
    }
    ctx.count("concurrent_observations", obs.load(Ordering::Relaxed));
    ctx.count("concurrent_insertions", inserted.load(Ordering::Relaxed));
    ctx.case(("concurrent", cap));
}

/// Sets that fill each other at the same time.
fn cross_fill(ctx: &C, rng: &mut SmallRng) {
    let a = Arc::new(PeersSet::with_capacity(30));
    let b = Arc::new(PeersSet::with_capacity(30));
    a.extend((0..20).map(nid));
    b.extend((20..40).map(nid));
    let mut hs = Vec::new();
    for t in 0..6 {
        let (a, b, n) = (a.clone(), b.clone(), ctx.pick(20_000, 200_000));
        let seed: u64 = rng.gen();
        hs.push(std::thread::Builder::new().name("node-set".into()).spawn(move || {
            let mut rng = SmallRng::seed_from_u64(seed);
            for _ in 0..n {
                match t % 3 {
                    0 => a.randomly_fill_from(&b, 2, None),
                    1 => b.randomly_fill_from(&a, 2, None),
                    _ => {
                        a.insert(nid(rng.gen_range(0..40)));
                    }
                }
            }
        }).unwrap());
    }
    join_all(ctx, hs, "sets filling each other");
    ctx.count("concurrent_observations", 1);
    ctx.case("cross fill");
}
