//! C25: the queue of received broadcasts and its waiters.
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use everscale_network::overlay;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::nodes::*;
use crate::overw::*;
use crate::rt::*;
use crate::serve::*;
use crate::tl::*;
use crate::wire::*;

pub async fn run(ctx: C) {
    ctx.rule("one case = one history of receptions, waiting calls and cancelled waiting calls over one queue; non-trivial because at least one waiting call is cancelled or several run at once, and at the end every reception must have been returned exactly once with nothing left while a call waits; distinct by the sequence of operations (driven by hand) or by number of waiters, kind of cancellation and pace (storms)");
    let mut rng = ctx.rng(25);
    let only = std::env::var("EVMON_ONLY").ok().and_then(|x| x.parse::<u64>().ok());
    let mut tasks = Vec::new();
    for i in (0..6u64).filter(|i| only.is_none_or(|o| o == *i)) {
        let (ctx, seed) = (ctx.clone(), rng.gen::<u64>());
        tasks.push(tokio::spawn(async move {
            let mut rng = SmallRng::seed_from_u64(seed);
            let mut round = i;
            let last = round + [8, 8, 8, 6, 6, 6][i as usize];
            while ctx.within(20, 420) && (round < last || !ctx.quick()) && !ctx.violated() {
                match i {
                    0..=2 => by_hand(&ctx, &mut rng).await,
                    3 | 4 => storm(&ctx, &mut rng, round).await,
                    _ => order(&ctx, &mut rng).await,
                }
                round += 1;
            }
        }));
    }
    for t in tasks {
        if t.await.is_err() {
            ctx.inconclusive("a driver panicked");
        }
    }
    if only.is_none() || only == Some(6) {
        idle(&ctx, &mut rng).await;
    }
    if only.is_none() {
        ctx.require("by_hand_received", 300);
        ctx.require("by_hand_cancelled", 100);
        ctx.require("storm_received", 300);
        ctx.require("storm_cancelled", 300);
        ctx.require("ordered", 200);
        ctx.require("idle", 3);
    }
    ctx.check_panics("broadcast queue");
}

/// Gives a queue numbered broadcasts.
struct Feed {
    n: OvNode,
    o: Ov,
    s: Vec<Serve>,
    id: [u8; 32],
    pushed: u64,
}
impl Feed {
    async fn new(rng: &mut SmallRng, senders: usize) -> Self {
        let id = rand32(rng);
        let n = OvNode::start(rng);
        let o = n.quiet(&id, overlay::OverlayOptions::default());
        let mut s = Vec::new();
        for _ in 0..senders {
            s.push(member(rng, &n, &o).await);
        }
        Self { n, o, s, id, pushed: 0 }
    }
    fn make(&mut self, rng: &mut SmallRng) -> Vec<u8> {
        let i = self.pushed;
        self.pushed += 1;
        let mut d = i.to_le_bytes().to_vec();
        d.extend(rand_bytes(rng, 8));
        d
    }
    fn send(&self, rng: &mut SmallRng, d: &[u8]) -> Vec<u8> {
        let b = Bcast::new(&Ident::gen(rng), ANY, d, unix_now()).ser(&self.id);
        self.s[rng.gen_range(0..self.s.len())].send(Msg::Custom(b.clone()));
        b
    }
    fn queued(&self) -> usize {
        self.o.o.metrics().received_broadcasts_data_len
    }
}
fn number(b: &overlay::IncomingBroadcastInfo) -> u64 {
    b.data.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(u64::MAX)
}

struct Flag(AtomicBool, AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
        self.1.fetch_add(1, Ordering::SeqCst);
    }
}
struct Call {
    f: Pin<Box<dyn Future<Output = overlay::IncomingBroadcastInfo> + Send>>,
    flag: Arc<Flag>,
    polled: u32,
}
impl Call {
    fn new(o: &Arc<overlay::Overlay>) -> Self {
        let o = o.clone();
        Self { f: Box::pin(async move { o.wait_for_broadcast().await }), flag: Arc::new(Flag(AtomicBool::new(false), AtomicU64::new(0))), polled: 0 }
    }
    fn woken(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst)
    }
    fn poll(&mut self) -> Option<overlay::IncomingBroadcastInfo> {
        self.flag.0.store(false, Ordering::SeqCst);
        self.polled += 1;
        let w = Waker::from(self.flag.clone());
        match self.f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(b) => Some(b),
            Poll::Pending => None,
        }
    }
}

/// Waiting calls are polled and dropped by hand, one step at a time.
async fn by_hand(ctx: &C, rng: &mut SmallRng) {
    for _ in 0..4 {
        let mut feed = Feed::new(rng, 1).await;
        for _ in 0..6 {
            history(ctx, rng, &mut feed).await;
            if ctx.violated() {
                return;
            }
        }
    }
}
async fn history(ctx: &C, rng: &mut SmallRng, feed: &mut Feed) {
    let first = feed.pushed;
    let mut calls: Vec<Call> = Vec::new();
    let mut got: Vec<u64> = Vec::new();
    let mut trace = String::new();
    let steps = rng.gen_range(20..70);
    // different mixes of operations
    let mix: [u32; 5] = [rng.gen_range(3..8), rng.gen_range(1..4), rng.gen_range(1..8), rng.gen_range(0..4), rng.gen_range(1..6)];
    let total: u32 = mix.iter().sum();
    for step in 0..=steps {
        let mut x = rng.gen_range(0..total);
        let mut op = 0;
        while x >= mix[op] {
            x -= mix[op];
            op += 1;
        }
        if op == 1 && feed.queued() > calls.len() + 1 {
            op = 0;
        }
        if step == steps {
            op = 5;
        }
        match op {
            // a new call, polled once as any executor would
            0 => {
                if calls.len() < 12 {
                    let mut c = Call::new(&feed.o.o);
                    trace.push('n');
                    match c.poll() {
                        Some(b) => {
                            trace.push('+');
                            got.push(number(&b));
                        }
                        None => calls.push(c),
                    }
                }
            }
            // receive some
            1 => {
                let k = rng.gen_range(1..3);
                let before = feed.queued();
                let mut sent = Vec::new();
                for _ in 0..k {
                    let d = feed.make(rng);
                    sent.push(feed.send(rng, &d));
                    trace.push('r');
                }
                // wait until all were put in the queue (nobody takes them out meanwhile)
                let mut in_queue = false;
                for _ in 0..4 {
                    feed.s[0].barrier().await;
                    in_queue = eventually(Duration::from_millis(300), || feed.queued() >= before + k as usize).await;
                    if in_queue {
                        break;
                    }
                    for b in &sent {
                        feed.s[0].send(Msg::Custom(b.clone()));
                    }
                }
                // (if not, the end will show)
                let _ = in_queue;
                ctx.count("by_hand_received", k);
            }
            // poll one that was woken
            2 => {
                let w: Vec<usize> = (0..calls.len()).filter(|i| calls[*i].woken()).collect();
                if !w.is_empty() {
                    let i = w[rng.gen_range(0..w.len())];
                    trace.push('p');
                    if let Some(b) = calls[i].poll() {
                        trace.push('+');
                        got.push(number(&b));
                        calls.remove(i);
                    }
                }
            }
            // poll one without a reason (select! does so)
            3 => {
                if !calls.is_empty() {
                    let i = rng.gen_range(0..calls.len());
                    trace.push('q');
                    if let Some(b) = calls[i].poll() {
                        trace.push('+');
                        got.push(number(&b));
                        calls.remove(i);
                    }
                }
            }
            // cancel one
            4 => {
                if !calls.is_empty() {
                    let i = rng.gen_range(0..calls.len());
                    let c = calls.remove(i);
                    trace.push(if c.woken() { 'D' } else { 'd' });
                    drop(c);
                    ctx.count("by_hand_cancelled", 1);
                }
            }
            _ => {}
        }
        // now and then (and at the end) everything settles
        if op == 5 || rng.gen_range(0..6) == 0 {
            trace.push('.');
            if !settle(feed, &mut calls, &mut got).await {
                ctx.violation("stuck", format!("{} broadcasts are queued although {} calls wait and none of them was woken; {trace}", feed.queued(), calls.len()));
                return;
            }
        }
    }
    // whoever asks now gets the rest at once
    let end = Instant::now() + Duration::from_secs(3);
    while feed.queued() > 0 {
        let mut c = Call::new(&feed.o.o);
        let mut r = c.poll();
        while r.is_none() && Instant::now() < end {
            sleep_ms(1).await;
            if c.woken() {
                r = c.poll();
            }
        }
        match r {
            Some(b) => got.push(number(&b)),
            None => {
                ctx.violation("stuck", format!("{} broadcasts are queued but a new call does not get any; {trace}", feed.queued()));
                return;
            }
        }
    }
    verdict(ctx, first, feed.pushed, got, &trace);
    let mut s: Vec<u8> = trace.bytes().collect();
    s.dedup();
    ctx.case(("by hand", sha256(&s)));
    ctx.sample(format!("{trace} (n new call, r reception, p poll of a woken call, q poll of another, d/D cancelled before/after waking, + returned, . settled)").into());
}
/// Polls whatever is woken until nothing is: then nothing may be queued while calls wait.
async fn settle(feed: &mut Feed, calls: &mut Vec<Call>, got: &mut Vec<u64>) -> bool {
    let mut since = Instant::now();
    loop {
        let w: Vec<usize> = (0..calls.len()).filter(|i| calls[*i].woken()).collect();
        if let Some(i) = w.first() {
            if let Some(b) = calls[*i].poll() {
                got.push(number(&b));
                calls.remove(*i);
                since = Instant::now();
            }
        } else if feed.queued() == 0 || calls.is_empty() {
            return true;
        }
        if since.elapsed() > Duration::from_secs(3) {
            return false;
        }
        sleep_ms(if w.is_empty() { 1 } else { 0 }).await;
    }
}
fn verdict(ctx: &C, first: u64, last: u64, got: Vec<u64>, what: &str) {
    let mut n: HashMap<u64, u32> = HashMap::new();
    for g in got {
        *n.entry(g).or_default() += 1;
    }
    for i in first..last {
        match n.remove(&i) {
            Some(1) => {}
            None => return ctx.violation("lost", format!("broadcast {i} of {last} was received but never returned; {what}")),
            Some(k) => return ctx.violation("repeated", format!("broadcast {i} was returned {k} times; {what}")),
        }
    }
    if !n.is_empty() {
        ctx.violation("invented", format!("{} broadcasts were returned which nobody sent; {what}", n.len()));
    }
}

/// Concurrent waiters in the runtime, many of which give up.
async fn storm(ctx: &C, rng: &mut SmallRng, round: u64) {
    let mut feed = Feed::new(rng, 3).await;
    let waiters = [1, 2, 4, 16, 64][(round % 5) as usize];
    let style = rng.gen_range(0..5u32);
    let pace = rng.gen_range(0..3u32);
    let got: Arc<Mutex<Vec<u64>>> = Default::default();
    let cancelled = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let mut tasks = Vec::new();
    for _ in 0..waiters {
        let (o, got, cancelled, stop) = (feed.o.o.clone(), got.clone(), cancelled.clone(), stop.clone());
        let mut rng = SmallRng::seed_from_u64(rng.gen());
        tasks.push(node_rt().spawn(async move {
            while !stop.load(Ordering::SeqCst) {
                let wait = match style {
                    0 => Duration::from_micros(rng.gen_range(0..300)),
                    1 => Duration::from_millis(rng.gen_range(0..8)),
                    2 => Duration::from_millis(2),
                    _ => Duration::from_millis(rng.gen_range(1..40)),
                };
                let r = if style == 3 {
                    // two calls at once in one task: the other one is dropped
                    tokio::select! {
                        b = o.wait_for_broadcast() => Some(b),
                        b = o.wait_for_broadcast() => Some(b),
                        _ = tokio::time::sleep(wait) => None,
                    }
                } else if style == 4 {
                    // polled once only, then dropped
                    tokio::select! {
                        biased;
                        b = o.wait_for_broadcast() => Some(b),
                        _ = tokio::task::yield_now() => None,
                    }
                } else {
                    tokio::time::timeout(wait, o.wait_for_broadcast()).await.ok()
                };
                match r {
                    Some(b) => got.lock().unwrap().push(number(&b)),
                    None => {
                        cancelled.fetch_add(1, Ordering::SeqCst);
                        if style == 4 {
                            tokio::time::sleep(Duration::from_micros(200)).await;
                        }
                    }
                }
            }
        }));
    }
    let count = 150;
    let mut sent: VecDeque<Vec<u8>> = VecDeque::new();
    for i in 0..count {
        let d = feed.make(rng);
        sent.push_back(feed.send(rng, &d));
        match pace {
            0 if i % 10 == 9 => sleep_ms(2).await,
            1 => sleep_ms(rng.gen_range(0..3)).await,
            2 if i % 30 == 29 => sleep_ms(40).await,
            _ => {}
        }
    }
    // lost on the way?
    for _ in 0..4 {
        for s in &feed.s {
            s.barrier().await;
        }
        if eventually(Duration::from_millis(500), || got.lock().unwrap().len() + feed.queued() >= count).await {
            break;
        }
        for (i, b) in sent.iter().enumerate() {
            feed.s[i % feed.s.len()].send(Msg::Custom(b.clone()));
            if i % 10 == 9 {
                sleep_ms(2).await;
            }
        }
    }
    // nothing more comes: the waiters have to get what is there
    let empty = eventually(Duration::from_secs(6), || feed.queued() == 0).await;
    stop.store(true, Ordering::SeqCst);
    if !empty {
        ctx.violation("stuck", format!("{} broadcasts stay queued while {waiters} waiters keep asking (style {style})", feed.queued()));
    }
    sleep_ms(60).await;
    for t in tasks {
        t.abort();
        t.await.ok();
    }
    ctx.count("storm_received", count as u64);
    ctx.count("storm_cancelled", cancelled.load(Ordering::SeqCst));
    ctx.case(("storm", waiters, style, pace));
    let g = got.lock().unwrap().clone();
    if !ctx.violated() {
        verdict(ctx, 0, feed.pushed, g, &format!("{waiters} waiters, style {style}"));
    }
}

/// A single waiter gets them in the order in which they came.
async fn order(ctx: &C, rng: &mut SmallRng) {
    let mut feed = Feed::new(rng, 1).await;
    let mut got: Vec<u64> = Vec::new();
    let mut expected = 0;
    for _ in 0..rng.gen_range(3..7) {
        let k = rng.gen_range(1..20);
        for _ in 0..k {
            let before = feed.queued();
            let d = feed.make(rng);
            let b = feed.send(rng, &d);
            let mut tries = 0;
            while !eventually(Duration::from_millis(400), || feed.queued() > before).await {
                feed.s[0].send(Msg::Custom(b.clone()));
                tries += 1;
                if tries > 10 {
                    return ctx.violation("lost", "a received broadcast was not put in the queue");
                }
            }
        }
        expected += k;
        let all = rng.gen_bool(0.6);
        while got.len() < expected {
            if rng.gen_range(0..4) == 0 {
                // a cancelled call takes nothing and changes nothing
                drop(Call::new(&feed.o.o));
            }
            match tokio::time::timeout(Duration::from_secs(3), feed.o.o.wait_for_broadcast()).await {
                Ok(b) => got.push(number(&b)),
                Err(_) => return ctx.violation("stuck", format!("{} broadcasts are queued but the only waiter does not get any", feed.queued())),
            }
            if !all && rng.gen_range(0..6) == 0 {
                break;
            }
        }
    }
    ctx.count("ordered", got.len() as u64);
    ctx.case(("order", got.len()));
    if got.iter().enumerate().any(|(i, g)| *g != i as u64) {
        ctx.violation("order", format!("a single waiter got the broadcasts in the order {got:?}"));
    }
}

/// Nobody burns processor time: with waiters, without, after cancelled ones.
async fn idle(ctx: &C, rng: &mut SmallRng) {
    for kind in 0..4 {
        let mut feed = Feed::new(rng, 1).await;
        let mut waiters = Vec::new();
        if kind == 1 || kind == 3 {
            for _ in 0..5 {
                let o = feed.o.o.clone();
                waiters.push(node_rt().spawn(async move { o.wait_for_broadcast().await }));
            }
            sleep_ms(50).await;
        }
        if kind >= 2 {
            // cancelled before anything comes
            for _ in 0..10 {
                let mut c = Call::new(&feed.o.o);
                c.poll();
            }
            if kind == 3 {
                for w in waiters.drain(..3) {
                    w.abort();
                }
            }
            sleep_ms(20).await;
        }
        if kind != 1 {
            for _ in 0..6 {
                let d = feed.make(rng);
                feed.send(rng, &d);
            }
        }
        feed.s[0].barrier().await;
        sleep_ms(200).await;
        if let Some(s) = spinning("node").await {
            ctx.violation("spinning", format!("node threads are busy although nothing happens ({kind}): {s}"));
        }
        ctx.count("idle", 1);
        ctx.case(("idle", kind));
        for w in waiters {
            w.abort();
        }
        if ctx.violated() {
            return;
        }
    }
}
