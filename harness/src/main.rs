mod nodes;
mod overw;
mod rt;
mod tl;
mod wire;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod rldpw;
mod dhtw;
mod serve;

use std::time::Duration;

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    if prop == "C27.none" {
        return;
    }
    rt::install_panic_hook();
    if ["C01", "C05", "C16", "C20", "C23", "C27"].iter().any(|p| prop.starts_with(p)) {
        rt::with_logging();
    }
    let ctx = rt::Ctx::new(&prop);
    ctx.start_watchdog(Duration::from_secs(ctx.pick(400, 3600)));
    let c = ctx.clone();
    let t = std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(if cfg!(miri) { 2 } else { 4 })
            .enable_all()
            .build()
            .unwrap();
        let c2 = c.clone();
        rt.block_on(async move {
            match prop.as_str() {
                "C01" => c01::run(c2).await,
                "C02" => c02::run(c2).await,
                "C03" => c03::run(c2).await,
                "C04" => c04::run(c2).await,
                "C05" => c05::run(c2).await,
                "C06" => c06::run(c2).await,
                "C07" => c07::run(c2).await,
                "C08" => c08::run(c2).await,
                "C09" => c09::run(c2).await,
                "C10" => c10::run(c2).await,
                "C11" => c11::run(c2).await,
                "C12" => c12::run(c2).await,
                "C13" => c13::run(c2).await,
                "C14" => c14::run(c2).await,
                "C15" => c15::run(c2).await,
                "C16" => c16::run(c2).await,
                "C17" => c17::run(c2).await,
                "C18" => c18::run(c2).await,
                "C19" => c19::run(c2).await,
                "C20" => c20::run(c2).await,
                "C28" => c28::run(c2).await,
                "C29" => c29::run(c2).await,
                "C21" => c21::run(c2).await,
                "C22" => c22::run(c2).await,
                "C23" => c23::run(c2).await,
                "C24" => c24::run(c2).await,
                "C25" => c25::run(c2).await,
                "C26" => c26::run(c2).await,
                p if p.starts_with("C27.") => c27::run(c2, &p[4..]).await,
                other => {
                    eprintln!("unknown property {other}");
                    std::process::exit(2);
                }
            }
        });
    });
    t.join().ok();
    ctx.finish();
}
