mod clock;
mod endless;
mod host;
mod images;
mod link;
mod modules;
mod product;
mod rng;
mod same;
mod session;
mod station;
mod tables;
mod twin;
mod val;

use rng::Rng;
use session::*;
use std::collections::HashMap;

fn main() {
    if std::env::var_os("UR20H_TALK").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if !clock::works() {
        eprintln!("the clock cannot be moved: nothing is shown about pauses");
    }
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].as_str();
    let opt: HashMap<String, String> = args[2..]
        .iter()
        .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
        .collect();
    let num = |k: &str, d: usize| opt.get(k).map_or(d, |v| v.parse().expect("number"));
    let seed = num("seed", 1) as u64;
    let out = opt.get("out").cloned().unwrap_or("/dev/stdout".into());
    let mut r = Rng::new(seed);
    let mut log = Log::new();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match cmd {
        "mixed" => mixed(
            &Opts {
                sessions: num("sessions", 20),
                events: num("events", 20),
                max_mods: num("mods", 12),
                bad_image: num("bad_image", 0),
                bad_value: num("bad_value", 0),
                writes: num("writes", 40),
                feedback: num("feedback", 50),
                align: num("align", 30),
                sel: opt.get("sel").cloned().unwrap_or("all".into()),
                no_com: num("no_com", 0) > 0,
                bad_addr: num("bad_addr", 0),
                burst: num("burst", 0),
                exact: num("exact", 0) > 0,
                age: num("age", 0),
            },
            &mut r,
            &mut log,
        ),
        "link" => link::link(
            &link::LinkOpts {
                sessions: num("sessions", 20),
                cycles: num("cycles", 60),
                coms: num("coms", 2),
                others: num("others", 3),
                rejects: num("rejects", 0),
                start: num("start", 0) > 0,
                setonly: num("setonly", 0) > 0,
                big: num("big", 0),
                lazy: num("lazy", 0) > 0,
                idle: num("idle", 0),
            },
            &mut r,
            &mut log,
        ),
        "sched" => link::sched(
            &std::fs::read_to_string(opt.get("in").expect("in=")).expect("behaviours"),
            &mut r,
            &mut log,
        ),
        "replay" => {
            let text = std::fs::read_to_string(opt.get("in").expect("in=")).expect("behaviours");
            match opt.get("as").map_or("plain", |s| s.as_str()) {
                "same" => replay::<same::Same>(&text, &mut log),
                "twin" => replay::<twin::Twin>(&text, &mut log),
                "product" => replay::<product::Product>(&text, &mut log),
                _ => replay::<Plain>(&text, &mut log),
            }
        }
        "host" => host::host(num("sessions", 20), num("steps", 500), &mut r, &mut log),
        "twin" => twin::twin(num("sessions", 20), num("events", 40), &mut r, &mut log),
        "product" => product::product(
            num("sessions", 20),
            num("events", 40),
            num("mods", 8),
            num("coms", 30),
            &mut r,
            &mut log,
        ),
        "params" => tables::params(num("n", 60), &mut r, &mut log),
        "scan" => tables::scan(num("full", 0) > 0, &mut r, &mut log),
        "analog" => tables::analog_in(
            opt.get("types").map_or("ui", |s| s.as_str()),
            num("step", 1),
            &mut r,
            &mut log,
        ),
        "drive" => tables::analog_drive(num("n", 200), &mut r, &mut log),
        "keep" => tables::keep(num("step", 1), &mut r, &mut log),
        "bits" => tables::bits(&mut r, &mut log),
        "defaults" => tables::defaults(num("n", 30), num("bad", 0), &mut r, &mut log),
        "chaos" => session::chaos(num("sessions", 100), &mut r, &mut log),
        "station" => station::station(
            num("sessions", 30),
            num("cycles", 20),
            num("mods", 64),
            &mut r,
            &mut log,
        ),
        "same" => same::same(
            num("sessions", 20),
            num("events", 40),
            num("mods", 6),
            &mut r,
            &mut log,
        ),
        "hertz" => {
            tables::hertz(num("n", 100), &mut r, &mut log);
            tables::hertz_short(2 * num("n", 100), &mut r, &mut log);
        }
        "images" => images::images(num("n", 200), num("mods", 8), num("bad", 30), &mut r, &mut log),
        "endless" => endless::endless(
            &endless::Endless {
                sessions: num("sessions", 8),
                cycles: num("cycles", 20_000),
                mods: num("mods", 4),
                backlog: num("backlog", 200),
                stream: num("stream", 0) > 0,
            },
            &mut r,
            &mut log,
        ),
        "presets" => tables::presets(&mut log),
        "rows" => tables::rows(
            num("n", 30),
            num("bad", 0),
            opt.get("sel").map_or("all", |s| s.as_str()),
            &mut r,
            &mut log,
        ),
        "abuse" => tables::abuse(num("n", 30), &mut r, &mut log),
        "telegrams" => tables::telegrams(num("n", 200), &mut r, &mut log),
        "ids" => tables::scan_ids(num("full", 1) > 0, &mut log),
        "ident" => tables::ident(num("n", 5), &mut r, &mut log),
        "addresses" => tables::addresses(num("n", 100), &mut r, &mut log),
        "counts" => tables::counts(&mut log),
        "build" => tables::build(num("n", 200), &mut r, &mut log),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }));
    if res.is_err() {
        // the library panicked where the driver did not expect it, or returned
        // something the driver cannot go on with
        log.line(r#"{"e":"crash"}"#);
    }
    std::fs::write(&out, log.s).expect("write trace");
    println!("lines={}", log.lines);
}
