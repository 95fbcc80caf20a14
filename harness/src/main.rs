mod store;
mod util;
mod val;
mod world;
mod generate;
mod codec;
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

/// the scenario being run, for the watchdog
static CURRENT: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
pub fn current(f: impl FnOnce(&mut String)) {
    TICK.fetch_add(1, Ordering::Relaxed);
    f(&mut CURRENT.lock().unwrap());
}
/// A step that never returns is reported by exit code 97 and its script in OUT.hang
fn watchdog(out: &str) {
    let path = format!("{out}.hang");
    std::thread::spawn(move || {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::Relaxed);
            last = if t == last.0 { (t, last.1 + 1) } else { (t, 0) };
            if last.1 > 40 {
                let _ = std::fs::write(&path, format!("== hang\n{}", CURRENT.lock().unwrap()));
                std::process::exit(97);
            }
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("HARNESS_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    match a.get(1).map(|s| s.as_str()) {
        // gen PROFILE SEED FIRST COUNT OUT.ndjson SCRIPTS : random scenarios, or sweeps
        Some("gen") => {
            let (prof, seed, first, n) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
            watchdog(&a[6]);
            let mut out = std::io::BufWriter::new(std::fs::File::create(&a[6]).unwrap());
            let mut scr = std::io::BufWriter::new(std::fs::File::create(&a[7]).unwrap());
            for i in first..first + n {
                let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
                if prof == "codec" {
                    writeln!(scr, "== codec-{s}\ncodec {s}").unwrap();
                    writeln!(out, "{}", codec::run(s, &format!("codec-{s}"))).unwrap();
                } else if prof.starts_with("sweep") || prof.starts_with("npower") {
                    let per = prof.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(12);
                    let mut j = 0;
                    let emit = |setup: &world::Setup, cmds: &[world::Cmd], ev: Vec<String>| {
                        let id = format!("{}-{s}-{j}", prof.replace(':', "_"));
                        j += 1;
                        writeln!(scr, "== {id}\n{}", setup.text()).unwrap();
                        for c in cmds {
                            writeln!(scr, "{}", c.text()).unwrap();
                        }
                        writeln!(out, "{{\"id\":\"{id}\",\"ev\":[{}]}}", ev.join(",")).unwrap();
                    };
                    if prof.starts_with("sweep") { generate::sweep(s, per, emit) } else { generate::power(s, per, emit) }
                } else {
                    let ev = if prof.starts_with('w') || prof.starts_with("noop") { generate::worker(prof, s, &mut scr) } else { generate::random(prof, s, &mut scr) };
                    writeln!(out, "{{\"id\":\"{prof}-{s}\",\"ev\":[{}]}}", ev.join(",")).unwrap();
                }
                out.flush().unwrap();
                scr.flush().unwrap();
            }
        }
        // run SCRIPTS OUT.ndjson : scripts separated by lines "== id"
        Some("run") => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            watchdog(&a[3]);
            let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            for l in text.lines() {
                if let Some(s) = l.strip_prefix("codec ").and_then(|x| x.trim().parse::<u64>().ok()) {
                    writeln!(out, "{}", codec::run(s, &format!("codec-{s}"))).unwrap();
                }
            }
            for (id, setup, cmds) in parse_scripts(&text) {
                let ev = world::run_script(&setup, &cmds);
                writeln!(out, "{{\"id\":\"{id}\",\"ev\":[{}]}}", ev.join(",")).unwrap();
                out.flush().unwrap();
            }
        }
        _ => {
            eprintln!("usage: gen|run");
            std::process::exit(2);
        }
    }
}
fn parse_scripts(text: &str) -> Vec<(String, world::Setup, Vec<world::Cmd>)> {
    let mut out: Vec<(String, world::Setup, Vec<world::Cmd>)> = vec![];
    let mut id = String::from("script");
    for l in text.lines() {
        let l = l.trim();
        if let Some(x) = l.strip_prefix("== ") {
            id = x.to_string();
        } else if let Some(s) = world::Setup::parse(l) {
            out.push((id.clone(), s, vec![]));
        } else if let Some(c) = world::Cmd::parse(l)
            && let Some(last) = out.last_mut()
        {
            last.2.push(c);
        }
    }
    out
}
