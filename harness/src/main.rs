//! vharness run PROP SEED CASES SECONDS THREADS OUT.json   - explore
//! vharness one PROP SEED CASE                             - one case, printed
//! vharness bytes HEX CFG                                  - expected and actual items for a log
#[cfg(feature = "clients")]
mod clients;
mod dict;
mod direct;
mod drive;
mod gen;
mod props;
mod refmodel;
mod rng;
mod view;

use props::*;
use refmodel::Cfg;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: drive::Alloc = drive::Alloc;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
fn cfg_text(c: &Cfg) -> String {
    let b = |x: bool| if x { '1' } else { '0' };
    format!("{}{}{}{}", b(c.header), b(c.ts), b(c.pad), c.allow.as_ref().map(|a| format!(",{}", a.join(","))).unwrap_or_default())
}
fn parse_cfg(s: &str) -> Cfg {
    let c: Vec<char> = s.chars().collect();
    Cfg { header: c[0] == '1', ts: c[1] == '1', pad: c[2] == '1', allow: s.strip_prefix(&s[..3]).and_then(|r| r.strip_prefix(',')).map(|r| r.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()) }
}
fn viol_json(v: &Viol, seed: u64, case: i64) -> String {
    format!(
        "{{\"what\":{},\"bytes\":{},\"cfg\":{},\"expected\":{},\"actual\":{},\"seed\":{},\"case\":{}}}",
        esc(&v.what), esc(&hex(&v.bytes)), esc(&cfg_text(&v.cfg)), esc(&v.expected), esc(&v.actual), seed, case
    )
}

/// C03 judges the library as a host uses it whose standard streams cannot be written: they are
/// sent to /dev/full while the library runs. What is given back is where they went before.
struct Muted(Vec<(i32, i32)>);
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
fn mute(prop: &str) -> Muted {
    use std::os::fd::AsRawFd;
    let mut v = vec![];
    if prop == "C03" {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            for fd in [1, 2] {
                // SAFETY: plain file descriptor calls on descriptors this process owns
                unsafe {
                    v.push((fd, dup(fd)));
                    dup2(f.as_raw_fd(), fd);
                }
            }
        }
    }
    Muted(v)
}
impl Drop for Muted {
    fn drop(&mut self) {
        for (fd, old) in &self.0 {
            // SAFETY: as above
            unsafe { dup2(*old, *fd) };
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    drive::install();
    match a[1].as_str() {
        "run" => run_all(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &a[7]),
        "one" => {
            let sys = if needs_sys(&a[2]) { systematic(&a[2]) } else { vec![] };
            let muted = mute(&a[2]);
            let env = Env { depth: drive::probe_depth().unwrap_or(64) };
            let o = case(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &sys, &env);
            drop(muted);
            println!("{}", o.sample);
            match o.viol {
                None => println!("holds"),
                Some(v) => {
                    println!("{}", viol_json(&v, 0, 0));
                    std::process::exit(1);
                }
            }
        }
        "bytes" => {
            let b: Vec<u8> = (0..a[2].len() / 2).map(|i| u8::from_str_radix(&a[2][2 * i..2 * i + 2], 16).unwrap()).collect();
            let cfg = parse_cfg(&a[3]);
            let muted = mute("C03");
            let depth = drive::probe_depth().unwrap_or(64);
            let run = refmodel::run(&b, &cfg, depth);
            let act = drive::actual(&b, &cfg, drive::Mode::Whole);
            drop(muted);
            for e in &run.items {
                println!("expected {:?}", e.res);
            }
            println!("expected end: {:?}", run.end);
            for e in &act.items {
                println!("actual   {e:?}");
            }
            println!("actual end: {} crash: {:?}", act.ended, act.crash);
            if let Some(d) = diff(&run, &act) {
                println!("DIFFERENT: {} [{}]", d.0, d.3.join(","));
                std::process::exit(1);
            }
        }
        _ => std::process::exit(2),
    }
}
fn needs_sys(p: &str) -> bool {
    !matches!(p, "C06" | "C13" | "C14" | "C16" | "C20" | "C21")
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    n: AtomicU64,
    nontrivial: AtomicU64,
    seen: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    viol: Mutex<Option<(u64, Viol)>>,
    own_errors: AtomicU64,
}

fn write_out(out: &str, s: &Shared, complete: bool, sys: usize, depth: &str, extra: &str, seed: u64) {
    let v = s.viol.lock().unwrap();
    let j = format!(
        "{{\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"systematic\":{},\"complete\":{},\"own_errors\":{},\"depth\":{},\"samples\":[{}],\"violation\":{}{}}}",
        s.n.load(SeqCst),
        s.nontrivial.load(SeqCst),
        s.seen.lock().unwrap().len(),
        sys,
        complete,
        s.own_errors.load(SeqCst),
        depth,
        s.samples.lock().unwrap().iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
        v.as_ref().map(|(c, v)| viol_json(v, seed, *c as i64)).unwrap_or("null".into()),
        extra
    );
    std::fs::write(out, j).unwrap();
}

fn run_all(prop: &str, seed: u64, cases: u64, secs: u64, threads: usize, out: &str) {
    let t0 = Instant::now();
    let muted = mute(prop);
    let shared = Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        n: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        seen: Mutex::new(HashSet::new()),
        samples: Mutex::new(vec![]),
        viol: Mutex::new(None),
        own_errors: AtomicU64::new(0),
    };
    // What every thread is doing, for the watchdog and for a post-mortem of a crash.
    let doing: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let since: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    std::fs::write(format!("{out}.doing"), "probe").unwrap();
    let depth = drive::probe_depth();
    let env = Env { depth: *depth.as_ref().unwrap_or(&64) };
    let depth_text = match &depth {
        Ok(d) => d.to_string(),
        Err(e) => {
            if matches!(prop, "C03" | "C04") {
                *shared.viol.lock().unwrap() = Some((0, Viol { what: format!("nesting: {e}"), bytes: vec![], cfg: Cfg::default(), expected: "a nesting limit between 16 and 256".into(), actual: e.clone() }));
            }
            esc(e)
        }
    };
    let sys = if needs_sys(prop) { systematic(prop) } else { vec![] };
    let cases = cases + sys.len() as u64;
    use std::os::unix::fs::FileExt;
    let doing_file = std::fs::File::create(format!("{out}.doing")).unwrap();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (shared, sys, env, doing, since, doing_file) = (&shared, &sys, &env, &doing, &since, &doing_file);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || loop {
                    let i = shared.next.fetch_add(1, SeqCst);
                    if i >= cases || shared.stop.load(SeqCst) || (i >= sys.len() as u64 && t0.elapsed().as_secs() >= secs) {
                        doing[t].store(u64::MAX, SeqCst);
                        let _ = doing_file.write_at(format!("{:>20}\n", "-").as_bytes(), t as u64 * 21);
                        return;
                    }
                    since[t].store(t0.elapsed().as_millis() as u64, SeqCst);
                    doing[t].store(i, SeqCst);
                    let _ = doing_file.write_at(format!("{i:>20}\n").as_bytes(), t as u64 * 21);
                    // Code under test runs guarded: a panic that arrives here is this program's own.
                    let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(prop, seed, i, sys, env))) {
                        Ok(o) => o,
                        Err(_) => {
                            let _ = std::io::Write::write_fmt(&mut std::io::stderr(), format_args!("{prop}: case {i} of seed {seed} cannot be generated or judged"));
                            shared.own_errors.fetch_add(1, SeqCst);
                            continue;
                        }
                    };
                    shared.n.fetch_add(1, SeqCst);
                    if o.nontrivial {
                        shared.nontrivial.fetch_add(1, SeqCst);
                        shared.seen.lock().unwrap().insert(o.hash);
                    }
                    if i % 997 == 5 || (i as usize) == sys.len() {
                        let mut s = shared.samples.lock().unwrap();
                        if s.len() < 5 {
                            s.push(o.sample);
                        }
                    }
                    if let Some(v) = o.viol {
                        let mut w = shared.viol.lock().unwrap();
                        if w.as_ref().is_none_or(|x| x.0 > i) {
                            *w = Some((i, v));
                        }
                        shared.stop.store(true, SeqCst);
                    }
                })
                .unwrap();
        }
        let (shared, doing, since, depth_text) = (&shared, &doing, &since, &depth_text);
        let nsys = sys.len();
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            if doing.iter().all(|d| d.load(SeqCst) == u64::MAX) && t0.elapsed().as_millis() > 200 {
                return;
            }
            let now = t0.elapsed().as_millis() as u64;
            for t in 0..threads {
                let i = doing[t].load(SeqCst);
                if i != u64::MAX && now.saturating_sub(since[t].load(SeqCst)) > 30_000 {
                    // A step that does not end: report it and leave.
                    write_out(out, shared, false, nsys, depth_text, &format!(",\"hang\":{i}"), seed);
                    std::process::exit(3);
                }
            }
        });
    });
    let complete = shared.n.load(SeqCst) >= cases;
    write_out(out, &shared, complete, sys.len(), &depth_text, "", seed);
    let bad = shared.viol.lock().unwrap().is_some();
    drop(muted);
    eprintln!("{prop}: {} cases in {:?}", shared.n.load(SeqCst), t0.elapsed());
    std::process::exit(bad as i32);
}
