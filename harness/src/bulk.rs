//! Totality: parse and render many documents, recording how each one ended.
use crate::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

static CURRENT: AtomicUsize = AtomicUsize::new(0);

struct Outcome {
    what: String,
    obs: String,
}

/// Take events until the end, and ask again three times; observations in order.
fn drain<T>(it: &mut impl Iterator<Item = T>, limit: usize, obs: &mut String) {
    let mut events = 0;
    while events <= limit && it.next().is_some() {
        events += 1;
    }
    obs.push_str(&format!(",[\"events\",{events}]"));
    for _ in 0..4 {
        obs.push_str(match it.next() {
            None => ",[\"none\"]",
            Some(_) => ",[\"event\"]",
        });
    }
}

fn run(src: &str) -> Outcome {
    let mut obs = String::from("[[\"construct\"]");
    let r = guarded(|| {
        let limit = event_limit(src);
        let mut p = Parser::new(src).into_offset_iter();
        drain(&mut p, limit, &mut obs);
        obs.push_str(",[\"construct\"]");
        drain(&mut Parser::new(src), limit, &mut obs);
        for lay in render::layouts("0::0,1::0,0:09:0,0:2020:3") {
            let mut s = String::new();
            let evs = Parser::new(src).take(limit);
            lay.renderer().push_events(evs, &mut s).expect("fmt error");
            obs.push_str(&format!(",[\"rendered\",{}]", s.len()));
        }
    });
    obs.push(']');
    Outcome {
        what: r.err().unwrap_or_default(),
        obs,
    }
}

/// Count one more case, for the watchdog.
pub fn tick() {
    CURRENT.fetch_add(1, Ordering::Relaxed);
}

/// End the process if one case takes too long.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (usize::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = CURRENT.load(Ordering::Relaxed);
            if now != last {
                (last, since) = (now, Instant::now());
            } else if since.elapsed() > Duration::from_secs(secs) {
                eprintln!("hang at {now}");
                std::process::exit(99);
            }
        }
    });
}

/// Given documents, one record each.
pub fn one(docs: &[String]) -> String {
    let mut out = String::new();
    list(&mut out, docs, |out, d| {
        let o = run(d);
        record(out, d, &o);
    });
    out
}

fn record(out: &mut String, d: &str, o: &Outcome) {
    out.push_str(&format!("{{\"len\":{},\"src\":\"", d.len()));
    out.push_str(&hex(&d.as_bytes()[..if d.len() <= 4000 { d.len() } else { 0 }]));
    out.push_str(&format!("\",\"obs\":{},\"err\":", o.obs));
    json::string(out, &o.what);
    out.push_str("}\n");
}

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// Generate n documents from the token file (one hex token per line) and run them all.
pub fn bulk(tokens: &str, seed: u64, n: usize) -> String {
    let tokens: Vec<String> = std::fs::read_to_string(tokens)
        .expect("tokens")
        .lines()
        .map(|l| String::from_utf8(unhex(l)).unwrap())
        .collect();
    let mut out = String::new();
    let mut docs = Vec::new();
    for i in 0..n {
        tick();
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15)
            ^ (i as u64 + 1).wrapping_mul(0xD134_2543_DE82_EF95)
            | 1);
        for _ in 0..4 {
            r.next();
        }
        let m = 1 + r.below(9);
        let sub: Vec<&String> = (0..m).map(|_| &tokens[r.below(tokens.len())]).collect();
        let mut d = String::new();
        let max = if r.below(20) == 0 { 80 } else { 20 };
        for _ in 0..1 + r.below(max) {
            let t = sub[r.below(m)];
            let reps = if r.below(40) == 0 {
                1 + r.below(300)
            } else {
                1
            };
            for _ in 0..reps {
                d.push_str(t);
            }
            if r.below(60) == 0 {
                d.push(char::from_u32(r.next() as u32 % 0x11_0000).unwrap_or('\u{fffd}'));
            }
        }
        let o = run(&d);
        docs.push((d, o));
    }
    list(&mut out, &docs, |out, (d, o)| record(out, d, o));
    out
}
