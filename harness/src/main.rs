//! Observes the public behaviour of jotdown and writes it down as JSON for the specification.
mod attrs;
mod bulk;
mod json;
mod kinds;
mod parse;
mod render;
mod reuse;
mod sinks;
mod views;

use jotdown::*;

pub type Spanned<'s> = (Event<'s>, std::ops::Range<usize>);

pub fn unhex(l: &str) -> Vec<u8> {
    (0..l.len() / 2)
        .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}

/// Documents, one per line in hexadecimal.
fn read_docs(path: &str) -> Vec<String> {
    std::fs::read_to_string(path)
        .expect("docs file")
        .lines()
        .map(|l| String::from_utf8(unhex(l)).expect("utf-8"))
        .collect()
}

/// Run f, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("panic: {m}")
    })
}

/// More events than any document of this length has.
pub fn event_limit(src: &str) -> usize {
    64 + 16 * src.len()
}

pub fn events(src: &str) -> Result<Vec<Spanned<'_>>, String> {
    guarded(|| {
        Parser::new(src)
            .into_offset_iter()
            .take(event_limit(src))
            .collect()
    })
}

pub fn write_events(out: &mut String, evs: &[Spanned]) {
    list(out, evs, |out, (e, r)| json::event(out, e, r));
}

/// Records of cases, counting each for the watchdog.
pub fn list<T>(out: &mut String, items: &[T], mut f: impl FnMut(&mut String, &T)) {
    out.push('[');
    for (i, x) in items.iter().enumerate() {
        bulk::tick();
        if i > 0 {
            out.push(',');
        }
        f(out, x);
    }
    out.push(']');
}

/// One record per document: source bytes, panic message or "", events.
fn cmd_events(docs: &[String]) -> String {
    let mut out = String::new();
    list(&mut out, docs, |out, d| {
        out.push_str("{\"src\":");
        json::bytes(out, d.as_bytes());
        out.push_str(",\"err\":");
        match events(d) {
            Ok(evs) => {
                out.push_str("\"\",\"ev\":");
                write_events(out, &evs);
            }
            Err(m) => {
                json::string(out, &m);
                out.push_str(",\"ev\":[]");
            }
        }
        out.push_str("}\n");
    });
    out
}

/// Stack given to the code under test, that of a main thread on Linux by default.
const STACK: usize = 8 << 20;
/// Seconds a single case may take.
const PATIENCE: u64 = 60;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    bulk::watchdog(PATIENCE);
    let h = std::thread::Builder::new().stack_size(STACK).spawn(command);
    if h.unwrap().join().is_err() {
        std::process::exit(98);
    }
}

fn command() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let text = |i: usize| std::fs::read_to_string(arg(i)).expect("input file");
    let out = match arg(1) {
        "events" => cmd_events(&read_docs(arg(2))),
        "render" => render::docs(&read_docs(arg(2)), arg(4)),
        "streams" => render::streams(&parse::J::read(&text(2)), arg(4)),
        "views" => views::views(&parse::J::read(&text(2))),
        "attrs" => attrs::strings(&read_docs(arg(2))),
        "attrsets" => attrs::sets(&parse::J::read(&text(2))),
        "kinds" => kinds::kinds(&parse::J::read(&text(2))),
        "reuse" => reuse::reuse(&parse::J::read(&text(2))),
        "sinks" => sinks::sinks(&parse::J::read(&text(2))),
        "bulk" => bulk::bulk(arg(2), arg(4).parse().unwrap(), arg(5).parse().unwrap()),
        "one" => bulk::one(&read_docs(arg(2))),
        "html" => render::plain(&read_docs(arg(2)), arg(4)),
        c => panic!("unknown command {c}"),
    };
    std::fs::write(arg(3), out).expect("output file");
}
