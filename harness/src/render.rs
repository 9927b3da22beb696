//! Rendering of documents and of hand-built event streams, event by event.
use crate::*;
use jotdown::html::{Indentation, Renderer};

pub struct Layout {
    pub min: bool,
    pub ind: String,
    pub lvl: usize,
}

/// Layouts as MIN:INDENT_HEX:LEVEL, comma separated.
pub fn layouts(spec: &str) -> Vec<Layout> {
    spec.split(',')
        .map(|l| {
            let f: Vec<&str> = l.split(':').collect();
            Layout {
                min: f[0] == "1",
                ind: String::from_utf8(unhex(f[1])).unwrap(),
                lvl: f[2].parse().unwrap(),
            }
        })
        .collect()
}

impl Layout {
    pub fn renderer<'s>(&self) -> Renderer<'s> {
        if self.min {
            Renderer::minified()
        } else {
            Renderer::indented(Indentation {
                string: self.ind.clone(),
                initial_level: self.lvl,
            })
        }
    }
}

fn chunks(evs: &[Event], lay: &Layout) -> Result<Vec<String>, String> {
    guarded(|| {
        let mut r = lay.renderer();
        evs.iter()
            .map(|e| {
                let mut s = String::new();
                r.push_event(e.clone(), &mut s).expect("fmt error");
                s
            })
            .collect()
    })
}

/// The same events with owned text, each text split in two.
fn resplit(evs: &[Event]) -> Vec<Event<'static>> {
    let mut out = Vec::new();
    for e in evs {
        match e {
            Event::Str(s) => {
                let mid = (s.len() / 2..=s.len())
                    .find(|i| s.is_char_boundary(*i))
                    .unwrap();
                for part in [&s[..mid], &s[mid..]] {
                    out.push(Event::Str(part.to_string().into()));
                }
            }
            e => {
                let mut s = String::new();
                json::event(&mut s, e, &(0..0));
                out.push(parse::event(&parse::J::read(&s)));
            }
        }
    }
    out
}

fn record(out: &mut String, evs: &[Spanned], lays: &[Layout]) {
    let plain: Vec<Event> = evs.iter().map(|(e, _)| e.clone()).collect();
    let mut err = String::new();
    let mut body = String::new();
    list(&mut body, lays, |out, lay| {
        out.push_str(&format!("{{\"lay\":{{\"min\":{},\"ind\":", lay.min));
        json::bytes(out, lay.ind.as_bytes());
        out.push_str(&format!(",\"lvl\":{}}},\"chunks\":", lay.lvl));
        let cs = chunks(&plain, lay).unwrap_or_else(|m| {
            err = m;
            Vec::new()
        });
        list(out, &cs, |out, c| json::bytes(out, c.as_bytes()));
        let whole = cs.concat();
        let alt = chunks(&resplit(&plain), lay).map(|c| c.concat());
        out.push_str(&format!(",\"alt\":{}}}", alt.as_deref() == Ok(&*whole)));
    });
    out.push_str(",\"ev\":");
    write_events(out, evs);
    out.push_str(",\"lays\":");
    out.push_str(&body);
    out.push_str(",\"err\":");
    json::string(out, &err);
}

pub fn docs(docs: &[String], lays: &str) -> String {
    let lays = layouts(lays);
    let mut out = String::new();
    list(&mut out, docs, |out, d| {
        out.push_str("{\"src\":");
        json::bytes(out, d.as_bytes());
        match events(d) {
            Ok(evs) => record(out, &evs, &lays),
            Err(m) => {
                out.push_str(",\"ev\":[],\"lays\":[],\"err\":");
                json::string(out, &m);
            }
        }
        out.push_str("}\n");
    });
    out
}

pub fn streams(input: &parse::J, lays: &str) -> String {
    let lays = layouts(lays);
    let mut out = String::new();
    list(&mut out, input.arr(), |out, s| {
        let evs: Vec<Spanned> = s.arr().iter().map(|e| (parse::event(e), 0..0)).collect();
        out.push_str("{\"src\":[]");
        record(out, &evs, &lays);
        out.push_str("}\n");
    });
    out
}

/// The library's rendering of whole documents, one per line in hexadecimal.
pub fn plain(docs: &[String], lays: &str) -> String {
    let lays = layouts(lays);
    let mut out = String::new();
    for d in docs {
        for lay in &lays {
            let mut s = String::new();
            let r = guarded(|| lay.renderer().push_events(Parser::new(d), &mut s).is_ok());
            out.push_str(if r == Ok(true) { "ok " } else { "err " });
            out.push_str(&hex(s.as_bytes()));
            out.push('\n');
        }
    }
    out
}
