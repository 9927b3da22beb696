//! Renderers used for several documents, in turn, with some renderings abandoned or failing.
use crate::*;
use jotdown::html::Renderer;
use parse::J;

/// Fails at a given write, from 1; 0 for never.
struct Sink<'a> {
    got: &'a mut String,
    left: i64,
}

impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.left -= 1;
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

struct Use<'s> {
    rend: Renderer<'s>,
    doc: usize,
    pos: usize,
    broken: bool,
}

/// Input: [{"srcs": [bytes, ..], "lays": "0::0,..", "ops": [[op, renderer, argument], ..]}].
pub fn reuse(input: &J) -> String {
    let mut out = String::new();
    list(&mut out, input.arr(), |out, case| {
        let srcs: Vec<String> = case.get("srcs").unwrap().arr().iter().map(J::text).collect();
        let lays = render::layouts(case.get("lays").unwrap().str());
        let ops = case.get("ops").unwrap().arr();
        out.push_str("{\"ops\":");
        list(out, ops, |out, op| {
            let (op, h, n) = (op.at(0).str(), op.at(1).num(), op.at(2).num());
            out.push_str(&format!("[\"{op}\",{h},{n}]"))
        });
        match guarded(|| run(&srcs, &lays, ops)) {
            Ok(s) => out.push_str(&format!(",\"err\":\"\",{s}")),
            Err(m) => {
                out.push_str(",\"fresh\":[],\"res\":[],\"err\":");
                json::string(out, &m);
            }
        }
        out.push_str("}\n");
    });
    out
}

fn run(srcs: &[String], lays: &[render::Layout], ops: &[J]) -> String {
    let mut out = String::new();
    let docs: Vec<Vec<Event>> = srcs
        .iter()
        .map(|s| Parser::new(s).take(event_limit(s)).collect())
        .collect();
    out.push_str("\"evs\":");
    list(&mut out, srcs, |out, s| {
        let limit = event_limit(s);
        let evs: Vec<Spanned> = Parser::new(s).into_offset_iter().take(limit).collect();
        write_events(out, &evs);
    });
    out.push_str(",\"lays\":");
    list(&mut out, lays, |out, lay| {
        out.push_str(&format!("{{\"min\":{},\"ind\":", lay.min));
        json::bytes(out, lay.ind.as_bytes());
        out.push_str(&format!(",\"lvl\":{}}}", lay.lvl));
    });
    out.push_str(",\"fresh\":");
    list(&mut out, &docs, |out, d| {
        list(out, lays, |out, lay| {
            let mut rend = lay.renderer();
            list(out, d, |out, e| {
                let mut s = String::new();
                rend.push_event(e.clone(), &mut s).expect("fmt error");
                json::bytes(out, s.as_bytes());
            });
        });
    });
    out.push_str(",\"res\":");
    let mut uses: Vec<Use> = lays
        .iter()
        .map(|lay| Use {
            rend: lay.renderer(),
            doc: 0,
            pos: 0,
            broken: false,
        })
        .collect();
    list(&mut out, ops, |out, op| {
        let (kind, arg) = (op.at(0).str(), op.at(2).num());
        let u = &mut uses[op.at(1).num() as usize - 1];
        if kind == "s" || kind == "w" {
            u.doc = arg as usize;
            u.pos = 0;
            u.broken = false;
        }
        let mut got = String::new();
        let (mut taken, mut failed) = (0, false);
        if u.doc > 0 && !u.broken {
            let rest = &docs[u.doc - 1][u.pos..];
            let some = match kind {
                "s" => &rest[..rest.len().min(1)],
                "n" => &rest[..rest.len().min(arg as usize)],
                _ => rest,
            };
            let mut sink = Sink {
                got: &mut got,
                left: if kind == "f" { arg } else { 0 },
            };
            if kind == "n" {
                for e in some {
                    taken += 1;
                    failed = failed || u.rend.push_event(e.clone(), &mut sink).is_err();
                }
            } else {
                let evs = some.iter().cloned().inspect(|_| taken += 1);
                failed = u.rend.push_events(evs, &mut sink).is_err();
            }
            u.pos += taken;
            u.broken = failed;
        }
        out.push('[');
        json::bytes(out, got.as_bytes());
        out.push_str(&format!(",{taken},{failed}]"));
    });
    out
}
