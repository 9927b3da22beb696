//! Iterators over the same document: histories of next, clone and conversion.
use crate::*;
use parse::J;

enum View<'s> {
    Plain(Parser<'s>),
    Offset(OffsetIter<'s>),
    Gone,
}

/// Input: [{"src": bytes, "ops": [[op, handle, count], ..]}].  Handle 1 is the initial parser; "c" (clone)
/// and "p" (parse again) make a new one, "o" turns a handle into an offset iterator, "d" drops it,
/// "n" advances it count times, "a" drains it.
pub fn views(input: &J) -> String {
    let mut out = String::new();
    list(&mut out, input.arr(), |out, case| {
        let src = case.get("src").unwrap().text();
        out.push_str("{\"src\":");
        json::bytes(out, src.as_bytes());
        out.push_str(",\"ops\":");
        list(out, case.get("ops").unwrap().arr(), |out, op| {
            let (op, h, n) = (op.at(0).str(), op.at(1).num(), op.at(2).num());
            out.push_str(&format!("[\"{op}\",{h},{n}]"))
        });
        let r = guarded(|| run(&src, case.get("ops").unwrap().arr()));
        match r {
            Ok(s) => out.push_str(&format!(",\"err\":\"\",{s}")),
            Err(m) => {
                out.push_str(",\"ev\":[],\"res\":[],\"err\":");
                json::string(out, &m);
            }
        }
        out.push_str("}\n");
    });
    out
}

fn run(src: &str, ops: &[J]) -> String {
    let mut out = String::from("\"ev\":");
    let limit = event_limit(src);
    let evs: Vec<Spanned> = Parser::new(src).into_offset_iter().take(limit).collect();
    write_events(&mut out, &evs);
    out.push_str(",\"res\":");
    let mut views = vec![View::Plain(Parser::new(src))];

    list(&mut out, ops, |out, op| {
        let h = op.at(1).num() as usize - 1;
        let mut got = Vec::new();
        match op.at(0).str() {
            "c" => {
                let v = match &views[h] {
                    View::Plain(p) => View::Plain(p.clone()),
                    _ => View::Gone,
                };
                views.push(v);
            }
            "p" => views.push(View::Plain(Parser::new(src))),
            "o" => {
                if let View::Plain(p) = std::mem::replace(&mut views[h], View::Gone) {
                    views[h] = View::Offset(p.into_offset_iter());
                }
            }
            "d" => views[h] = View::Gone,
            "n" => next(&mut views[h], op.at(2).num() as usize, &mut got),
            "a" => next(&mut views[h], limit, &mut got),
            t => panic!("op {t}"),
        }
        list(out, &got, |out, g| out.push_str(g));
    });
    out
}

fn next(v: &mut View, n: usize, got: &mut Vec<String>) {
    for _ in 0..n {
        let mut s = String::new();
        match v {
            View::Plain(p) => match p.next() {
                Some(e) => json::event(&mut s, &e, &(0..0)),
                None => s.push_str("[]"),
            },
            View::Offset(p) => match p.next() {
                Some((e, r)) => json::event(&mut s, &e, &r),
                None => s.push_str("[]"),
            },
            View::Gone => return,
        }
        let end = s == "[]";
        got.push(s);
        if end {
            return;
        }
    }
}
