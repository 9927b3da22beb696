//! Rendering into sinks that fail, or accept only part of what they are given.
use crate::*;
use parse::J;
use std::cell::RefCell;

/// Responses: "F" accept all, "S" accept one byte, "H" accept half, "I" interrupted, "Z" accept
/// nothing, "E" error.  Once the script is exhausted everything is accepted.
struct Script<'a> {
    skip: usize,
    resp: &'a [J],
    calls: Vec<(Vec<u8>, String)>,
    flushed: usize,
}

impl Script<'_> {
    fn next(&mut self, data: &[u8]) -> String {
        let n = self.calls.len();
        let r = if n < self.skip {
            "F"
        } else {
            self.resp.get(n - self.skip).map_or("F", |r| r.str())
        };
        self.calls.push((data.to_vec(), r.to_string()));
        r.to_string()
    }
}

struct Sink<'a, 'b>(&'a RefCell<Script<'b>>);

impl std::io::Write for Sink<'_, '_> {
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        let r = self.0.borrow_mut().next(data);
        match &*r {
            "S" => Ok(data.len().min(1)),
            "H" => Ok(data.len().div_ceil(2)),
            "I" => Err(std::io::Error::new(
                std::io::ErrorKind::Interrupted,
                "interrupted",
            )),
            "Z" => Ok(0),
            "E" => Err(std::io::Error::new(std::io::ErrorKind::StorageFull, "boom")),
            _ => Ok(data.len()),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.borrow_mut().flushed += 1;
        Ok(())
    }
}

impl std::fmt::Write for Sink<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match &*self.0.borrow_mut().next(s.as_bytes()) {
            "F" => Ok(()),
            _ => Err(std::fmt::Error),
        }
    }
}

/// A caller's own renderer: writes as the library's does, but fails by itself at event `left`.
struct Own<'s> {
    inner: jotdown::html::Renderer<'s>,
    left: i64,
}

impl<'s> Render<'s> for Own<'s> {
    fn push_event<W: std::fmt::Write>(&mut self, event: Event<'s>, out: W) -> std::fmt::Result {
        self.left -= 1;
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.inner.push_event(event, out)
    }
}

/// Input: [{"src", "lay": "0::0", "api", "skip", "resp", "own"}] with api one of "push", "pushes",
/// "write", "writes", "str"; own is the event at which the renderer fails, 0 for none.
pub fn sinks(input: &J) -> String {
    let mut out = String::new();
    list(&mut out, input.arr(), |out, case| {
        let src = case.get("src").unwrap().text();
        let lays = render::layouts(case.get("lay").unwrap().str());
        let api = case.get("api").unwrap().str();
        let own = case.get("own").map_or(0, J::num);
        let script = RefCell::new(Script {
            skip: case.get("skip").unwrap().num() as usize,
            resp: case.get("resp").unwrap().arr(),
            calls: Vec::new(),
            flushed: 0,
        });
        out.push_str("{\"src\":");
        json::bytes(out, src.as_bytes());
        out.push_str(&format!(",\"api\":\"{api}\",\"own\":{own},\"chunks\":"));
        let r = guarded(|| {
            let mut pre = String::new();
            let mut rend = lays[0].renderer();
            let chunks: Vec<String> = Parser::new(&src)
                .map(|e| {
                    let mut s = String::new();
                    rend.push_event(e, &mut s).unwrap();
                    s
                })
                .collect();
            list(&mut pre, &chunks, |out, c| json::bytes(out, c.as_bytes()));
            let mut rend = Own {
                inner: lays[0].renderer(),
                left: own,
            };
            let mut stop = 0;
            let io = |e: std::io::Error| format!("{:?}", e.kind());
            let mut parser = Parser::new(&src);
            let pulled = RefCell::new(0);
            let mut counted = std::iter::from_fn(|| {
                let e = parser.next();
                if e.is_some() {
                    *pulled.borrow_mut() += 1;
                }
                e
            });
            let res = match api {
                "push" => counted.by_ref().try_for_each(|e| {
                    stop += 1;
                    rend.push_event(e, Sink(&script))
                        .map_err(|_| "fmt".to_string())
                }),
                "write" => counted.by_ref().try_for_each(|e| {
                    stop += 1;
                    rend.write_event(e, Sink(&script)).map_err(io)
                }),
                "pushes" => rend
                    .push_events(counted.by_ref(), Sink(&script))
                    .map_err(|_| "fmt".to_string()),
                "writes" => rend
                    .write_events(counted.by_ref(), Sink(&script))
                    .map_err(io),
                _ => {
                    let s = jotdown::html::render_to_string(counted.by_ref());
                    script.borrow_mut().next(s.as_bytes());
                    Ok(())
                }
            };
            let n = *pulled.borrow();
            (pre, res, n)
        });
        let (pre, res, stop) = match r {
            Ok((pre, res, stop)) => (pre, res.err().unwrap_or_default(), stop),
            Err(m) => ("[]".to_string(), m, 0),
        };
        out.push_str(&pre);
        out.push_str(",\"res\":");
        json::string(out, &res);
        out.push_str(&format!(",\"stop\":{stop},\"calls\":"));
        list(out, &script.borrow().calls, |out, (d, r)| {
            out.push('[');
            json::bytes(out, d);
            out.push_str(&format!(",\"{r}\"]"));
        });
        out.push_str("}\n");
    });
    out
}
