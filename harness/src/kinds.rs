//! Classification of containers, and conversion of list bullets.
use crate::*;
use parse::J;

fn flags(c: &Container) -> String {
    format!("[{},{}]", c.is_block(), c.is_block_container())
}

fn record(out: &mut String, evs: &[Spanned]) {
    out.push_str("\"ev\":");
    write_events(out, evs);
    out.push_str(",\"flags\":");
    list(out, evs, |out, (e, _)| match e {
        Event::Start(c, _) | Event::End(c) => out.push_str(&flags(c)),
        _ => out.push_str("[]"),
    });
}

fn bullets(out: &mut String) {
    let converted = |x: u32, b: ListBulletType| {
        format!(
            "[{x},{},{}]",
            u8::from(b),
            u32::from(char::from(b))
        )
    };
    let bytes: Vec<String> = (0..=u8::MAX)
        .filter_map(|x| Some(converted(x.into(), ListBulletType::try_from(x).ok()?)))
        .collect();
    let chars: Vec<String> = ('\0'..=char::MAX)
        .filter_map(|x| Some(converted(x.into(), ListBulletType::try_from(x).ok()?)))
        .collect();
    out.push_str(&format!(
        "\"bytes\":[{}],\"chars\":[{}]",
        bytes.join(","),
        chars.join(",")
    ));
}

/// Input: documents (arrays of bytes) as {"src": ..}, event streams as {"ev": ..}, or {} for the
/// conversions.
pub fn kinds(input: &J) -> String {
    let mut out = String::new();
    list(&mut out, input.arr(), |out, case| {
        let mut body = String::new();
        let r = guarded(|| {
            if let Some(src) = case.get("src") {
                let src = src.text();
                let evs: Vec<Spanned> = Parser::new(&src)
                    .into_offset_iter()
                    .take(event_limit(&src))
                    .collect();
                record(&mut body, &evs);
            } else if let Some(evs) = case.get("ev") {
                let evs: Vec<Spanned> =
                    evs.arr().iter().map(|e| (parse::event(e), 0..0)).collect();
                record(&mut body, &evs);
            } else {
                bullets(&mut body);
            }
        });
        match r {
            Ok(()) => out.push_str(&format!("{{{body},\"err\":\"\"}}\n")),
            Err(m) => {
                out.push_str("{\"err\":");
                json::string(out, &m);
                out.push_str("}\n");
            }
        }
    });
    out
}
