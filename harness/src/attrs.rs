//! Attribute strings and attribute sets.
use crate::*;
use parse::J;

fn set(out: &mut String, a: &Attributes, keys: &[String]) {
    out.push_str("\"as\":");
    json::attrs(out, a);
    let dbg = format!("{a:?}");
    out.push_str(",\"dbg\":");
    json::bytes(out, dbg.as_bytes());
    out.push_str(",\"re\":");
    match guarded(|| Attributes::try_from(&*dbg)) {
        Ok(Ok(b)) => out.push_str(if b == *a { "\"same\"" } else { "\"other\"" }),
        Ok(Err(e)) => json::string(out, &format!("error {}", e.pos)),
        Err(m) => json::string(out, &m),
    }
    out.push_str(",\"kkeys\":");
    list(out, &a.iter().collect::<Vec<_>>(), |out, (k, _)| {
        out.push('[');
        if let Some(k) = k.key() {
            json::bytes(out, k.as_bytes());
        }
        out.push(']');
    });
    out.push_str(",\"disp\":");
    list(out, &a.iter().collect::<Vec<_>>(), |out, (_, v)| {
        json::bytes(out, v.to_string().as_bytes())
    });
    out.push_str(",\"parts\":");
    list(out, &a.iter().collect::<Vec<_>>(), |out, (_, v)| {
        json::bytes(out, v.parts().collect::<String>().as_bytes())
    });
    out.push_str(",\"keys\":");
    list(out, keys, |out, k| {
        out.push('[');
        json::bytes(out, k.as_bytes());
        out.push_str(&format!(",{},[", a.contains_key(k)));
        if let Some(v) = a.get_value(k) {
            json::bytes(out, json::value_raw(&v).as_bytes());
        }
        out.push_str("]]");
    });
    out.push_str(",\"uniq\":");
    list(
        out,
        &a.unique_pairs().take(2 * a.len() + 4).collect::<Vec<_>>(),
        |out, (k, v)| {
            out.push('[');
            json::bytes(out, k.as_bytes());
            out.push(',');
            json::bytes(out, json::value_raw(v).as_bytes());
            out.push(']');
        },
    );
}

fn keys(a: &Attributes) -> Vec<String> {
    let mut keys: Vec<String> = ["class", "id", "zz", "", "clas"].map(String::from).into();
    for (k, _) in a {
        if let AttributeKind::Pair { key } = k {
            if !keys.contains(&key.to_string()) {
                keys.push(key.to_string());
            }
        }
    }
    keys
}

/// Parse each string as an attribute set, and query the result.
pub fn strings(docs: &[String]) -> String {
    let mut out = String::new();
    list(&mut out, docs, |out, d| {
        out.push_str("{\"src\":");
        json::bytes(out, d.as_bytes());
        let r = guarded(|| {
            let mut out = String::new();
            match Attributes::try_from(&**d) {
                Ok(a) => {
                    out.push_str("\"ok\":true,\"pos\":0,");
                    set(&mut out, &a, &keys(&a));
                }
                Err(e) => out.push_str(&format!(
                    "\"ok\":false,\"pos\":{},\"as\":[],\"dbg\":[],\"re\":\"\",\"kkeys\":[],\"disp\":[],\"parts\":[],\"keys\":[],\"uniq\":[]",
                    e.pos
                )),
            }
            out
        });
        out.push_str(",\"err\":");
        match r {
            Ok(s) => {
                out.push_str("\"\",");
                out.push_str(&s);
            }
            Err(m) => json::string(out, &m),
        }
        out.push_str("}\n");
    });
    out
}

/// Build a set by the given operations, and query the result after each of them.
///
/// Operations: ["parse", bytes], ["push", elem], ["insert", i, elem], ["remove", i], ["pop"],
/// ["extend", elems], ["collect", elems], ["vec", elems], ["set", i, value], ["clone"],
/// ["clear"], ["swap", i, j], ["rev"], ["trunc", n], ["into"].
pub fn sets(input: &J) -> String {
    let mut out = String::new();
    list(&mut out, input.arr(), |out, case| {
        let strings: Vec<String> = case.arr().iter().map(|op| op.at(1).text()).collect();
        out.push_str("{\"ops\":");
        out.push_str(&text(case));
        let r = guarded(|| {
            let mut out = String::new();
            let mut a = Attributes::new();
            let ops: Vec<(&J, &String)> = case.arr().iter().zip(&strings).collect();
            list(&mut out, &ops, |out, (op, s)| {
                apply(&mut a, op, s);
                out.push('{');
                set(out, &a, &keys(&a));
                out.push('}');
            });
            out
        });
        match r {
            Ok(s) => out.push_str(&format!(",\"err\":\"\",\"res\":{s}")),
            Err(m) => {
                out.push_str(",\"res\":[],\"err\":");
                json::string(out, &m);
            }
        }
        out.push_str("}\n");
    });
    out
}

fn apply<'s>(a: &mut Attributes<'s>, op: &J, s: &'s str) {
    let i = || (op.at(1).num() as usize).min(a.len());
    match op.at(0).str() {
        "parse" => {
            if let Ok(b) = Attributes::try_from(s) {
                *a = b;
            }
        }
        "push" => a.push(parse::elem(op.at(1))),
        "insert" => {
            let i = i();
            a.insert(i, parse::elem(op.at(2)))
        }
        "remove" => {
            if (op.at(1).num() as usize) < a.len() {
                a.remove(op.at(1).num() as usize);
            }
        }
        "pop" => {
            a.pop();
        }
        "extend" => {
            let b = parse::attrs(op.at(1));
            a.extend(b);
        }
        "collect" => *a = op.at(1).arr().iter().map(parse::elem).collect(),
        "vec" => *a = Attributes::from(op.at(1).arr().iter().map(parse::elem).collect::<Vec<_>>()),
        "set" => {
            let n = op.at(1).num() as usize;
            let v = op.at(2).text();
            for (j, (_, w)) in (&mut *a).into_iter().enumerate() {
                if j == n {
                    *w = v.clone().into();
                }
            }
        }
        "clone" => *a = a.clone(),
        "clear" => a.clear(),
        "rev" => a.reverse(),
        "into" => {
            let v: Vec<_> = std::mem::take(a).into_iter().collect();
            *a = v.into_iter().collect();
        }
        "unvec" => {
            let v: Vec<_> = std::mem::take(a).into();
            *a = Attributes::from(v);
        }
        t => panic!("op {t}"),
    }
}

fn text(j: &J) -> String {
    match j {
        J::Num(n) => n.to_string(),
        J::Str(s) => format!("\"{s}\""),
        J::Bool(b) => b.to_string(),
        J::Arr(a) => format!("[{}]", a.iter().map(text).collect::<Vec<_>>().join(",")),
        J::Obj(_) => "{}".to_string(),
    }
}
