//! Minimal JSON writing and reading of the observation files.
use jotdown::*;

pub fn bytes(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, c) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&c.to_string());
    }
    out.push(']');
}

pub fn string(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            ' '..='~' => out.push(c),
            _ => out.push('?'),
        }
    }
    out.push('"');
}

/// The raw text of a value, as shown by the debug form of a set.
pub fn value_raw(v: &AttributeValue) -> String {
    let key = AttributeKind::Pair { key: "k".into() };
    let d = format!("{:?}", Attributes::from(vec![(key, v.clone())]));
    match d.strip_prefix("{k=\"").and_then(|d| d.strip_suffix("\"}")) {
        Some(raw) => raw.to_string(),
        None => v.to_string(),
    }
}

pub fn attrs(out: &mut String, a: &Attributes) {
    out.push('[');
    for (i, (k, v)) in a.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let (t, key) = match k {
            AttributeKind::Class => ("c", ""),
            AttributeKind::Id => ("i", ""),
            AttributeKind::Pair { key } => ("p", &**key),
            AttributeKind::Comment => ("x", ""),
        };
        out.push_str(&format!("[\"{t}\","));
        bytes(out, key.as_bytes());
        out.push(',');
        bytes(out, value_raw(v).as_bytes());
        out.push(']');
    }
    out.push(']');
}

fn tagged(out: &mut String, tag: &str, s: &str) {
    out.push_str(&format!("[\"{tag}\","));
    bytes(out, s.as_bytes());
    out.push(']');
}

pub fn container(out: &mut String, c: &Container) {
    use Container::*;
    match c {
        Document => out.push_str("[\"doc\"]"),
        Blockquote => out.push_str("[\"quote\"]"),
        List { kind, tight } => match kind {
            ListKind::Unordered(b) => {
                out.push_str(&format!("[\"list\",\"u\",{},{tight}]", bullet(*b)))
            }
            ListKind::Task(b) => out.push_str(&format!("[\"list\",\"t\",{},{tight}]", bullet(*b))),
            ListKind::Ordered {
                numbering,
                style,
                start,
            } => {
                let n = match numbering {
                    OrderedListNumbering::Decimal => "dec",
                    OrderedListNumbering::AlphaLower => "al",
                    OrderedListNumbering::AlphaUpper => "au",
                    OrderedListNumbering::RomanLower => "rl",
                    OrderedListNumbering::RomanUpper => "ru",
                };
                let s = match style {
                    OrderedListStyle::Period => ".",
                    OrderedListStyle::Paren => "p",
                    OrderedListStyle::ParenParen => "pp",
                };
                out.push_str(&format!("[\"list\",\"o\",\"{n}\","));
                bytes(out, start.to_string().as_bytes());
                out.push_str(&format!(",\"{s}\",{tight}]"));
            }
        },
        ListItem => out.push_str("[\"li\"]"),
        TaskListItem { checked } => out.push_str(&format!("[\"task\",{checked}]")),
        DescriptionList => out.push_str("[\"dl\"]"),
        DescriptionDetails => out.push_str("[\"dd\"]"),
        Footnote { label } => tagged(out, "fn", label),
        Table => out.push_str("[\"table\"]"),
        TableRow { head } => out.push_str(&format!("[\"row\",{head}]")),
        Section { id } => tagged(out, "section", id),
        Div { class } => tagged(out, "div", class),
        Paragraph => out.push_str("[\"para\"]"),
        Heading {
            level,
            has_section,
            id,
        } => {
            out.push_str(&format!("[\"head\",{level},{has_section},"));
            bytes(out, id.as_bytes());
            out.push(']');
        }
        TableCell { alignment, head } => {
            let a = match alignment {
                Alignment::Unspecified => "n",
                Alignment::Left => "l",
                Alignment::Center => "c",
                Alignment::Right => "r",
            };
            out.push_str(&format!("[\"cell\",\"{a}\",{head}]"));
        }
        Caption => out.push_str("[\"caption\"]"),
        DescriptionTerm => out.push_str("[\"dt\"]"),
        LinkDefinition { label } => tagged(out, "linkdef", label),
        RawBlock { format } => tagged(out, "rawb", format),
        CodeBlock { language } => tagged(out, "code", language),
        Span => out.push_str("[\"span\"]"),
        Link(dst, ty) => {
            out.push_str("[\"link\",");
            bytes(out, dst.as_bytes());
            out.push_str(match ty {
                LinkType::Span(SpanLinkType::Inline) => ",\"inline\"]",
                LinkType::Span(SpanLinkType::Reference) => ",\"ref\"]",
                LinkType::Span(SpanLinkType::Unresolved) => ",\"unres\"]",
                LinkType::AutoLink => ",\"auto\"]",
                LinkType::Email => ",\"email\"]",
            });
        }
        Image(dst, ty) => {
            out.push_str("[\"img\",");
            bytes(out, dst.as_bytes());
            out.push_str(match ty {
                SpanLinkType::Inline => ",\"inline\"]",
                SpanLinkType::Reference => ",\"ref\"]",
                SpanLinkType::Unresolved => ",\"unres\"]",
            });
        }
        Verbatim => out.push_str("[\"verb\"]"),
        Math { display: false } => out.push_str("[\"imath\"]"),
        Math { display: true } => out.push_str("[\"dmath\"]"),
        RawInline { format } => tagged(out, "rawi", format),
        Subscript => out.push_str("[\"sub\"]"),
        Superscript => out.push_str("[\"sup\"]"),
        Insert => out.push_str("[\"ins\"]"),
        Delete => out.push_str("[\"del\"]"),
        Strong => out.push_str("[\"strong\"]"),
        Emphasis => out.push_str("[\"em\"]"),
        Mark => out.push_str("[\"mark\"]"),
    }
}

fn bullet(b: ListBulletType) -> u8 {
    match b {
        ListBulletType::Dash => b'-',
        ListBulletType::Star => b'*',
        ListBulletType::Plus => b'+',
    }
}

pub fn event(out: &mut String, e: &Event, r: &std::ops::Range<usize>) {
    let mut none = |t: &str| out.push_str(&format!("[\"{t}\",[],[],"));
    match e {
        Event::Start(c, a) => {
            out.push_str("[\"S\",");
            container(out, c);
            out.push(',');
            attrs(out, a);
            out.push(',');
        }
        Event::End(c) => {
            out.push_str("[\"E\",");
            container(out, c);
            out.push_str(",[],");
        }
        Event::Str(s) | Event::FootnoteReference(s) | Event::Symbol(s) => {
            out.push_str(match e {
                Event::Str(..) => "[\"str\",[",
                Event::Symbol(..) => "[\"sym\",[",
                _ => "[\"fnref\",[",
            });
            bytes(out, s.as_bytes());
            out.push_str("],[],");
        }
        Event::LeftSingleQuote => none("lsq"),
        Event::RightSingleQuote => none("rsq"),
        Event::LeftDoubleQuote => none("ldq"),
        Event::RightDoubleQuote => none("rdq"),
        Event::Ellipsis => none("ell"),
        Event::EnDash => none("end"),
        Event::EmDash => none("emd"),
        Event::NonBreakingSpace => none("nbsp"),
        Event::Softbreak => none("sb"),
        Event::Hardbreak => none("hb"),
        Event::Escape => none("esc"),
        Event::Blankline => none("bl"),
        Event::ThematicBreak(a) => {
            out.push_str("[\"tb\",[],");
            attrs(out, a);
            out.push(',');
        }
        Event::Attributes(a) => {
            out.push_str("[\"att\",[],");
            attrs(out, a);
            out.push(',');
        }
    }
    out.push_str(&format!("{},{}]", r.start, r.end));
}
