//! Reading of JSON, and of events in the encoding of `json`.
use jotdown::*;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Num(i64),
    Str(String),
    Bool(bool),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn read(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        value(b, &mut p)
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn at(&self, i: usize) -> &J {
        self.arr().get(i).unwrap_or(&J::Num(0))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => 0,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    /// Text given as an array of bytes.
    pub fn text(&self) -> String {
        let b: Vec<u8> = self.arr().iter().map(|n| n.num() as u8).collect();
        String::from_utf8_lossy(&b).into_owned()
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                match b[*p] {
                    b']' => break,
                    b',' => *p += 1,
                    _ => v.push(value(b, p)),
                }
            }
            *p += 1;
            J::Arr(v)
        }
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                match b[*p] {
                    b'}' => break,
                    b',' => *p += 1,
                    _ => {
                        let J::Str(k) = value(b, p) else {
                            panic!("key")
                        };
                        ws(b, p);
                        *p += 1;
                        v.push((k, value(b, p)));
                    }
                }
            }
            *p += 1;
            J::Obj(v)
        }
        b'"' => {
            *p += 1;
            let mut v = Vec::new();
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    v.push(match b[*p] {
                        b'n' => b'\n',
                        b't' => b'\t',
                        c => c,
                    });
                } else {
                    v.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::Str(String::from_utf8(v).unwrap())
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::Num(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap())
        }
    }
}

pub fn elem(j: &J) -> (AttributeKind<'static>, AttributeValue<'static>) {
    let kind = match j.at(0).str() {
        "c" => AttributeKind::Class,
        "i" => AttributeKind::Id,
        "p" => AttributeKind::Pair {
            key: j.at(1).text().into(),
        },
        _ => AttributeKind::Comment,
    };
    (kind, j.at(2).text().into())
}

pub fn attrs(j: &J) -> Attributes<'static> {
    j.arr().iter().map(elem).collect()
}

fn bullet(j: &J) -> ListBulletType {
    match j.num() as u8 {
        b'-' => ListBulletType::Dash,
        b'*' => ListBulletType::Star,
        _ => ListBulletType::Plus,
    }
}

fn container(j: &J) -> Container<'static> {
    use Container::*;
    let text = |i: usize| j.at(i).text().into();
    match j.at(0).str() {
        "doc" => Document,
        "quote" => Blockquote,
        "list" => match j.at(1).str() {
            "u" => List {
                kind: ListKind::Unordered(bullet(j.at(2))),
                tight: j.at(3).bool(),
            },
            "t" => List {
                kind: ListKind::Task(bullet(j.at(2))),
                tight: j.at(3).bool(),
            },
            _ => List {
                kind: ListKind::Ordered {
                    numbering: match j.at(2).str() {
                        "dec" => OrderedListNumbering::Decimal,
                        "al" => OrderedListNumbering::AlphaLower,
                        "au" => OrderedListNumbering::AlphaUpper,
                        "rl" => OrderedListNumbering::RomanLower,
                        _ => OrderedListNumbering::RomanUpper,
                    },
                    start: j.at(3).text().parse().unwrap(),
                    style: match j.at(4).str() {
                        "." => OrderedListStyle::Period,
                        "p" => OrderedListStyle::Paren,
                        _ => OrderedListStyle::ParenParen,
                    },
                },
                tight: j.at(5).bool(),
            },
        },
        "li" => ListItem,
        "task" => TaskListItem {
            checked: j.at(1).bool(),
        },
        "dl" => DescriptionList,
        "dd" => DescriptionDetails,
        "fn" => Footnote { label: text(1) },
        "table" => Table,
        "row" => TableRow {
            head: j.at(1).bool(),
        },
        "section" => Section { id: text(1) },
        "div" => Div { class: text(1) },
        "para" => Paragraph,
        "head" => Heading {
            level: j.at(1).num() as u16,
            has_section: j.at(2).bool(),
            id: text(3),
        },
        "cell" => TableCell {
            alignment: match j.at(1).str() {
                "l" => Alignment::Left,
                "c" => Alignment::Center,
                "r" => Alignment::Right,
                _ => Alignment::Unspecified,
            },
            head: j.at(2).bool(),
        },
        "caption" => Caption,
        "dt" => DescriptionTerm,
        "linkdef" => LinkDefinition { label: text(1) },
        "rawb" => RawBlock { format: text(1) },
        "code" => CodeBlock { language: text(1) },
        "span" => Span,
        "link" => Link(
            text(1),
            match j.at(2).str() {
                "inline" => LinkType::Span(SpanLinkType::Inline),
                "ref" => LinkType::Span(SpanLinkType::Reference),
                "unres" => LinkType::Span(SpanLinkType::Unresolved),
                "auto" => LinkType::AutoLink,
                _ => LinkType::Email,
            },
        ),
        "img" => Image(
            text(1),
            match j.at(2).str() {
                "inline" => SpanLinkType::Inline,
                "ref" => SpanLinkType::Reference,
                _ => SpanLinkType::Unresolved,
            },
        ),
        "verb" => Verbatim,
        "imath" => Math { display: false },
        "dmath" => Math { display: true },
        "rawi" => RawInline { format: text(1) },
        "sub" => Subscript,
        "sup" => Superscript,
        "ins" => Insert,
        "del" => Delete,
        "strong" => Strong,
        "em" => Emphasis,
        "mark" => Mark,
        t => panic!("container {t}"),
    }
}

pub fn event(j: &J) -> Event<'static> {
    match j.at(0).str() {
        "S" => Event::Start(container(j.at(1)), attrs(j.at(2))),
        "E" => Event::End(container(j.at(1))),
        "str" => Event::Str(j.at(1).at(0).text().into()),
        "fnref" => Event::FootnoteReference(j.at(1).at(0).text().into()),
        "sym" => Event::Symbol(j.at(1).at(0).text().into()),
        "lsq" => Event::LeftSingleQuote,
        "rsq" => Event::RightSingleQuote,
        "ldq" => Event::LeftDoubleQuote,
        "rdq" => Event::RightDoubleQuote,
        "ell" => Event::Ellipsis,
        "end" => Event::EnDash,
        "emd" => Event::EmDash,
        "nbsp" => Event::NonBreakingSpace,
        "sb" => Event::Softbreak,
        "hb" => Event::Hardbreak,
        "esc" => Event::Escape,
        "bl" => Event::Blankline,
        "tb" => Event::ThematicBreak(attrs(j.at(2))),
        "att" => Event::Attributes(attrs(j.at(2))),
        t => panic!("event {t}"),
    }
}
