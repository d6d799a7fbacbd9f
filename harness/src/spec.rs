//! The boring reference model: RFC 5545 as far as the properties need it, written without looking
//! at how the library does it.
use crate::engine::*;
use std::collections::{BTreeMap, HashMap, VecDeque};

// ------------------------------------------------------------------ text

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            ',' => o.push_str("\\,"),
            ';' => o.push_str("\\;"),
            '\n' => o.push_str("\\N"),
            c => o.push(c),
        }
    }
    o
}
/// escapes are compared with both spellings of a line feed allowed
pub fn norm_nl_escape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        o.push(c);
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('N'),
                Some(d) => o.push(d),
                None => {}
            }
        }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            let d = match c[i + 1] {
                '\\' => Some('\\'),
                ',' => Some(','),
                ';' => Some(';'),
                ':' => Some(':'),
                'n' | 'N' => Some('\n'),
                _ => None,
            };
            if let Some(d) = d {
                o.push(d);
                i += 2;
                continue;
            }
        }
        o.push(c[i]);
        i += 1;
    }
    o
}

// ------------------------------------------------------------------ framing

/// checks the framing of serialized output and gives the logical lines
pub fn logical(out: &str) -> Result<Vec<String>, Fail> {
    let bad = |w: &str| -> Result<Vec<String>, Fail> { fail(w, format!("output: {:?}", clip(out))) };
    if out.is_empty() {
        return Ok(vec![]);
    }
    let Some(body) = out.strip_suffix("\r\n") else {
        return bad("output does not end in CRLF");
    };
    let mut lines: Vec<String> = vec![];
    let mut folded: Vec<bool> = vec![];
    for l in body.split("\r\n") {
        if l.is_empty() {
            return bad("empty line in output");
        }
        if l.len() > 75 {
            return fail("line of more than 75 octets", format!("line of {} octets: {l:?}\noutput: {:?}", l.len(), clip(out)));
        }
        if l.contains('\n') {
            return bad("bare line feed in output");
        }
        // (the str type guarantees UTF-8, and splitting at CRLF keeps it per line)
        if let Some(r) = l.strip_prefix(' ') {
            match lines.last_mut() {
                Some(x) => {
                    x.push_str(r);
                    *folded.last_mut().unwrap() = true
                }
                None => return bad("continuation line first"),
            }
        } else {
            lines.push(l.to_string());
            folded.push(false);
        }
    }
    for (l, f) in lines.iter().zip(folded) {
        if f && l.len() <= 75 {
            return fail("line of at most 75 octets was folded", format!("{l:?}\noutput: {:?}", clip(out)));
        }
    }
    Ok(lines)
}
pub fn clip(s: &str) -> String {
    if s.len() <= 3000 {
        return s.to_string();
    }
    let mut a = 1500;
    while !s.is_char_boundary(a) {
        a -= 1
    }
    let mut b = s.len() - 1000;
    while !s.is_char_boundary(b) {
        b += 1
    }
    format!("{}[…{} bytes…]{}", &s[..a], b - a, &s[b..])
}

/// reference unfolding: line breaks followed by a space or a tab vanish with it
pub fn unfold_ref(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        let ws = |k: usize| matches!(b.get(k), Some(' ' | '\t'));
        if b[i] == '\r' && b.get(i + 1) == Some(&'\n') && ws(i + 2) {
            i += 3;
        } else if b[i] == '\n' && ws(i + 1) {
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

// ------------------------------------------------------------------ content lines

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Line {
    pub name: String,
    /// in order; the value without quotes
    pub params: Vec<(String, String)>,
    pub raw: String,
}
/// reads a content line the library has written (strict)
pub fn read_line(l: &str) -> Result<Line, Fail> {
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    let take = |i: &mut usize, stop: &dyn Fn(char) -> bool| {
        let a = *i;
        while *i < c.len() && !stop(c[*i]) {
            *i += 1
        }
        c[a..*i].iter().collect::<String>()
    };
    let name = take(&mut i, &|x| x == ':' || x == ';');
    let mut params = vec![];
    while i < c.len() && c[i] == ';' {
        i += 1;
        let key = take(&mut i, &|x| x == '=' || x == ':' || x == ';');
        if i >= c.len() || c[i] != '=' {
            return fail("parameter without '=' in output", format!("{l:?}"));
        }
        i += 1;
        let val = if c.get(i) == Some(&'"') {
            i += 1;
            let v = take(&mut i, &|x| x == '"');
            if c.get(i) != Some(&'"') {
                return fail("unterminated quoted parameter value in output", format!("{l:?}"));
            }
            i += 1;
            v
        } else {
            take(&mut i, &|x| x == ':' || x == ';')
        };
        params.push((key, val));
    }
    if c.get(i) != Some(&':') {
        return fail("content line without ':' in output", format!("{l:?}"));
    }
    i += 1;
    Ok(Line { name, params, raw: c[i..].iter().collect() })
}
/// the parameter text of a written line (from the first ; to the value's colon), as (key, spelled value)
pub fn param_spellings(l: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let c: Vec<char> = l.chars().collect();
    let mut i = c.iter().position(|x| *x == ';' || *x == ':').unwrap_or(c.len());
    while i < c.len() && c[i] == ';' {
        i += 1;
        let a = i;
        while i < c.len() && c[i] != '=' {
            i += 1
        }
        let key: String = c[a..i.min(c.len())].iter().collect();
        i += 1;
        let a = i;
        let mut q = false;
        while i < c.len() && (q || (c[i] != ';' && c[i] != ':')) {
            if c[i] == '"' {
                q = !q
            }
            i += 1
        }
        out.push((key, c[a.min(c.len())..i.min(c.len())].iter().collect()));
    }
    out
}

// ------------------------------------------------------------------ value types

pub const TEXT_NAMES: &[&str] = &[
    "CALSCALE", "METHOD", "PRODID", "VERSION", "CATEGORIES", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION",
    "RESOURCES", "STATUS", "SUMMARY", "TRANSP", "TZID", "TZNAME", "CONTACT", "RELATED-TO", "UID", "ACTION",
    "REQUEST-STATUS", "NAME", "X-WR-CALNAME", "X-WR-CALDESC", "TIMEZONE-ID", "X-WR-TIMEZONE", "STREET-ADDRESS",
    "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE",
];
/// RFC 5545 default types of the other property names
pub const OTHER_TYPES: &[(&str, &str)] = &[
    ("ATTACH", "URI"),
    ("GEO", "FLOAT"),
    ("PERCENT-COMPLETE", "INTEGER"),
    ("PRIORITY", "INTEGER"),
    ("COMPLETED", "DATE-TIME"),
    ("DTEND", "DATE-TIME"),
    ("DUE", "DATE-TIME"),
    ("DTSTART", "DATE-TIME"),
    ("DURATION", "DURATION"),
    ("FREEBUSY", "PERIOD"),
    ("TZOFFSETFROM", "UTC-OFFSET"),
    ("TZOFFSETTO", "UTC-OFFSET"),
    ("TZURL", "URI"),
    ("ATTENDEE", "CAL-ADDRESS"),
    ("ORGANIZER", "CAL-ADDRESS"),
    ("RECURRENCE-ID", "DATE-TIME"),
    ("URL", "URI"),
    ("EXDATE", "DATE-TIME"),
    ("RDATE", "DATE-TIME"),
    ("RRULE", "RECUR"),
    ("REPEAT", "INTEGER"),
    ("TRIGGER", "DURATION"),
    ("CREATED", "DATE-TIME"),
    ("DTSTAMP", "DATE-TIME"),
    ("LAST-MODIFIED", "DATE-TIME"),
    ("SEQUENCE", "INTEGER"),
];
pub const TYPE_NAMES: &[&str] = &[
    "BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR",
    "TEXT", "TIME", "URI", "UTC-OFFSET",
];
pub fn type_of(name: &str, value_param: Option<&str>) -> Option<&'static str> {
    if let Some(v) = value_param {
        if let Some(t) = TYPE_NAMES.iter().find(|t| **t == v) {
            return Some(t);
        }
    }
    if TEXT_NAMES.contains(&name) {
        return Some("TEXT");
    }
    OTHER_TYPES.iter().find(|(n, _)| *n == name).map(|(_, t)| *t)
}
pub fn vt_name(t: icalendar::ValueType) -> &'static str {
    use icalendar::ValueType::*;
    match t {
        Binary => "BINARY",
        Boolean => "BOOLEAN",
        CalAddress => "CAL-ADDRESS",
        Date => "DATE",
        DateTime => "DATE-TIME",
        Duration => "DURATION",
        Float => "FLOAT",
        Integer => "INTEGER",
        Period => "PERIOD",
        Recur => "RECUR",
        Text => "TEXT",
        Time => "TIME",
        Uri => "URI",
        UtcOffset => "UTC-OFFSET",
    }
}
pub fn vt_all() -> Vec<icalendar::ValueType> {
    use icalendar::ValueType::*;
    vec![
        Binary, Boolean, CalAddress, Date, DateTime, Duration, Float, Integer, Period, Recur, Text, Time, Uri,
        UtcOffset,
    ]
}

/// names RFC 5545 allows to occur more than once in one component
pub const MULTI: &[&str] = &[
    "ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "FREEBUSY", "RDATE", "RELATED-TO",
    "REQUEST-STATUS", "RESOURCES",
];
// ------------------------------------------------------------------ parsed trees

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TProp {
    pub name: String,
    pub params: Vec<(String, Option<String>)>,
    pub val: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tree {
    pub name: String,
    pub props: Vec<TProp>,
    pub kids: Vec<Tree>,
}
pub fn tprop(p: &icalendar::parser::Property) -> TProp {
    TProp {
        name: p.name.as_str().into(),
        params: p
            .params
            .iter()
            .map(|q| (q.key.as_str().to_string(), q.val.as_ref().map(|v| v.as_str().to_string())))
            .collect(),
        val: p.val.as_str().into(),
    }
}
pub fn tree(c: &icalendar::parser::Component) -> Tree {
    Tree {
        name: c.name.as_str().into(),
        props: c.properties.iter().map(tprop).collect(),
        kids: c.components.iter().map(tree).collect(),
    }
}
pub fn tree_of_cal(c: &icalendar::parser::Calendar) -> Tree {
    Tree {
        name: "VCALENDAR".into(),
        props: c.properties.iter().map(tprop).collect(),
        kids: c.components.iter().map(tree).collect(),
    }
}

// ------------------------------------------------------------------ typed components

/// a property as the typed side presents it
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct MProp {
    pub key: String,
    pub val: String,
    pub params: BTreeMap<String, String>,
}
impl MProp {
    pub fn new(key: &str, val: &str) -> MProp {
        MProp { key: key.into(), val: val.into(), params: BTreeMap::new() }
    }
    pub fn with(mut self, k: &str, v: &str) -> MProp {
        self.params.insert(k.into(), v.into());
        self
    }
    pub fn build(&self) -> icalendar::Property {
        let mut p = icalendar::Property::new(self.key.as_str(), self.val.as_str());
        for (k, v) in &self.params {
            p.add_parameter(k, v);
        }
        p.done()
    }
    pub fn value_type(&self) -> Option<&'static str> {
        type_of(&self.key, self.params.get("VALUE").map(|s| s.as_str()))
    }
    /// value text as it has to be written
    pub fn written(&self) -> String {
        if self.value_type() == Some("TEXT") {
            esc(&self.val)
        } else {
            self.val.clone()
        }
    }
}
pub fn mprop(p: &icalendar::Property) -> MProp {
    MProp {
        key: p.key().into(),
        val: p.value().into(),
        // (a parameter stands under its own name)
        params: p
            .params()
            .iter()
            .map(|(k, v)| (if k == v.key() { k.clone() } else { format!("{:?} under {k:?}", v.key()) }, v.value().to_string()))
            .collect(),
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MComp {
    pub kind: String,
    pub props: BTreeMap<String, MProp>,
    pub multi: BTreeMap<String, Vec<MProp>>,
    pub kids: Vec<MComp>,
}
impl MComp {
    pub fn new(kind: &str) -> MComp {
        MComp { kind: kind.into(), ..Default::default() }
    }
    pub fn set(&mut self, p: MProp) {
        self.props.insert(p.key.clone(), p);
    }
    pub fn add_multi(&mut self, p: MProp) {
        self.multi.entry(p.key.clone()).or_default().push(p);
    }
}
/// what the accessors of a component show
pub fn mcomp<C: icalendar::Component>(c: &C) -> MComp {
    let mut m = MComp::new(&c.component_kind());
    for (k, p) in c.properties() {
        let mut q = mprop(p);
        if *k != q.key {
            q.key = format!("{k}!={}", q.key); // an index that disagrees with the property
        }
        m.props.insert(k.clone(), q);
    }
    for (k, ps) in c.multi_properties() {
        m.multi.insert(k.clone(), ps.iter().map(mprop).collect());
    }
    m.kids = c.components().iter().map(mcomp).collect();
    m
}
pub fn mcomp_cc(c: &icalendar::CalendarComponent) -> (&'static str, MComp) {
    use icalendar::CalendarComponent::*;
    match c {
        Todo(x) => ("Todo", mcomp(x)),
        Event(x) => ("Event", mcomp(x)),
        Venue(x) => ("Venue", mcomp(x)),
        Other(x) => ("Other", mcomp(x)),
        _ => ("?", MComp::default()),
    }
}
pub fn variant_of(kind: &str) -> &'static str {
    match kind {
        "VEVENT" => "Event",
        "VTODO" => "Todo",
        "VVENUE" => "Venue",
        _ => "Other",
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MCal {
    pub props: Vec<MProp>,
    pub comps: Vec<MComp>,
}
pub fn mcal(c: &icalendar::Calendar) -> Result<MCal, Fail> {
    let mut m = MCal { props: c.properties.iter().map(mprop).collect(), comps: vec![] };
    for x in &c.components {
        let (v, k) = mcomp_cc(x);
        if v != variant_of(&k.kind) {
            return fail("component of the wrong variant", format!("{v} for kind {}", k.kind));
        }
        m.comps.push(k);
    }
    Ok(m)
}
pub fn default_props() -> Vec<MProp> {
    vec![MProp::new("VERSION", "2.0"), MProp::new("PRODID", "ICALENDAR-RS"), MProp::new("CALSCALE", "GREGORIAN")]
}

/// raw to typed: what a typed component has to contain after reading a tree
pub fn typed(t: &Tree) -> MComp {
    let mut m = MComp::new(&t.name);
    for p in &t.props {
        let q = typed_prop(p);
        if MULTI.contains(&p.name.as_str()) {
            m.add_multi(q)
        } else {
            m.set(q)
        }
    }
    m.kids = t.kids.iter().map(typed).collect();
    m
}
pub fn typed_prop(p: &TProp) -> MProp {
    let mut q = MProp::new(&p.name, &p.val);
    for (k, v) in &p.params {
        q.params.insert(k.clone(), v.clone().unwrap_or_default());
    }
    q
}

// ------------------------------------------------------------------ what serialization has to emit

/// one block of the expected output
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WComp {
    pub name: String,
    pub lines: Vec<(Line, Vec<(String, String)>)>,
    pub kids: Vec<WComp>,
    /// true if a property line stands after a child
    pub mixed: bool,
}
/// groups the logical lines of serialized output by component
pub fn group(lines: &[String]) -> Result<Vec<WComp>, Fail> {
    let mut stack: Vec<WComp> = vec![];
    let mut roots = vec![];
    for l in lines {
        if let Some(n) = l.strip_prefix("BEGIN:") {
            stack.push(WComp { name: n.into(), lines: vec![], kids: vec![], mixed: false });
        } else if let Some(n) = l.strip_prefix("END:") {
            match stack.pop() {
                Some(c) if c.name == n => match stack.last_mut() {
                    Some(p) => p.kids.push(c),
                    None => roots.push(c),
                },
                _ => return fail("BEGIN and END do not match in output", format!("{lines:?}")),
            }
        } else {
            match stack.last_mut() {
                Some(c) => {
                    c.mixed |= !c.kids.is_empty();
                    c.lines.push((read_line(l)?, param_spellings(l)));
                }
                None => return fail("content line outside of a component in output", format!("{l:?} in {lines:?}")),
            }
        }
    }
    if !stack.is_empty() {
        return fail("missing END in output", format!("{lines:?}"));
    }
    Ok(roots)
}
pub fn is_utc_stamp(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 16
        && b[8] == b'T'
        && b[15] == b'Z'
        && b.iter().enumerate().all(|(i, c)| i == 8 || i == 15 || c.is_ascii_digit())
}
pub fn is_uuid4(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 36
        && b.iter().enumerate().all(|(i, c)| match i {
            8 | 13 | 18 | 23 => *c == b'-',
            14 => *c == b'4',
            19 => matches!(c, b'8' | b'9' | b'a' | b'b'),
            _ => matches!(c, b'0'..=b'9' | b'a'..=b'f'),
        })
}
fn line_is(p: &MProp, l: &Line) -> bool {
    let mut ps: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in &l.params {
        if ps.insert(k.clone(), v.clone()).is_some() {
            return false;
        }
    }
    p.key == l.name
        && ps == p.params
        && if p.value_type() == Some("TEXT") {
            norm_nl_escape(&p.written()) == norm_nl_escape(&l.raw)
        } else {
            p.written() == l.raw
        }
}
fn quoting_ok(sp: &[(String, String)]) -> bool {
    sp.iter().all(|(_, v)| {
        let inner = v.strip_prefix('"').and_then(|x| x.strip_suffix('"'));
        match inner {
            Some(i) => i.contains([':', ';']),
            None => !v.contains([':', ';', '"']),
        }
    })
}
/// compares a written component with the model; DTSTAMP/UID may be generated where absent.
/// Pushes generated (DTSTAMP, UID) values to `gen`.
pub fn check_written(m: &MComp, w: &WComp, gen: &mut Vec<(String, String)>) -> R {
    let bad = |what: &str, d: String| -> R { fail(what, format!("{d}\nmodel: {}\nwritten: {}", clip(&format!("{m:?}")), clip(&format!("{w:?}")))) };
    if m.kind != w.name {
        return bad("wrong component name written", String::new());
    }
    if w.mixed {
        return bad("property written after a child component", String::new());
    }
    let mut used = vec![false; w.lines.len()];
    // the lines of each name: those still to be looked at
    let mut named: HashMap<&str, VecDeque<usize>> = HashMap::new();
    for (i, (l, _)) in w.lines.iter().enumerate() {
        named.entry(l.name.as_str()).or_default().push_back(i);
    }
    let mut take = |p: &MProp| -> Option<usize> {
        let list = named.get_mut(p.key.as_str())?;
        let at = list.iter().position(|i| line_is(p, &w.lines[*i].0))?;
        list.remove(at)
    };
    for p in m.props.values() {
        match take(p) {
            Some(i) => used[i] = true,
            None => return bad("property not written as expected", format!("{p:?}")),
        }
    }
    for ps in m.multi.values() {
        let mut last = None;
        for p in ps {
            match take(p) {
                Some(i) => {
                    used[i] = true;
                    if last > Some(i) {
                        return bad("repeated properties written out of order", format!("{p:?}"));
                    }
                    last = Some(i)
                }
                None => return bad("repeated property not written as expected", format!("{p:?}")),
            }
        }
    }
    let mut g = (String::new(), String::new());
    for (name, slot, ok) in [
        ("DTSTAMP", &mut g.0, is_utc_stamp as fn(&str) -> bool),
        ("UID", &mut g.1, is_uuid4 as fn(&str) -> bool),
    ] {
        if !m.props.contains_key(name) {
            let hits: Vec<usize> =
                (0..w.lines.len()).filter(|i| !used[*i] && w.lines[*i].0.name == name).collect();
            if hits.len() != 1 {
                return bad("generated property missing or repeated", format!("{name}: {}", hits.len()));
            }
            let l = &w.lines[hits[0]].0;
            if !l.params.is_empty() || !ok(&l.raw) {
                return bad("malformed generated property", format!("{l:?}"));
            }
            used[hits[0]] = true;
            *slot = l.raw.clone();
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return bad("unexpected line written", format!("{:?}", w.lines[i].0));
    }
    for (l, sp) in &w.lines {
        if !quoting_ok(sp) {
            return bad("parameter quoting", format!("{l:?} {sp:?}"));
        }
    }
    gen.push(g);
    if m.kids.len() != w.kids.len() {
        return bad("wrong number of child components written", String::new());
    }
    for (a, b) in m.kids.iter().zip(&w.kids) {
        check_written(a, b, gen)?;
    }
    Ok(())
}
/// compares the complete output of a calendar with the model
pub fn check_written_cal(m: &MCal, out: &str, gen: &mut Vec<(String, String)>) -> R {
    let lines = logical(out)?;
    let roots = group(&lines)?;
    ensure!(
        roots.len() == 1 && roots[0].name == "VCALENDAR",
        "output is not one VCALENDAR",
        format!("{:?}", clip(out))
    );
    let w = &roots[0];
    ensure!(!w.mixed, "calendar property after a component", clip(out));
    ensure!(
        w.lines.len() == m.props.len() && m.props.iter().zip(&w.lines).all(|(p, (l, sp))| line_is(p, l) && quoting_ok(sp)),
        "calendar properties not written as expected",
        format!("model: {}\nwritten: {}", clip(&format!("{:?}", m.props)), clip(&format!("{:?}", w.lines)))
    );
    ensure!(
        w.kids.len() == m.comps.len(),
        "wrong number of components written",
        format!("model: {}\nwritten: {}", clip(&format!("{m:?}")), clip(&format!("{w:?}")))
    );
    for (a, b) in m.comps.iter().zip(&w.kids) {
        check_written(a, b, gen)?;
    }
    Ok(())
}
pub fn check_written_comp(m: &MComp, out: &str, gen: &mut Vec<(String, String)>) -> R {
    let lines = logical(out)?;
    let roots = group(&lines)?;
    ensure!(roots.len() == 1, "output is not one component", format!("{:?}", clip(out)));
    check_written(m, &roots[0], gen)
}
/// the model with the generated properties filled in (preorder)
pub fn with_generated(m: &MComp, gen: &mut std::slice::Iter<(String, String)>) -> MComp {
    let mut r = m.clone();
    let (stamp, uid) = gen.next().cloned().unwrap_or_default();
    if !r.props.contains_key("DTSTAMP") {
        r.set(MProp::new("DTSTAMP", &stamp));
    }
    if !r.props.contains_key("UID") {
        r.set(MProp::new("UID", &uid));
    }
    r.kids = m.kids.iter().map(|k| with_generated(k, gen)).collect();
    r
}
