//! Enumeration of documents, trees and calendars, spelled by the reference model.
use super::*;

/// a document as a word: `Begin` of a name, a property line, or the END of what is open
#[derive(Clone)]
pub struct Alphabet {
    pub names: Vec<String>,
    pub props: Vec<(String, TProp)>,
}
impl Alphabet {
    pub fn new(names: &[&str], props: Vec<TProp>) -> Alphabet {
        Alphabet {
            names: names.iter().map(|s| s.to_string()).collect(),
            props: props.into_iter().map(|p| (spell_prop(&p), p)).collect(),
        }
    }
    /// all properly nested words of at most `max` lines with at least one component
    pub fn words(&self, max: usize) -> Vec<Vec<u8>> {
        fn go(a: &Alphabet, max: usize, depth: usize, w: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
            if depth == 0 && !w.is_empty() {
                out.push(w.clone());
            }
            let left = max - w.len();
            let (nb, np) = (a.names.len(), a.props.len());
            if left >= depth + 2 {
                for b in 0..nb {
                    w.push(b as u8);
                    go(a, max, depth + 1, w, out);
                    w.pop();
                }
            }
            if depth > 0 {
                if left > depth {
                    for p in 0..np {
                        w.push((nb + p) as u8);
                        go(a, max, depth, w, out);
                        w.pop();
                    }
                }
                w.push((nb + np) as u8);
                go(a, max, depth - 1, w, out);
                w.pop();
            }
        }
        let mut out = vec![];
        go(self, max, 0, &mut vec![], &mut out);
        out.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
        out
    }
    /// the logical lines and the trees a word spells
    pub fn render(&self, w: &[u8]) -> (Vec<String>, Vec<Tree>) {
        let mut lines = vec![];
        let mut stack: Vec<Tree> = vec![];
        let mut roots = vec![];
        for t in w {
            let t = *t as usize;
            if t < self.names.len() {
                lines.push(format!("BEGIN:{}", self.names[t]));
                stack.push(Tree { name: self.names[t].clone(), props: vec![], kids: vec![] });
            } else if let Some((l, p)) = self.props.get(t - self.names.len()) {
                lines.push(l.clone());
                stack.last_mut().unwrap().props.push(p.clone());
            } else {
                let c = stack.pop().unwrap();
                lines.push(format!("END:{}", c.name));
                match stack.last_mut() {
                    Some(p) => p.kids.push(c),
                    None => roots.push(c),
                }
            }
        }
        (lines, roots)
    }
}
/// joins lines; an empty `nl` stands for LF and CRLF mixed
pub fn join(lines: &[String], nl: &str) -> String {
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        s.push_str(l);
        s.push_str(if nl.is_empty() { ["\n", "\r\n"][(i + l.len()) % 2] } else { nl });
    }
    s
}
/// spells a property the way RFC 5545 has it
pub fn spell_prop(p: &TProp) -> String {
    let mut s = p.name.clone();
    let mut vt = None;
    for (k, v) in &p.params {
        s.push(';');
        s.push_str(k);
        if let Some(v) = v {
            s.push('=');
            if v.contains([':', ';', ',']) {
                s.push_str(&format!("\"{v}\""));
            } else {
                s.push_str(v);
            }
            if k == "VALUE" && vt.is_none() {
                vt = Some(v.as_str());
            }
        }
    }
    s.push(':');
    if type_of(&p.name, vt) == Some("TEXT") {
        s.push_str(&esc(&p.val))
    } else {
        s.push_str(&p.val)
    }
    s
}
pub fn tp(name: &str, params: &[(&str, Option<&str>)], val: &str) -> TProp {
    TProp {
        name: name.into(),
        params: params.iter().map(|(k, v)| (k.to_string(), v.map(|v| v.to_string()))).collect(),
        val: val.into(),
    }
}
/// spells a tree, properties first
pub fn spell_tree(t: &Tree, lines: &mut Vec<String>) {
    lines.push(format!("BEGIN:{}", t.name));
    for p in &t.props {
        lines.push(spell_prop(p));
    }
    for k in &t.kids {
        spell_tree(k, lines);
    }
    lines.push(format!("END:{}", t.name));
}

/// property names in use: of the standards and of vendors
pub const VOCABULARY: &[&str] = &[
    // RFC 7986, RFC 9073, RFC 9074, RFC 9253, RFC 7953, RFC 8536 era extensions
    "COLOR", "IMAGE", "SOURCE", "REFRESH-INTERVAL", "CONFERENCE", "CONCEPT", "LINK", "REFID", "STRUCTURED-DATA", "STYLED-DESCRIPTION", "PARTICIPANT-TYPE", "CALENDAR-ADDRESS", "LOCATION-TYPE",
    "RESOURCE-TYPE", "ACKNOWLEDGED", "PROXIMITY", "BUSYTYPE", "TZID-ALIAS-OF", "TZUNTIL", "ESTIMATED-DURATION", "REASON", "SUBSTATE", "TASK-MODE",
    // RFC 2445, vCalendar 1.0, iTIP, CAP
    "EXRULE", "AALARM", "DALARM", "MALARM", "PALARM", "RNUM", "DAYLIGHT", "TZ", "DCREATED", "CAP-VERSION", "CMD", "QUERY", "QUERYID", "TARGET", "CALID", "OWNER", "RELCALID", "MAXDATE", "MINDATE",
    "ITIP-VERSION", "MULTIPART", "SCOPE", "PERMISSION", "GRANT", "DENY", "CALMASTER", "CARID", "DECREED",
    // Apple
    "X-APPLE-STRUCTURED-LOCATION", "X-APPLE-STRUCTURED-DATA", "X-APPLE-TRAVEL-ADVISORY-BEHAVIOR", "X-APPLE-CALENDAR-COLOR", "X-APPLE-TRAVEL-DURATION", "X-APPLE-TRAVEL-START", "X-APPLE-DEFAULT-ALARM",
    "X-APPLE-CREATOR-IDENTITY", "X-APPLE-CREATOR-TEAM-IDENTITY", "X-APPLE-EWS-BUSYSTATUS", "X-APPLE-SORT-ORDER", "X-APPLE-NEEDS-REPLY", "X-APPLE-UNIVERSAL-ID", "X-APPLE-LOCAL-DEFAULT-ALARM", "X-APPLE-RELATED-ALARMS",
    "X-CALENDARSERVER-ACCESS", "X-CALENDARSERVER-PRIVATE-COMMENT", "X-CALENDARSERVER-ATTENDEE-COMMENT", "X-WR-ALARMUID", "X-WR-RELCALID", "X-WR-CALNAME2", "X-WR-TIMEZONE2", "X-WR-CAL", "X-WR-",
    // Microsoft
    "X-MICROSOFT-CDO-BUSYSTATUS", "X-MICROSOFT-CDO-IMPORTANCE", "X-MICROSOFT-CDO-ALLDAYEVENT", "X-MICROSOFT-CDO-INTENDEDSTATUS", "X-MICROSOFT-CDO-OWNERAPPTID", "X-MICROSOFT-CDO-INSTTYPE", "X-MICROSOFT-CDO-TZID",
    "X-MICROSOFT-CDO-OWNER-CRITICAL-CHANGE", "X-MICROSOFT-DISALLOW-COUNTER", "X-MICROSOFT-ISRESPONSEREQUESTED", "X-MICROSOFT-DONOTFORWARDMEETING", "X-MICROSOFT-LOCATIONS", "X-MICROSOFT-ONLINEMEETINGEXTERNALLINK",
    "X-MS-OLK-FORCEINSPECTOROPEN", "X-MS-OLK-CONFTYPE", "X-MS-OLK-AUTOFILLLOCATION", "X-MS-OLK-SENDER", "X-MS-OLK-WKHRSTART", "X-ALT-DESC", "X-PRIMARY-CALENDAR", "X-CALSTART", "X-CALEND", "X-CLIPSTART", "X-OWNER",
    "X-ENTOURAGE_UUID",
    // Google, Mozilla, Evolution, Lotus, Zimbra, KDE and others
    "X-GOOGLE-CONFERENCE", "X-GOOGLE-HANGOUT", "X-GOOGLE-CALENDAR-CONTENT-TITLE", "X-GOOGLE-EDITURL", "X-GWITEM-TYPE", "X-GWSHOW-AS", "X-MOZ-GENERATION", "X-MOZ-LASTACK", "X-MOZ-SNOOZE-TIME", "X-MOZ-SEND-INVITATIONS",
    "X-MOZ-FAKED-MASTER", "X-MOZ-LOCATIONPATH", "X-EVOLUTION-ALARM-UID", "X-EVOLUTION-CALDAV-HREF", "X-EVOLUTION-RECIPIENT", "X-LOTUS-UPDATE-SUBJECT", "X-LOTUS-NOTESVERSION", "X-LOTUS-CHILD_UID", "X-ZIMBRA-STATUS",
    "X-KDE-KCALCORE-ENABLED", "X-KORGANIZER-UID", "X-LIC-LOCATION", "X-LIC-ERROR", "X-OC-GROUP-ID", "X-YAHOO-YID", "X-RADICALE-NAME", "X-NEXTCLOUD-BC-FIELD-TYPE", "X-FACEBOOK", "X-SOGO-SEND-APPOINTMENT-NOTIFICATIONS",
    "X-FUNAMBOL-ALLDAY", "X-EPOCAGENDAENTRYTYPE", "X-TINE20-CONTAINER", "X-COST", "X-TITLE", "X-TAGS", "X-COMMENT", "X-ATTACH", "X-STATUS", "X-DESCRIPTION", "X-SUMMARY", "X-TEXT", "X-URL", "X-NAME", "X-LABEL",
    // placeholders and the like, but for the very names IANA-PROP and X-PROP
    "IANA-PROP2", "IANA-PROPS", "IANA-", "X-PROPS", "X-PROP1", "X-PROP-1", "X-PROPERTY", "XPROP", "IANAPROP", "NON-STANDARD", "X", "X-", "X--", "TEXT", "DATE", "VALUE", "TYPE", "PARAM",
];
/// property lines of all sorts, with what they mean
pub fn catalogue() -> Vec<TProp> {
    let mut v = vec![];
    for val in ["", "plain", "a:b", "a;b,c", "x=\"y\"", "BEGIN:VEVENT", "END:VEVENT", " lead", "trail ", "back\\slash", "\\n", "é😀\u{2028}"] {
        v.push(tp("X-RAW", &[], val));
        v.push(tp("SUMMARY", &[], val));
    }
    for val in ["two\nlines", "\n", "\\\n,;", "a\\,b", "\\\\n"] {
        v.push(tp("DESCRIPTION", &[], val));
        v.push(tp("X-T", &[("VALUE", Some("TEXT"))], val));
    }
    for val in ["a,b", "a\\;b"] {
        v.push(tp("SUMMARY", &[("VALUE", Some("URI"))], val));
    }
    for name in [
        "ENDPOINT", "END-X", "BEGINNING", "BEGIN-X", "ENDS", "DTEND", "XBEGIN", "X-END", "E", "EN", "BEG", "B", "end-x", "begin.x", "x-lower", "A.B",
        "1", "-",
    ] {
        v.push(tp(name, &[], "20240101"));
    }
    let params: &[&[(&str, Option<&str>)]] = &[
        &[("K", Some("v"))],
        &[("K", None)],
        &[("K", Some("a:b"))],
        &[("K", Some("a;b=c"))],
        &[("K", Some("p,q"))],
        &[("K", Some("v")), ("K", Some("w"))],
        &[("B", Some("1")), ("A", None), ("C", Some(" x "))],
        &[("END", Some("END:VEVENT")), ("BEGIN", Some("BEGIN:VEVENT"))],
        &[("VALUE", Some("DATE"))],
        &[("TZID", Some("Europe/Berlin")), ("VALUE", Some("DATE-TIME"))],
    ];
    for p in params {
        v.push(tp("ATTENDEE", p, "mailto:a@b.c"));
        v.push(tp("X-P", p, ";K=\"v\":w"));
        // with a type other than TEXT the value is written as it is, so it has to be on one line
        let typed = p.iter().any(|(k, _)| *k == "VALUE");
        v.push(tp("LOCATION", p, if typed { "x; y, z:\\" } else { "x; y, z:\n\\" }));
    }
    for (n, val) in [
        ("RRULE", "FREQ=WEEKLY;BYDAY=MO,TU"),
        ("GEO", "1.5;-2.5"),
        ("CATEGORIES", "single"),
        ("EXDATE", "20240101T000000Z,20240102T000000Z"),
        ("RELATED-TO", "u1"),
        ("URL", "http://x/?a=b;c,d\\e"),
        ("TRIGGER", "-PT15M"),
        ("UID", "u@h"),
        ("DTSTAMP", "20240101T000000Z"),
    ] {
        v.push(tp(n, &[], val));
    }
    v
}

// ------------------------------------------------------------------ shapes

/// all ordered forests of exactly n nodes, as depth sequences in preorder
pub fn forests(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, w: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if w.len() == n {
            out.push(w.clone());
            return;
        }
        let max = w.last().map(|d| d + 1).unwrap_or(0);
        for d in 0..=max {
            w.push(d);
            go(n, w, out);
            w.pop();
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}
/// builds a forest of components from depths and node labels
pub fn forest<T>(depths: &[usize], mut node: impl FnMut(usize, usize) -> T, mut adopt: impl FnMut(&mut T, T)) -> Vec<T> {
    let mut stack: Vec<T> = vec![];
    let mut roots = vec![];
    for (i, d) in depths.iter().enumerate() {
        while stack.len() > *d {
            let c = stack.pop().unwrap();
            match stack.last_mut() {
                Some(p) => adopt(p, c),
                None => roots.push(c),
            }
        }
        stack.push(node(i, *d));
    }
    while let Some(c) = stack.pop() {
        match stack.last_mut() {
            Some(p) => adopt(p, c),
            None => roots.push(c),
        }
    }
    roots
}

pub fn parsed_all<'a>(text: &'a str) -> Result<Vec<ip::Component<'a>>, Fail> {
    match ip::read_components(text) {
        Ok(c) => Ok(c),
        Err(e) => fail("well-formed document rejected", format!("{:?}\n{}", clip(text), clip(&e))),
    }
}
pub fn trees_of(text: &str) -> Result<Vec<Tree>, Fail> {
    Ok(parsed_all(text)?.iter().map(tree).collect())
}

/// names of parameters and components in the standards
pub const PARAMETERS: &[&str] = &[
    "ALTREP", "CN", "CUTYPE", "DELEGATED-FROM", "DELEGATED-TO", "DIR", "ENCODING", "FMTTYPE", "FBTYPE", "LANGUAGE", "MEMBER", "PARTSTAT", "RANGE", "RELATED", "RELTYPE", "ROLE", "RSVP", "SENT-BY", "TZID", "VALUE", "DISPLAY", "EMAIL",
    "FEATURE", "LABEL", "FILENAME", "SIZE", "MANAGED-ID", "SCHEDULE-AGENT", "SCHEDULE-FORCE-SEND", "SCHEDULE-STATUS", "CHARSET", "TYPE", "ORDER", "SCHEMA", "DERIVED", "LINKREL", "GAP", "X-FILENAME", "X-TITLE", "X-ADDRESS", "X-APPLE-RADIUS",
];
pub const COMPONENTS: &[&str] = &[
    "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "VVENUE", "VAVAILABILITY", "AVAILABLE", "VPOLL", "VVOTER", "VOTE", "PARTICIPANT", "VLOCATION", "VRESOURCE", "VCARD", "VNOTE", "VAGENDA", "VCALSTORE",
];

/// names components, properties and parameters have elsewhere, in several forms
pub fn names_in_use() -> Vec<String> {
    let mut vocab: Vec<String> = VOCABULARY.iter().chain(&["VCALENDAR", "CALENDAR", "VERSION", "BEGINS", "ENDS"]).flat_map(|n| [n.to_string(), n.to_lowercase(), format!("{n}."), format!("X-{n}"), format!("{n}-")]).collect();
    vocab.extend(TEXT_NAMES.iter().chain(OTHER_TYPES.iter().map(|t| &t.0)).chain(PARAMETERS).chain(COMPONENTS).flat_map(|n| [n.to_string(), n.to_lowercase(), format!("X-{n}")]));
    vocab.extend([".", ",", "/", "_", "-", "..", "A,", "A/", "A_", ",A", "/A", "_A", "-A", ".A", "0", "A0", "é", "日本"].map(String::from));
    vocab.retain(|n| !["BEGIN", "END"].contains(&n.to_uppercase().as_str()));
    vocab.sort();
    vocab.dedup();
    vocab
}
/// a component where one name is the name of components, properties and parameters
pub fn in_use(n: &str) -> Tree {
    let kid = Tree { name: n.into(), props: vec![], kids: vec![] };
    let val = if type_of(n, None) == Some("TEXT") { "a" } else { "a\\,b" };
    let props = vec![
        tp("X-A", &[(n, None)], "1"),
        tp("X-B", &[(n, Some("v")), ("K", None), (n, None)], "2"),
        tp("X-C", &[("K", Some("v:w")), (n, Some("TEXT;"))], "3"),
        tp(n, &[], val),
        tp(n, &[(n, Some("w"))], val),
        tp(n, &[("K", None)], ""),
    ];
    // (what a parameter named VALUE says applies)
    let props: Vec<TProp> = props.into_iter().filter(|p| !(n == "VALUE" && p.val.contains('\\'))).collect();
    Tree { name: n.into(), props: props.clone(), kids: vec![kid.clone(), Tree { name: "A".into(), props, kids: vec![kid.clone(), kid] }] }
}
