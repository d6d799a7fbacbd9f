//! What the library does, as text, for builds with any set of features.  Compiled by the check of C27 itself, not by cargo.
//! `probe DEPTH` prints one line per stage (name, count, hash); `probe DEPTH STAGE` prints all results of a stage.
#![allow(deprecated, unused)]
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, NaiveTime, TimeZone, Utc};
use icalendar::*;
use std::fmt::Write as _;
use std::str::FromStr;

struct Out {
    depth: u32,
    want: Option<String>,
    name: &'static str,
    n: u64,
    h: u64,
}
impl Out {
    fn begin(&mut self, name: &'static str) {
        (self.name, self.n, self.h) = (name, 0, 0xcbf29ce484222325);
    }
    fn end(&self) {
        if self.want.is_none() {
            println!("{}\t{}\t{:016x}", self.name, self.n, self.h);
        }
    }
    fn say(&mut self, s: &str) {
        if self.want.as_deref() == Some(self.name) {
            println!("{}", s.escape_debug());
        }
        self.n += 1;
        for b in s.bytes().chain([0xff]) {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
/// generated values are alike, parameters of a line in any order
fn canon(s: &str) -> String {
    let mut out = String::new();
    for l in s.replace("\r\n ", "").split("\r\n") {
        let (l, had) = match l.split_once(':') {
            Some(("UID", v)) if v.len() == 36 && v.bytes().all(|b| b.is_ascii_hexdigit() || b == b'-') => ("UID:*", true),
            Some(("DTSTAMP", v)) if v.len() == 16 && !v.starts_with("2020") => ("DTSTAMP:*", true),
            _ => (l, false),
        };
        if !had && l.matches(';').count() > 1 {
            let mut c: Vec<char> = l.chars().collect();
            c.sort();
            out.extend(c);
        } else {
            out.push_str(l);
        }
        out.push('|');
    }
    out
}
fn folds(s: &str) -> String {
    s.split("\r\n").map(|l| l.len().to_string()).collect::<Vec<_>>().join(",")
}
fn prop_text(p: &Property) -> String {
    let s: Result<String, _> = p.clone().try_into();
    // (parameters come in any order)
    match s {
        Ok(s) if p.params().len() > 1 => {
            let mut c: Vec<char> = s.replace("\r\n ", "").chars().collect();
            c.sort();
            c.into_iter().collect()
        }
        Ok(s) => format!("{} {}", canon(&s), folds(&s)),
        Err(_) => "error".into(),
    }
}
fn show_prop(p: &Property) -> String {
    let mut v: Vec<String> = p.params().values().map(|q| format!("{}={:?}", q.key(), q.value())).collect();
    v.sort();
    format!("{:?} {:?} {v:?} {:?}", p.key(), p.value(), p.value_type())
}
fn show<C: Component>(c: &C) -> String {
    let mut s = format!("{}{{", c.component_kind());
    for (k, p) in c.properties() {
        let _ = write!(s, "{k}->{};", show_prop(p));
    }
    for (k, v) in c.multi_properties() {
        let _ = write!(s, "{k}=>{:?};", v.iter().map(show_prop).collect::<Vec<_>>());
    }
    for k in c.components() {
        s += &show(k);
    }
    s + "}"
}
fn show_any(c: &CalendarComponent) -> String {
    match c {
        CalendarComponent::Event(e) => show(e),
        CalendarComponent::Todo(e) => show(e),
        CalendarComponent::Venue(e) => show(e),
        CalendarComponent::Other(e) => show(e),
        #[allow(unreachable_patterns)]
        _ => "?".into(),
    }
}
fn show_cal(c: &Calendar) -> String {
    let s = c.to_string();
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {}", c.properties.iter().map(show_prop).collect::<Vec<_>>(), c.components.iter().map(show_any).collect::<Vec<_>>(), c.get_name(), c.get_description(), c.get_timezone(), c.get_ttl(), c.len(), canon(&s), folds(&s.lines().filter(|l| !l.starts_with("DTSTAMP") && !l.starts_with("UID")).collect::<Vec<_>>().join("\r\n")))
}
fn at(y: i32, m: u32, d: u32, s: u32) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(y, m, d).unwrap().and_time(NaiveTime::from_num_seconds_from_midnight_opt(s, 0).unwrap())
}
const TEXTS: &[&str] = &[
    "", "a", "a,b;c:d\\e\nf", "\\n", "\\N\\;", "\\\\n", "\n", "\r\n", "\r", " a ", "\t", "\"q\"", "a:b", "a;b", "a=b", "é", "日本語", "e\u{301}", "😀", "\u{feff}x", "\u{2028}", "\0", "^n^^", "-1", "0", "1", "00", "4294967295", "4294967296",
    "99999999999", "TRUE", "PT5M", "-P1W", "P0D", "PT1H30M", "+PT5S", "P1Y", "PT", "20240229", "20230229", "20240229T235959", "20240229T235960Z", "20240229T235959Z", "20240229T235959z", "20240101T240000", "http://x/?a=b;c,d", "mailto:a@b", "CONFIRMED",
    "confirmed", "TENTATIVE", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-CLASS", "Europe/Berlin", "UTC", "BEGIN:VEVENT", "END:VEVENT", "VALUE", "DATE", "TEXT", "%s %n", "${x}",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
];
const NAMES: &[&str] = &[
    "SUMMARY", "summary", "DESCRIPTION", "LOCATION", "COMMENT", "CATEGORIES", "RESOURCES", "CONTACT", "UID", "DTSTAMP", "DTSTART", "DTEND", "DUE", "COMPLETED", "CREATED", "LAST-MODIFIED", "DURATION", "TRIGGER", "REPEAT", "ACTION", "ATTACH", "ATTENDEE",
    "ORGANIZER", "URL", "GEO", "PRIORITY", "SEQUENCE", "STATUS", "CLASS", "TRANSP", "PERCENT-COMPLETE", "RRULE", "RDATE", "EXDATE", "RECURRENCE-ID", "RELATED-TO", "REQUEST-STATUS", "FREEBUSY", "TZID", "TZNAME", "TZOFFSETFROM", "TZOFFSETTO", "TZURL",
    "CALSCALE", "METHOD", "PRODID", "VERSION", "NAME", "COLOR", "IMAGE", "SOURCE", "REFRESH-INTERVAL", "CONFERENCE", "ACKNOWLEDGED", "PROXIMITY", "X-WR-CALNAME", "X-WR-CALDESC", "X-WR-TIMEZONE", "X-PUBLISHED-TTL", "X-ALT-DESC", "X-PROP", "IANA-PROP", "X",
    "STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE", "STRUCTURED-DATA", "STYLED-DESCRIPTION", "PARTICIPANT-TYPE", "CALENDAR-ADDRESS", "LOCATION-TYPE", "RESOURCE-TYPE", "BUSYTYPE", "LINK", "CONCEPT", "REFID",
];
const TYPES: &[&str] = &["", "BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET", "text", "X-T", "UNKNOWN"];

fn event_ops(e: &mut Event, op: usize) {
    match op {
        0 => drop(e.summary("s,1")),
        1 => drop(e.summary("other")),
        2 => drop(e.description("d\n2")),
        3 => drop(e.uid("u-1")),
        4 => drop(e.timestamp(Utc.from_utc_datetime(&at(2020, 1, 2, 3)))),
        5 => drop(e.starts(at(2024, 2, 29, 86399))),
        6 => drop(e.starts(Utc.from_utc_datetime(&at(2024, 2, 29, 86399)))),
        7 => drop(e.ends(NaiveDate::from_ymd_opt(2024, 3, 1).unwrap())),
        8 => drop(e.all_day(NaiveDate::from_ymd_opt(2024, 12, 31).unwrap())),
        9 => drop(e.priority(11)),
        10 => drop(e.class(Class::Confidential)),
        11 => drop(e.status(EventStatus::Tentative)),
        12 => drop(e.url("http://x,y")),
        13 => drop(e.sequence(u32::MAX)),
        14 => drop(e.location("l;")),
        15 => drop(e.venue("here", "v-1")),
        16 => drop(e.add_property("X-A", "1")),
        17 => drop(e.append_property(Property::new("X-A", "2").add_parameter("K", "a:b").done())),
        18 => drop(e.add_multi_property("COMMENT", "c1")),
        19 => drop(e.append_multi_property(Property::new("ATTENDEE", "mailto:x").add_parameter("CN", "N;").done())),
        20 => drop(e.alarm(Alarm::display("t", -Duration::minutes(5)))),
        21 => drop(e.alarm(Alarm::audio((Duration::seconds(90061), Related::End)).duration_and_repeat(Duration::minutes(1), 4).done())),
        22 => drop(e.append_component(Todo::new().due(at(2024, 1, 1, 0)).done())),
        23 => drop(e.created(Utc.from_utc_datetime(&at(1969, 12, 31, 1)))),
        24 => drop(e.last_modified(Utc.from_utc_datetime(&at(9999, 12, 31, 86399)))),
        25 => {
            let d = e.done();
            *e = d;
        }
        _ => {
            e.done();
        }
    }
}
fn event_getters(e: &Event) -> String {
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", e.get_summary(), e.get_description(), e.get_uid(), e.get_timestamp(), e.get_start(), e.get_end(), e.get_priority(), e.get_class(), e.get_status(), e.get_url(), e.get_sequence(), e.get_location(), e.get_created(), e.get_last_modified())
}
fn todo_getters(e: &Todo) -> String {
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", e.get_due(), e.get_completed(), e.get_percent_complete(), e.get_status(), e.get_start(), e.get_priority(), e.get_class())
}
fn venue_getters(v: &Venue) -> String {
    format!("{:?} {:?} {:?} {:?} {:?} {:?}", v.get_street_address(), v.get_extended_address(), v.get_locality(), v.get_region(), v.get_country(), v.get_postal_code())
}

fn main() {
    let depth = std::env::args().nth(1).and_then(|d| d.parse().ok()).unwrap_or(4);
    let mut o = Out { depth, want: std::env::args().nth(2), name: "", n: 0, h: 0 };
    // ---------------- builders
    o.begin("builders");
    const K: usize = 27;
    for i in 0..K * K * K {
        let mut e = Event::new();
        for op in [i / K / K, i / K % K, i % K] {
            event_ops(&mut e, op);
        }
        let s = Component::to_string(&e);
        o.say(&format!("{} {} {} {}", show(&e), event_getters(&e), canon(&s), e.try_into_string().is_ok()));
    }
    o.end();
    o.begin("texts");
    for a in TEXTS {
        let e = Event::new().uid(a).summary(a).description(a).url(a).location(a).venue(a, a).timestamp(Utc.from_utc_datetime(&at(2020, 1, 1, 0))).done();
        let v = Venue::new().uid(a).street_address(a).extended_address(a).locality(a).region(a).country(a).postal_code(a).done();
        let t = Todo::new().uid(a).summary(a).alarm(Alarm::display(a, Duration::zero())).done();
        for (s, x) in [(Component::to_string(&e), show(&e) + &event_getters(&e)), (Component::to_string(&v), show(&v) + &venue_getters(&v)), (Component::to_string(&t), show(&t) + &todo_getters(&t))] {
            o.say(&format!("{a:?} {x} {} ", canon(&s)));
        }
        for n in NAMES {
            // getters on raw values
            let mut e = Event::new();
            let mut t = Todo::new();
            let mut v = Venue::new();
            let mut c = Calendar::empty();
            for ty in ["", "DATE", "DATE-TIME"] {
                let mut p = Property::new(*n, *a);
                if !ty.is_empty() {
                    p.add_parameter("VALUE", ty);
                }
                e.append_property(p.clone());
                t.append_property(p.clone());
                v.append_property(p.clone());
                c.append_property(p.clone());
                o.say(&format!("{n} {a:?} {} {} {} {} {}", event_getters(&e), todo_getters(&t), venue_getters(&v), show_cal(&c), prop_text(&p)));
                o.say(&format!("{:?} {:?}", DatePerhapsTime::from_property(&p), Trigger::try_from(&p)));
            }
            let p = Property::new(*n, "v").add_parameter(n, a).add_parameter("K", a).done();
            o.say(&format!("{} {}", show_prop(&p), prop_text(&p)));
        }
    }
    o.end();
    o.begin("types");
    for n in NAMES {
        for t in TYPES {
            for v in TEXTS {
                let mut p = Property::new(*n, *v);
                if !t.is_empty() {
                    p.append_parameter(("VALUE", *t));
                }
                o.say(&format!("{} {}", show_prop(&p), prop_text(&p)));
            }
        }
    }
    for t in TYPES.iter().chain(TEXTS) {
        o.say(&format!("{:?} {:?}", ValueType::from_str(t), ValueType::try_from(Parameter::new("VALUE", t))));
        if let Ok(v) = ValueType::from_str(t) {
            let p: Parameter = v.into();
            o.say(&format!("{} {}", p.key(), p.value()));
        }
    }
    o.end();
    o.begin("values");
    for n in (0..=300u64).chain([999, 1000, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, u64::MAX]) {
        for v in [n.to_string(), format!("-{n}"), format!("+{n}"), format!("0{n}"), format!("{n}.0")] {
            let (mut e, mut t) = (Event::new(), Todo::new());
            for k in ["PERCENT-COMPLETE", "PRIORITY", "SEQUENCE", "REPEAT"] {
                e.add_property(k, &v);
                t.add_property(k, &v);
            }
            o.say(&format!("{} {} {:?}", event_getters(&e), todo_getters(&t), t.get_sequence()));
        }
        let t = Todo::new().percent_complete(n as u8).priority(n as u32).sequence(n as u32).done();
        o.say(&format!("{} {}", show(&t), todo_getters(&t)));
        o.say(&show(&Alarm::audio(Trigger::after_start(Duration::seconds(n as i32 as i64))).duration_and_repeat(Duration::minutes(n as i32 as i64), n as u32).done()));
    }
    for s in [TodoStatus::Completed, TodoStatus::NeedsAction, TodoStatus::InProcess, TodoStatus::Cancelled] {
        for y in [-1, 0, 1969, 2024, 9999] {
            let t = Todo::new().status(s).completed(Utc.from_utc_datetime(&at(y, 2, 28, 86399))).due(at(y, 1, 1, 0)).ends(at(y, 1, 1, 1)).done();
            o.say(&format!("{} {}", show(&t), todo_getters(&t)));
        }
    }
    for (i, a) in TEXTS.iter().enumerate() {
        for b in TEXTS {
            let mut p = Property::new_pre_alloc(a.to_string(), b.to_string());
            o.say(&format!("{:?} {:?}", p.get_value_as(|v| v.parse::<i64>().ok()), p.value_type()));
            p.append_parameter(Parameter::new(b, a));
            o.say(&format!("{:?} {:?} {}", p.get_param_as(b, |v| v.parse::<i64>().ok()), p.get_param_as(a, |v| Some(v.len())), show_prop(&p)));
            let mut c = Calendar::empty();
            c.append_property((*a, *b)).append_property((*b, "2"));
            o.say(&format!("{:?} {:?}", c.property_value(a), c.property_value(b)));
            let mut e = Event::new();
            e.add_property_pre_alloc(a.to_string(), b.to_string());
            o.say(&format!("{} {:?}", show(&e), e.property_value(a)));
        }
        let d = Duration::seconds(i as i64 * 1801);
        for t in [Trigger::after_start(d), Trigger::after_end(d), Trigger::before_start(d), Trigger::before_end(d), Trigger::from(CalendarDateTime::Floating(at(2024, 1, 1, i as u32)))] {
            o.say(&format!("{:?} {:?} {:?} {:?}", t, t.related(), t.as_duration(), t.as_date_time()));
        }
    }
    for c in [CalendarComponent::from(Event::new().uid("1").done()), Todo::new().uid("2").done().into(), Venue::new().uid("3").done().into()] {
        o.say(&format!("{:?} {:?} {}", c.as_event().map(show), c.as_todo().map(show), show_any(&c)));
        o.say(&show_cal(Calendar::new().add(c)));
    }
    o.end();
    o.begin("folding");
    for unit in ["a", "é", "日", "😀", "a ", " ", "\n", "ab,", "e\u{301}"] {
        for n in 0..260 {
            for k in 0..3 {
                let p = Property::new("X-P", &format!("{}{}", "x".repeat(k), unit.repeat(n)));
                let s: String = p.clone().try_into().unwrap();
                o.say(&format!("{s:?}"));
                let s: String = Property::new("SUMMARY", p.value()).try_into().unwrap();
                o.say(&format!("{s:?}"));
            }
        }
    }
    o.end();
    // ---------------- dates
    o.begin("dates");
    for y in [-1, 0, 1, 4, 99, 1582, 1900, 1969, 1970, 2000, 2023, 2024, 2038, 9999] {
        for (m, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (3, 31), (6, 30), (10, 27), (12, 31)] {
            let Some(day) = NaiveDate::from_ymd_opt(y, m, d) else { continue };
            o.say(&format!("{}", show_prop(&DatePerhapsTime::from(day).to_property("DTSTART"))));
            for s in [0, 1, 3599, 3600, 5400, 9000, 43199, 43200, 86399] {
                let t = day.and_time(NaiveTime::from_num_seconds_from_midnight_opt(s, 0).unwrap());
                let u = Utc.from_utc_datetime(&t);
                for x in [DatePerhapsTime::from(t), u.into(), CalendarDateTime::WithTimezone { date_time: t, tzid: "Europe/Berlin".into() }.into(), CalendarDateTime::WithTimezone { date_time: t, tzid: "Nowhere".into() }.into()] {
                    let p = x.to_property("DTEND");
                    let back = DatePerhapsTime::from_property(&p);
                    o.say(&format!("{} {back:?} {} {:?} {:?}", show_prop(&p), x.date_naive(), NaiveDate::from(x.clone()), back.as_ref() == Some(&x)));
                    if let DatePerhapsTime::DateTime(c) = &x {
                        let t = Trigger::from(c.clone());
                        o.say(&format!("{}", show(&Alarm::audio(t.clone()))));
                    }
                }
                o.say(&format!("{:?} {:?}", CalendarDateTime::from_str(&t.format("%Y%m%dT%H%M%S").to_string()), CalendarDateTime::from_str(&t.format("%Y%m%dT%H%M%SZ").to_string())));
            }
        }
    }
    o.end();
    o.begin("durations");
    for a in [0i64, 1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 90061, 604799, 604800, 1209600, 1814461, 31536000, 4294967295, 4294967296] {
        for s in [a, -a] {
            for r in [None, Some(Related::Start), Some(Related::End)] {
                let t = Trigger::Duration(Duration::seconds(s), r);
                let al = Alarm::display("x", t.clone()).duration_and_repeat(Duration::seconds(a), a.min(9) as u32).done();
                let p = al.properties().get("TRIGGER").cloned().unwrap();
                o.say(&format!("{} {:?} {:?} {:?}", show(&al), Trigger::try_from(&p), t.related(), t.as_duration()));
            }
            let c = Calendar::new().ttl(&Duration::seconds(s)).done();
            o.say(&show_cal(&c));
        }
    }
    let words = ["P", "T", "-", "+", "1", "30", "W", "D", "H", "M", "S", "0"];
    for i in 0..words.len().pow(o.depth) {
        let (mut s, mut k) = (String::new(), i);
        for _ in 0..o.depth {
            s += words[k % words.len()];
            k /= words.len();
        }
        let p = Property::new("TRIGGER", &s);
        let t = Trigger::try_from(&p);
        o.say(&format!("{t:?}"));
        if i % 50 == 0 {
            o.say(&show_cal(Calendar::empty().append_property(("REFRESH-INTERVAL", s.as_str()))));
        }
    }
    o.end();
    // ---------------- calendars
    o.begin("calendars");
    const C: usize = 16;
    for i in 0..C * C * C {
        let mut c = Calendar::new();
        for op in [i / C / C, i / C % C, i % C] {
            match op {
                0 => drop(c.name("n,1")),
                1 => drop(c.description("d")),
                2 => drop(c.timezone("Europe/Berlin")),
                3 => drop(c.ttl(&Duration::hours(25))),
                4 => drop(c.push(Event::new().summary("e").done())),
                5 => drop(c.push(Todo::new().percent_complete(101).done())),
                6 => drop(c.push(Venue::new().region("r").done())),
                7 => drop(c.append_property(("METHOD", "PUBLISH"))),
                8 => drop(c.append_property(("X-WR-CALNAME", "old"))),
                9 => drop(c.append_property(("REFRESH-INTERVAL", "PT5M"))),
                10 => {
                    let d = c.done();
                    c = d;
                }
                11 => drop(c.extend([Event::new().uid("1").done(), Event::new().uid("2").done()])),
                12 => {
                    let mut other = Calendar::from([Todo::new().uid("3").done()]);
                    c.append(&mut other);
                    o.say(&show_cal(&other));
                }
                13 => c = Calendar::empty(),
                14 => drop(c.append_property(("X-PUBLISHED-TTL", "PT1H"))),
                _ => c = [Event::new().priority(3).done()].into_iter().collect(),
            }
        }
        let s: Result<String, _> = (&c).try_into();
        o.say(&format!("{} {}", show_cal(&c), s.is_ok()));
    }
    o.end();
    parsing(&mut o);
    json(&mut o);
    zones(&mut o);
}

#[cfg(not(feature = "parser"))]
fn parsing(_: &mut Out) {}
#[cfg(feature = "parser")]
mod tree {
    pub fn prop(p: &icalendar::parser::Property<'_>) -> String {
        format!("{:?} {:?} {:?}", p.name.as_str(), p.val.as_str(), p.params.iter().map(|q| (q.key.to_string(), q.val.as_ref().map(|v| v.to_string()))).collect::<Vec<_>>())
    }
    pub fn comp(c: &icalendar::parser::Component<'_>) -> String {
        format!("{:?} {:?} {:?}", c.name.as_str(), c.properties.iter().map(prop).collect::<Vec<_>>(), c.components.iter().map(comp).collect::<Vec<_>>())
    }
}
#[cfg(feature = "parser")]
fn docs(depth: u32) -> Vec<String> {
    const LINES: &[&str] = &["BEGIN:VCALENDAR\n", "END:VCALENDAR\n", "BEGIN:VEVENT\r\n", "END:VEVENT\r\n", "BEGIN:VTODO\n", "END:VTODO\n", "SUMMARY;LANGUAGE=en:a\\,b\n", "X-P:c\n d\r\n", "Comment:1\nsummary:2\nCOMMENT:3\n", "\n", "nonsense\n", "begin:X\n", "end:X\n"];
    let k = LINES.len();
    let mut v = vec![];
    for i in 0..k.pow(depth) {
        let (mut s, mut n) = (String::new(), i);
        for _ in 0..depth {
            s += LINES[n % k];
            n /= k;
        }
        // (all that begin a component, and some of the others)
        if s.to_lowercase().starts_with("begin:") || i % 7 == 0 {
            v.push(s);
        }
    }
    v
}
#[cfg(feature = "parser")]
fn parsing(o: &mut Out) {
    use icalendar::parser as ip;
    o.begin("documents");
    for s in docs(o.depth) {
        let u = ip::unfold(&s);
        let a = ip::read_calendar(&u).map(|c| format!("{:?} {:?} {}", c.properties.iter().map(tree::prop).collect::<Vec<_>>(), c.components.iter().map(tree::comp).collect::<Vec<_>>(), c));
        let b = ip::read_calendar_simple(&u).map(|v| v.iter().map(tree::comp).collect::<Vec<_>>()).map_err(|e| e.input.len());
        let c = s.parse::<Calendar>().map(|c| show_cal(&c));
        let d = ip::read_components(&s).map(|v| v.len());
        o.say(&format!("{u:?} {a:?} {b:?} {c:?} {d:?}"));
        if let Ok(c) = ip::Component::try_from(s.as_str()) {
            o.say(&format!("{:?}", ["SUMMARY", "summary", "Comment", "X-P", "", "COMMENT"].map(|n| c.find_prop(n).map(tree::prop))));
        }
        o.say(&format!("{:?}", s.parse::<CalendarComponent>().map(|c| show_any(&c))));
    }
    o.end();
    o.begin("lines");
    for n in NAMES {
        for t in TYPES {
            for v in TEXTS {
                let l = if t.is_empty() { format!("{n}:{v}") } else { format!("{n};VALUE={t}:{v}") };
                let p = ip::Property::try_from(l.as_str());
                let Ok(p) = p else {
                    o.say(&format!("{:?}", p.err()));
                    continue;
                };
                let q = Property::from(p.clone());
                o.say(&format!("{} {} {p} {} {:?}", tree::prop(&p), show_prop(&q), prop_text(&q), DatePerhapsTime::try_from(&p)));
                o.say(&format!("{:?}", l.parse::<Property>().map(|p| show_prop(&p))));
            }
        }
    }
    for v in TEXTS {
        for l in [format!(";A={v}"), format!(";{v}"), format!(";A=\"{v}\""), v.to_string()] {
            o.say(&format!("{:?}", ip::Parameter::try_from(l.as_str()).map(|p| (p.key.to_string(), p.val.map(|v| v.to_string())))));
            o.say(&ip::unfold(&format!("{l}\r\n {l}\n\t{l}")));
            let s = ip::ParseString::from(v.to_owned());
            o.say(&format!("{s} {} {}", s.clone().unescape_text(), s.clone().unescape_by_value_type(ValueType::Uri)));
        }
    }
    o.end();
}
#[cfg(not(all(feature = "parser", feature = "serde", feature = "serde_json")))]
fn json(_: &mut Out) {}
#[cfg(all(feature = "parser", feature = "serde", feature = "serde_json"))]
fn json(o: &mut Out) {
    use icalendar::parser as ip;
    o.begin("json");
    for s in docs(o.depth).into_iter().step_by(3) {
        let Ok(c) = ip::read_components(&s) else { continue };
        let j = serde_json::to_string(&c).unwrap_or_default();
        let b: Result<Vec<ip::Component>, _> = serde_json::from_str(&j);
        o.say(&format!("{j} {}", b.map(|b| b == c).unwrap_or(false)));
    }
    o.end();
}
#[cfg(not(feature = "chrono-tz"))]
fn zones(_: &mut Out) {}
#[cfg(feature = "chrono-tz")]
fn zones(o: &mut Out) {
    o.begin("zones");
    for z in chrono_tz::TZ_VARIANTS {
        for m in 1..=12 {
            for h in [0, 1, 2, 3, 12, 23] {
                let t = at(2024, m, if m == 3 { 31 } else { 27 }, h * 3600 + 1800);
                let c = CalendarDateTime::WithTimezone { date_time: t, tzid: z.name().into() };
                o.say(&format!("{:?} {:?} {:?} {:?}", c.try_into_utc(), CalendarDateTime::from_ymd_hm_tzid(2024, m, 30, h, 1, z), DatePerhapsTime::from((t, z)), CalendarDateTime::try_from((t, z.name()))));
            }
        }
        let d = z.from_utc_datetime(&at(2024, 7, 1, 0));
        o.say(&format!("{:?} {:?}", CalendarDateTime::from_date_time(d), ymd_hm_tzid(2023, 2, 29, 0, 0, z)));
    }
    for n in TEXTS {
        let c = CalendarDateTime::WithTimezone { date_time: at(2024, 1, 1, 0), tzid: n.to_string() };
        o.say(&format!("{:?} {:?}", c.try_into_utc(), DatePerhapsTime::try_from((at(2024, 1, 1, 0), *n))));
    }
    o.end();
}
