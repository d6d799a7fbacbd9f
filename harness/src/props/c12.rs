//! C12: every typed setter stores its RFC property and its getter returns it.
use super::c08::{at, day_text, forms4, nd, sample, time_text, utc, Form};
use super::c11::B;
use super::*;
use std::collections::BTreeMap;
use std::sync::Arc;

macro_rules! on {
    ($b:expr, $c:ident => $e:expr) => {
        match $b {
            B::E($c) => $e,
            B::T($c) => $e,
            B::V($c) => $e,
            B::A($c) => $e,
            B::G(CalendarComponent::Other($c)) => $e,
            B::G(_) => unreachable!(),
        }
    };
}
pub const KINDS: &[&str] = &["VEVENT", "VTODO", "VVENUE", "VALARM", "X-GENERIC"];
pub fn start(kind: usize) -> (B, MComp) {
    let b = match kind {
        0 => B::E(Event::new()),
        1 => B::T(Todo::new()),
        2 => B::V(Venue::new()),
        3 => {
            let mut a = Alarm::audio(chrono::Duration::zero());
            a.done(); // leaves it empty
            B::A(a)
        }
        _ => B::G(empty_generic(KINDS[4])),
    };
    (b, MComp::new(KINDS[kind]))
}

/// what every getter of a component returns, as text
pub type Got = BTreeMap<&'static str, String>;
fn show<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}
fn common<C: Component>(c: &C, g: &mut Got) {
    g.insert("timestamp", show(c.get_timestamp()));
    g.insert("created", show(c.get_created()));
    g.insert("last_modified", show(c.get_last_modified()));
    g.insert("start", show(c.get_start()));
    g.insert("end", show(c.get_end()));
    g.insert("priority", show(c.get_priority()));
    g.insert("summary", show(c.get_summary()));
    g.insert("description", show(c.get_description()));
    g.insert("uid", show(c.get_uid()));
    g.insert("sequence", show(c.get_sequence()));
    g.insert("class", show(c.get_class()));
    g.insert("url", show(c.get_url()));
}
pub fn getters(b: &B) -> Got {
    let mut g = Got::new();
    on!(b, c => common(c, &mut g));
    match b {
        B::E(e) => {
            g.insert("location", show(e.get_location()));
            g.insert("status", show(e.get_status()));
        }
        B::T(t) => {
            g.insert("location", show(t.get_location()));
            g.insert("status", show(t.get_status()));
            g.insert("percent", show(t.get_percent_complete()));
            g.insert("due", show(t.get_due()));
            g.insert("completed", show(t.get_completed()));
        }
        B::V(v) => {
            g.insert("street", show(v.get_street_address()));
            g.insert("extended", show(v.get_extended_address()));
            g.insert("locality", show(v.get_locality()));
            g.insert("region", show(v.get_region()));
            g.insert("country", show(v.get_country()));
            g.insert("postal", show(v.get_postal_code()));
        }
        _ => {}
    }
    g
}

/// one setter call with one argument
#[derive(Clone)]
pub struct Set {
    pub label: String,
    /// builders that have it
    pub kinds: &'static [usize],
    pub call: Arc<dyn Fn(&mut B) + Send + Sync>,
    /// properties it has to store
    pub props: Vec<MProp>,
    /// getters and what they have to return afterwards
    pub gets: Vec<(&'static str, String)>,
}
const ALL: &[usize] = &[0, 1, 2, 3, 4];
const ET: &[usize] = &[0, 1];
fn set(label: &str, kinds: &'static [usize], call: impl Fn(&mut B) + Send + Sync + 'static, props: Vec<MProp>, gets: Vec<(&'static str, String)>) -> Set {
    Set { label: label.into(), kinds, call: Arc::new(call), props, gets }
}
/// setters of text
pub fn texts(v: &str) -> Vec<Set> {
    let some = show(Some(v));
    let w = v.to_string();
    let mut out = vec![];
    macro_rules! all {
        ($m:ident, $key:expr, $get:expr) => {{
            let w = w.clone();
            out.push(set(stringify!($m), ALL, move |b| { on!(b, c => { c.$m(&w); }) }, vec![MProp::new($key, v)], vec![($get, some.clone())]));
        }};
    }
    all!(summary, "SUMMARY", "summary");
    all!(description, "DESCRIPTION", "description");
    all!(uid, "UID", "uid");
    if !v.contains('\n') {
        all!(url, "URL", "url");
    }
    {
        let w = w.clone();
        out.push(set(
            "location",
            ET,
            move |b| match b {
                B::E(c) => {
                    c.location(&w);
                }
                B::T(c) => {
                    c.location(&w);
                }
                _ => unreachable!(),
            },
            vec![MProp::new("LOCATION", v)],
            vec![("location", some.clone())],
        ));
    }
    macro_rules! ven {
        ($m:ident, $key:expr, $get:expr) => {{
            let w = w.clone();
            out.push(set(
                stringify!($m),
                &[2],
                move |b| match b {
                    B::V(c) => {
                        c.$m(&w);
                    }
                    _ => unreachable!(),
                },
                vec![MProp::new($key, v)],
                vec![($get, some.clone())],
            ));
        }};
    }
    ven!(street_address, "STREET-ADDRESS", "street");
    ven!(extended_address, "EXTENDED-ADDRESS", "extended");
    ven!(locality, "LOCALITY", "locality");
    ven!(region, "REGION", "region");
    ven!(country, "COUNTRY", "country");
    ven!(postal_code, "POSTAL-CODE", "postal");
    out
}
/// LOCATION with the uid of a venue (the uid becomes a parameter)
pub fn venue_ref(v: &str, uid: &str) -> Set {
    let (w, u) = (v.to_string(), uid.to_string());
    set(
        "venue",
        ET,
        move |b| match b {
            B::E(c) => {
                c.venue(&w, &u);
            }
            B::T(c) => {
                c.venue(&w, &u);
            }
            _ => unreachable!(),
        },
        vec![MProp::new("LOCATION", v).with("VVENUE", uid)],
        vec![("location", show(Some(v)))],
    )
}
pub fn numbers(n: u32) -> Vec<Set> {
    let p = n.min(10);
    let mut v = vec![
        set("priority", ALL, move |b| { on!(b, c => { c.priority(n); }) }, vec![MProp::new("PRIORITY", &p.to_string())], vec![("priority", format!("Some({p})"))]),
        set("sequence", ALL, move |b| { on!(b, c => { c.sequence(n); }) }, vec![MProp::new("SEQUENCE", &n.to_string())], vec![("sequence", format!("Some({n})"))]),
    ];
    if n < 256 {
        v.push(set(
            "percent_complete",
            &[1],
            move |b| match b {
                B::T(c) => {
                    c.percent_complete(n as u8);
                }
                _ => unreachable!(),
            },
            vec![MProp::new("PERCENT-COMPLETE", &n.to_string())],
            vec![("percent", format!("Some({n})"))],
        ));
    }
    v
}
pub fn enums() -> Vec<Set> {
    let mut v = vec![];
    for (c, s) in [(Class::Public, "PUBLIC"), (Class::Private, "PRIVATE"), (Class::Confidential, "CONFIDENTIAL")] {
        v.push(set("class", ALL, move |b| { on!(b, x => { x.class(c); }) }, vec![MProp::new("CLASS", s)], vec![("class", show(Some(c)))]));
    }
    for (c, s) in [(EventStatus::Tentative, "TENTATIVE"), (EventStatus::Confirmed, "CONFIRMED"), (EventStatus::Cancelled, "CANCELLED")] {
        v.push(set(
            "status",
            &[0],
            move |b| {
                if let B::E(x) = b {
                    x.status(c);
                }
            },
            vec![MProp::new("STATUS", s)],
            vec![("status", show(Some(c)))],
        ));
    }
    for (c, s) in [
        (TodoStatus::NeedsAction, "NEEDS-ACTION"),
        (TodoStatus::Completed, "COMPLETED"),
        (TodoStatus::InProcess, "IN-PROCESS"),
        (TodoStatus::Cancelled, "CANCELLED"),
    ] {
        v.push(set(
            "status",
            &[1],
            move |b| {
                if let B::T(x) = b {
                    x.status(c);
                }
            },
            vec![MProp::new("STATUS", s)],
            vec![("status", show(Some(c)))],
        ));
    }
    v
}
/// setters of dates
pub fn dates(day: (u32, u32, u32), s: u32) -> Vec<Set> {
    let mut v = vec![];
    let u = utc(at(nd(day), s));
    let text = format!("{}T{}Z", day_text(day), time_text(s));
    macro_rules! stamp {
        ($m:ident, $key:expr) => {
            v.push(set(
                stringify!($m),
                ALL,
                move |b| on!(b, c => { c.$m(u); }),
                vec![MProp::new($key, &text)],
                vec![(stringify!($m), show(Some(u)))],
            ));
        };
    }
    stamp!(timestamp, "DTSTAMP");
    stamp!(created, "CREATED");
    stamp!(last_modified, "LAST-MODIFIED");
    v.push(set(
        "completed",
        &[1],
        move |b| {
            if let B::T(x) = b {
                x.completed(u);
            }
        },
        vec![MProp::new("COMPLETED", &text)],
        vec![("completed", show(Some(u)))],
    ));
    for f in forms4() {
        let (d, text, params) = sample(day, s, &f);
        let prop = |k: &str| {
            let mut p = MProp::new(k, &text);
            for (a, b) in &params {
                p = p.with(a, b);
            }
            p
        };
        let d1 = d.clone();
        v.push(set(
            "starts",
            ET,
            move |b| match b {
                B::E(c) => {
                    c.starts(d1.clone());
                }
                B::T(c) => {
                    c.starts(d1.clone());
                }
                _ => unreachable!(),
            },
            vec![prop("DTSTART")],
            vec![("start", show(Some(&d)))],
        ));
        let d1 = d.clone();
        v.push(set(
            "ends",
            ET,
            move |b| match b {
                B::E(c) => {
                    c.ends(d1.clone());
                }
                B::T(c) => {
                    c.ends(d1.clone());
                }
                _ => unreachable!(),
            },
            vec![prop("DTEND")],
            vec![("end", show(Some(&d)))],
        ));
        let d1 = d.clone();
        v.push(set(
            "due",
            &[1],
            move |b| {
                if let B::T(c) = b {
                    c.due(d1.clone());
                }
            },
            vec![prop("DUE")],
            vec![("due", show(Some(&d)))],
        ));
    }
    let (d, text, _) = sample(day, s, &Form::Date);
    let n = nd(day);
    v.push(set(
        "all_day",
        ET,
        move |b| match b {
            B::E(c) => {
                c.all_day(n);
            }
            B::T(c) => {
                c.all_day(n);
            }
            _ => unreachable!(),
        },
        vec![MProp::new("DTSTART", &text).with("VALUE", "DATE"), MProp::new("DTEND", &text).with("VALUE", "DATE")],
        vec![("start", show(Some(&d))), ("end", show(Some(&d)))],
    ));
    v
}

#[derive(Clone)]
pub struct St {
    pub b: B,
    pub m: MComp,
    pub got: Got,
}
pub fn begin(kind: usize) -> St {
    let (b, m) = start(kind);
    let got = getters(&b).keys().map(|k| (*k, "None".to_string())).collect();
    St { b, m, got }
}
pub fn applied(s: &St, x: &Set) -> St {
    let mut n = s.clone();
    (x.call)(&mut n.b);
    for p in &x.props {
        n.m.set(p.clone());
    }
    for (k, v) in &x.gets {
        n.got.insert(k, v.clone());
    }
    n
}
fn content(b: &B) -> MComp {
    on!(b, c => mcomp(c))
}
pub fn text(b: &B) -> String {
    on!(b, c => Component::to_string(c))
}
pub fn reread(b: &B, out: &str) -> Result<B, Fail> {
    match out.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Event(x)) => Ok(B::E(x)),
        Ok(CalendarComponent::Todo(x)) => Ok(B::T(x)),
        Ok(CalendarComponent::Venue(x)) => Ok(B::V(x)),
        Ok(x) => Ok(B::G(x)),
        Err(e) => fail("written component is not readable", format!("{:?}\n{e}\n{out:?}", content(b))),
    }
}
/// content and all getters now, and after writing and reading
pub fn verify(s: &St, what: &str, round: bool, st: &mut Stats) -> R {
    same!("content after the setter", what, s.m, content(&s.b));
    same!("getters", what, s.got, getters(&s.b));
    st.step();
    if round {
        let out = text(&s.b);
        let back = reread(&s.b, &out)?;
        let mut m = content(&back);
        let mut got = getters(&back);
        // generated on writing
        for (p, g) in [("DTSTAMP", "timestamp"), ("UID", "uid")] {
            if !s.m.props.contains_key(p) {
                ensure!(m.props.remove(p).is_some(), "written without a generated property", format!("{p}: {out:?}"));
                ensure!(got[g] != "None", "generated property not readable", format!("{g}: {out:?}"));
                got.insert(g, "None".into());
            }
        }
        same!("content after write and read", what, s.m, m);
        same!("getters after write and read", what, s.got, got);
        st.steps(2);
    }
    Ok(())
}
fn one(x: &Set, st: &mut Stats) -> R {
    for k in x.kinds {
        let s = applied(&begin(*k), x);
        st.state(&(k, &s.m));
        verify(&s, &format!("{} on {}", x.label, KINDS[*k]), true, st)?;
        // over another content, set before with another argument and parameters
        let mut t = begin(*k);
        for p in &x.props {
            let junk = MProp::new(&p.key, "junk, text").with("VALUE", "TEXT").with("TZID", "Junk").with("X", "y");
            on!(&mut t.b, c => { c.append_property(junk.build()); });
            t.m.set(junk);
        }
        for p in ["X-OTHER", "STATUS2"] {
            on!(&mut t.b, c => { c.add_property(p, "kept"); });
            t.m.set(MProp::new(p, "kept"));
        }
        on!(&mut t.b, c => { c.add_multi_property("COMMENT", "kept"); });
        t.m.add_multi(MProp::new("COMMENT", "kept"));
        let t = applied(&t, x);
        verify(&t, &format!("{} on filled {}", x.label, KINDS[*k]), false, st)?;
    }
    st.note(|| format!("{}: {:?} {:?}", x.label, x.props, x.gets));
    Ok(())
}
/// the typed getters over raw texts
fn raw_text(name: &'static str, key: &'static str, kinds: &[usize], val: &str, exp: Option<String>, st: &mut Stats) -> R {
    for k in kinds {
        let (mut b, mut m) = start(*k);
        on!(&mut b, c => { c.add_property(key, val); });
        m.set(MProp::new(key, val));
        let mut got: Got = getters(&b).keys().map(|k| (*k, "None".to_string())).collect();
        if let Some(e) = &exp {
            got.insert(name, e.clone());
        }
        let s = St { b, m, got };
        same!("getter", format!("{key}:{val}"), s.got, getters(&s.b));
        st.step();
        // a document with this text
        let line = if type_of(key, None) == Some("TEXT") { esc(val) } else { val.to_string() };
        if !val.contains(['\n', '\r']) {
            let doc = format!("BEGIN:{}\r\n{key}:{line}\r\nEND:{}\r\n", KINDS[*k], KINDS[*k]);
            let back = reread(&s.b, &doc)?;
            same!("getter of a read component", doc, s.got, getters(&back));
            st.step();
        }
        st.state(&(key, val));
    }
    Ok(())
}
/// decimal integers: optional + and digits, within the range; None: not decided by the property
fn int(s: &str, max: u64) -> Option<Option<u64>> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if s.starts_with('-') && s[1..].bytes().all(|c| c == b'0') && s.len() > 1 {
        return None; // "-0"
    }
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return Some(None);
    }
    let d = d.trim_start_matches('0');
    if d.len() > 12 {
        return Some(None);
    }
    let n: u64 = if d.is_empty() { 0 } else { d.parse().unwrap() };
    Some(if n <= max { Some(n) } else { None })
}
fn int_texts(s: &str, st: &mut Stats) -> R {
    for (name, key, kinds, max) in [
        ("priority", "PRIORITY", ALL, 10),
        ("sequence", "SEQUENCE", ALL, u32::MAX as u64),
        ("percent", "PERCENT-COMPLETE", &[1][..], 255),
    ] {
        if let Some(e) = int(s, max) {
            raw_text(name, key, kinds, s, e.map(|n| format!("Some({n})")), st)?;
        }
    }
    Ok(())
}
const CLASSES: &[(&str, &str)] = &[("PUBLIC", "Public"), ("PRIVATE", "Private"), ("CONFIDENTIAL", "Confidential")];
const EST: &[(&str, &str)] = &[("TENTATIVE", "Tentative"), ("CONFIRMED", "Confirmed"), ("CANCELLED", "Cancelled")];
const TST: &[(&str, &str)] =
    &[("NEEDS-ACTION", "NeedsAction"), ("COMPLETED", "Completed"), ("IN-PROCESS", "InProcess"), ("CANCELLED", "Cancelled")];
fn enum_texts(s: &str, st: &mut Stats) -> R {
    let look = |t: &[(&str, &str)]| t.iter().find(|(a, _)| *a == s).map(|(_, v)| format!("Some({v})"));
    raw_text("class", "CLASS", ALL, s, look(CLASSES), st)?;
    raw_text("status", "STATUS", &[0], s, look(EST), st)?;
    raw_text("status", "STATUS", &[1], s, look(TST), st)
}
/// all single edits of a word
pub fn edits(w: &str, with: &[char]) -> Vec<String> {
    let c: Vec<char> = w.chars().collect();
    let mut out = vec![w.to_string(), w.to_lowercase()];
    for i in 0..=c.len() {
        for x in with {
            let mut d = c.clone();
            d.insert(i, *x);
            out.push(d.iter().collect());
            if i < c.len() {
                let mut d = c.clone();
                d[i] = *x;
                out.push(d.iter().collect());
            }
        }
        if i < c.len() {
            let mut d = c.clone();
            d.remove(i);
            out.push(d.iter().collect());
            let mut d = c.clone();
            d[i] = d[i].to_ascii_lowercase();
            out.push(d.iter().collect());
            if i + 1 < c.len() {
                let mut d = c.clone();
                d.swap(i, i + 1);
                out.push(d.iter().collect());
            }
        }
    }
    out
}
/// the setters of one builder kind with a few arguments each, for sequences
pub fn table(kind: usize, rich: bool) -> Vec<Set> {
    let mut v: Vec<Set> = vec![];
    v.extend(texts("a;b,c\\n\n"));
    v.extend(texts("second"));
    v.push(venue_ref("hall, 1", "u:id"));
    for n in if rich { vec![0, 5, 10, 11, u32::MAX] } else { vec![5, 11] } {
        v.extend(numbers(n));
    }
    v.extend(enums());
    v.extend(dates((2024, 2, 29), 86399));
    if rich {
        v.extend(texts(""));
        v.extend(dates((1999, 12, 31), 0));
        v.push(venue_ref("", ""));
    }
    v.retain(|s| s.kinds.contains(&kind));
    v
}

pub fn run(run: &Run) {
    run.assume("a URL argument has no line feed; a venue uid given as a parameter has no double quote or control character");
    run.assume("the integer text -0 is left open, a leading + is allowed (RFC 5545 integer)");
    let alpha = ["a", ",", ";", "\\", "\n", "n", " ", "é", ":", "\"", "😀"];
    let k = run.q(3, 4);
    run.cases("text arguments", &format!("all words of length <= {k} over {} symbols x 11 setters x 5 builders", alpha.len()), words_upto(alpha.len(), k), |i, st| {
        for x in texts(&spell(i, &alpha)) {
            one(&x, st)?;
        }
        Ok(())
    });
    let top = run.q(0x2400, SCALARS);
    run.cases("every character", &format!("the first {top} Unicode scalar values and the first 3 of every later block of 256 as the argument of text setters"), SCALARS / 256 + 1, |i, st| {
        for j in i * 256..((i + 1) * 256).min(SCALARS) {
            if j >= top && j % 256 > 2 {
                break;
            }
            let c = scalar(j);
            let all = texts(&format!("x{c}y"));
            // all setters on the Latin block, the others in turn
            let n = all.len();
            for (k, x) in all.into_iter().enumerate() {
                if j < 0x100 || k == j % n {
                    one(&x, st)?;
                }
            }
        }
        Ok(())
    });
    let lens: Vec<usize> = (0..run.q(160, 700)).collect();
    run.cases("long arguments", &format!("lengths 0..{} x 4 repeated characters", lens.len()), lens.len() * 4, |i, st| {
        for x in texts(&["a", "é", ",", " b"][i % 4].repeat(lens[i / 4])) {
            one(&x, st)?;
        }
        Ok(())
    });
    let sp = big::special();
    run.cases("special arguments", &format!("{} special texts x 11 setters x 5 builders", sp.len()), sp.len(), |i, st| {
        for x in texts(sp[i]) {
            one(&x, st)?;
        }
        one(&venue_ref(sp[i], "hall"), st)?;
        if sp[i].chars().any(|c| c == '"' || c.is_control()) {
            return Ok(());
        }
        one(&venue_ref("hall", sp[i]), st)
    });
    let ualpha = ["a", ":", ";", ",", " ", "=", "é", "@", "/"];
    run.cases("venue references", &format!("all uids of length <= {} over {} symbols x 4 places", 4, ualpha.len()), words_upto(ualpha.len(), 4) * 4, |i, st| {
        one(&venue_ref(["", "hall", "a;b:c", "x,\n\\"][i % 4], &spell(i / 4, &ualpha)), st)
    });
    let mut ns: Vec<u32> = (0..1000).collect();
    for b in 0..32u32 {
        for d in -2i64..=2 {
            ns.push(((1i64 << b) + d).clamp(0, u32::MAX as i64) as u32);
        }
    }
    for d in 1..10u32 {
        ns.push(10u32.pow(d.min(9)) - 1);
        ns.push(10u32.pow(d.min(9)));
    }
    ns.push(u32::MAX);
    ns.push(u32::MAX - 1);
    run.cases("numeric arguments", "0..1000 (percent: all of 0..255), all powers of 2 and 10 and their neighbours, u32::MAX", ns.len(), |i, st| {
        for x in numbers(ns[i]) {
            one(&x, st)?;
        }
        Ok(())
    });
    let es = enums();
    run.cases("enumerations", "every class and status", es.len(), |i, st| one(&es[i], st));
    let days: Vec<(u32, u32, u32)> = [0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2024, 2038, 2100, 2400, 9999]
        .iter()
        .flat_map(|y| (1..=12).flat_map(move |m| [1, 9, 10, 28, super::c08::days_in(*y, m)].into_iter().map(move |d| (*y, m, d))))
        .collect();
    let secs: Vec<u32> = vec![0, 1, 59, 60, 3599, 3600, 35999, 36000, 43199, 43200, 86399];
    run.cases("date arguments", &format!("{} dates x {} times x all date setters and forms", days.len(), secs.len()), days.len() * secs.len(), |i, st| {
        for x in dates(days[i / secs.len()], secs[i % secs.len()]) {
            one(&x, st)?;
        }
        Ok(())
    });
    let ia = ["0", "1", "9", "5", "+", "-", " ", ".", "a", "٣", "x"];
    let k = run.q(4, 5);
    run.cases("integer texts", &format!("all words of length <= {k} over {} symbols as PRIORITY, SEQUENCE and PERCENT-COMPLETE", ia.len()), words_upto(ia.len(), k), |i, st| {
        int_texts(&spell(i, &ia), st)
    });
    let mut nt: Vec<String> = vec![];
    for n in (0..400u64).chain([65535, 65536, 4294967294, 4294967295, 4294967296, 4294967306, 9999999999, 18446744073709551615]) {
        for f in [format!("{n}"), format!("0{n}"), format!("+{n}"), format!("-{n}"), format!("{n} "), format!(" {n}"), format!("{n}.0"), format!("0x{n}"), format!("{n}e0"), format!("{n},{n}"), format!("++{n}"), format!("00000000000000000000{n}")] {
            nt.push(f);
        }
    }
    nt.push("1".repeat(40));
    run.cases("integer texts at the limits", &format!("{} texts", nt.len()), nt.len(), |i, st| int_texts(&nt[i], st));
    let mut et: Vec<String> = vec![String::new()];
    for (w, _) in CLASSES.iter().chain(EST).chain(TST) {
        et.extend(edits(w, &['A', 'E', ' ', '-', '_', ',', 'é', '\n']));
    }
    et.extend(gen::VOCABULARY.iter().map(|s| s.to_string()));
    for w in [
        "CANCELED", "X-PRIVATE", "X-", "X-SECRET", "x-private", "IANA", "SECRET", "INTERNAL", "OPEN", "DRAFT", "FINAL", "DONE", "COMPLETE", "INPROCESS", "IN PROCESS", "IN_PROCESS", "NEEDS ACTION", "PENDING",
        "DELEGATED", "ACCEPTED", "DECLINED", "FAILED", "UNKNOWN", "DEFAULT", "NONE", "0", "1", "true", "FALSE", "OPAQUE", "TRANSPARENT", "BUSY", "Public", "Confirmed", "NeedsAction", "InProcess",
    ] {
        et.push(w.into());
    }
    et.sort();
    et.dedup();
    run.cases("class and status texts", &format!("{} words: all within one edit of a name, names in use, and other programs' words", et.len()), et.len(), |i, st| enum_texts(&et[i], st));
    // sequences: no setter disturbs another one
    // a getter tells its own property and nothing it could work out from others
    let facts: Vec<MProp> = [
        ("DTSTART", "20240229T120000Z"), ("DTSTART", "20240229T120000"), ("DTEND", "20240301T120000Z"), ("DUE", "20240301T120000Z"), ("DURATION", "PT1H"), ("DURATION", "P1D"), ("COMPLETED", "20240301T120000Z"),
        ("DTSTAMP", "20240101T000000Z"), ("CREATED", "20240102T000000Z"), ("LAST-MODIFIED", "20240103T000000Z"), ("RECURRENCE-ID", "20240104T000000Z"), ("STATUS", "COMPLETED"), ("STATUS", "NEEDS-ACTION"), ("STATUS", "CANCELLED"), ("STATUS", "CONFIRMED"),
        ("PERCENT-COMPLETE", "100"), ("PERCENT-COMPLETE", "0"), ("PRIORITY", "1"), ("SEQUENCE", "2"), ("CLASS", "PRIVATE"), ("TRANSP", "TRANSPARENT"), ("SUMMARY", "a"), ("DESCRIPTION", "b"), ("COMMENT", "c"), ("LOCATION", "d"), ("GEO", "1;2"), ("UID", "e"),
        ("URL", "f:g"), ("ORGANIZER", "mailto:h"), ("NAME", "i"), ("X-ALT-DESC", "j"), ("X-MICROSOFT-CDO-ALLDAYEVENT", "TRUE"), ("X-PRIORITY", "3"), ("X-STATUS", "COMPLETED"), ("RRULE", "FREQ=DAILY"), ("STREET-ADDRESS", "k"), ("EXTENDED-ADDRESS", "l"),
        ("LOCALITY", "m"), ("REGION", "n"), ("COUNTRY", "o"), ("POSTAL-CODE", "p"), ("COUNTRY-NAME", "q"), ("X-A", "r"),
    ]
    .iter()
    .map(|(n, v)| MProp::new(n, v))
    .chain([MProp::new("DTSTART", "20240229").with("VALUE", "DATE"), MProp::new("DTEND", "20240301").with("VALUE", "DATE"), MProp::new("DTSTART", "20240229T120000").with("TZID", "Europe/Berlin"), MProp::new("LOCATION", "s").with("VVENUE", "t")])
    .collect();
    let has = |kind: usize, ps: &[&MProp]| -> Got {
        let (mut b, _) = start(kind);
        for p in ps {
            on!(&mut b, c => { c.append_property(p.build()); });
        }
        getters(&b)
    };
    let nf = facts.len();
    run.cases("facts told by others", &format!("all triples of {nf} properties with usual values in 5 kinds: each getter returns what it returns with its own property alone"), nf * nf * nf * KINDS.len(), |i, st| {
        let mut d = Dec(i);
        let kind = d.n(KINDS.len());
        let w = [d.n(nf), d.n(nf), d.n(nf)];
        let ps = w.map(|j| &facts[j]);
        if w[0] > w[1] || w[1] > w[2] || ps[0].key == ps[1].key && w[0] != w[1] || ps[1].key == ps[2].key && w[1] != w[2] || ps[0].key == ps[2].key && w[0] != w[2] {
            return Ok(());
        }
        let base = has(kind, &[]);
        let sole = ps.map(|p| has(kind, &[p]));
        let got = has(kind, &ps);
        for (g, v) in &got {
            let want = sole.iter().map(|s| &s[g]).find(|x| *x != &base[g]).unwrap_or(&base[g]);
            same!(format!("getter {g}"), format!("{} with {ps:?}", KINDS[kind]), want, v);
        }
        st.state(&(kind, w));
        st.steps(got.len() as u64);
        Ok(())
    });
    for (kind, name) in KINDS.iter().enumerate() {
        let t = table(kind, run.tier == Tier::Quick);
        let depth = run.q(3, 4);
        run.bfs(
            &format!("{name} setters"),
            &format!("all sequences of <= {depth} of {} setter calls, getters compared before and after write and read", t.len()),
            t.len(),
            depth,
            || begin(kind),
            |s, op, st| {
                let n = applied(s, &t[op]);
                st.note(|| format!("{}: {:?}", t[op].label, n.m));
                verify(&n, &t[op].label, true, st)?;
                Ok(Some(n))
            },
            |s| h128(&(&s.m, &s.got)),
        );
    }
}
