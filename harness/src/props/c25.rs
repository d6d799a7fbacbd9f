//! C25: every operation is a function of its arguments: no hidden state, no dependence on the environment.
//!
//! The tree of all call sequences is explored by helper processes that fork at every node, so that each
//! sequence starts from a process in which the library has not been used yet.
use super::c16::{Fault, Sink};
use super::gen::*;
use super::*;
use chrono::{Duration, NaiveDate, TimeZone, Utc};
use std::fmt::Write;

type Op = (&'static str, fn() -> String);

const A: &str = "BEGIN:VCALENDAR\r\nNAME:first\\, one\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nSUMMARY:a;b\\n\r\nATTENDEE;CN=x:mailto:a\r\nATTENDEE:mailto:b\r\nBEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT5M\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n";
/// of the same length, with the same beginning and end
const B: &str = "BEGIN:VCALENDAR\r\nNAME:first\\; two\r\nBEGIN:VEVENT\r\nUID:2\r\nDTSTAMP:20250101T000000Z\r\nSUMMARY:c,d\\N\r\nATTENDEE;CN=y:mailto:c\r\nATTENDEE:mailto:d\r\nBEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT7M\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n";
const FOLDED: &str = "BEGIN:VCALENDAR\nNA\n ME:first\\\n\t, one\nBEGIN:VTODO\nSUMMARY:x\nEND:VTODO\n\nEND:VCALENDAR\n";
const CUT: &str = "BEGIN:VCALENDAR\r\nNAME:first\\, one\r\nBEGIN:VEVENT\r\nUID:1\r\n";
const WRONG: &str = "BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nEND:VTODO\r\nEND:VCALENDAR\r\n";

fn d<T: std::fmt::Debug>(t: T) -> String {
    format!("{t:?}")
}
fn read(t: &str) -> String {
    d(ip::read_calendar(&ip::unfold(t)).map(|c| tree_of_cal(&c)))
}
fn typed_read(t: &str) -> String {
    match t.parse::<Calendar>() {
        Ok(c) => d(mcal(&c).map_err(|f| f.what)),
        Err(e) => e,
    }
}
/// generated values are all alike
fn mask(s: &str) -> String {
    let line = |l: &str| match l.split_once(':') {
        Some(("UID", v)) if is_uuid4(v) => "UID:*".to_string(),
        Some(("DTSTAMP", v)) if is_utc_stamp(v) && v > "2025" => "DTSTAMP:*".to_string(),
        _ => l.to_string(),
    };
    s.split("\r\n").map(line).collect::<Vec<_>>().join("\r\n")
}
fn stamp() -> chrono::DateTime<Utc> {
    Utc.with_ymd_and_hms(2024, 2, 29, 23, 59, 59).unwrap()
}
fn ev(text: &str) -> Event {
    Event::new().uid("u").timestamp(stamp()).summary(text).add_multi_property("COMMENT", text).done()
}
fn zoned(tz: &str, m: u32, h: u32) -> String {
    let t = NaiveDate::from_ymd_opt(2024, m, 31).unwrap().and_hms_opt(h, 30, 0).unwrap();
    d(CalendarDateTime::WithTimezone { date_time: t, tzid: tz.into() }.try_into_utc())
}
fn date(v: &str, p: &[(&str, &str)]) -> String {
    let mut q = Property::new("DTSTART", v);
    for (k, v) in p {
        q.add_parameter(k, v);
    }
    d(DatePerhapsTime::from_property(&q))
}
fn trigger(v: &str) -> String {
    d(Trigger::try_from(&Property::new("TRIGGER", v)))
}
fn prop(l: &str) -> String {
    match ip::Property::try_from(l) {
        Ok(p) => format!("{:?} {:?} {}", tprop(&p), mprop(&Property::from(p.clone())), p),
        Err(e) => e,
    }
}
fn sink(f: Fault) -> String {
    let mut s = Sink::new(f);
    let c = Calendar::from([ev("sink, with a text that is long enough to be folded: 01234567890123456789012345678901234567890")]);
    let r = write!(s, "{c}");
    format!("{} {}", r.is_ok(), s.got)
}
fn ttl(k: &'static str, v: &str) -> String {
    let mut c = Calendar::empty();
    c.append_property((k, v));
    d((c.get_ttl(), c.get_name(), c.get_timezone()))
}
fn json(t: &str) -> String {
    match ip::read_components(t) {
        Ok(c) => {
            let j = serde_json::to_string(&c).unwrap_or_default();
            let back: Result<Vec<ip::Component<'_>>, _> = serde_json::from_str(&j);
            format!("{j} {:?}", back.map(|b| b.iter().map(tree).collect::<Vec<_>>()).map_err(|e| e.to_string()))
        }
        Err(e) => e,
    }
}

/// the most telling operations come first: deep searches take a prefix of this list
const OPS: &[Op] = &[
    ("read A", || read(A)),
    ("read B", || read(B)),
    ("read what is cut off", || read(CUT)),
    ("typed A", || typed_read(A)),
    ("typed B", || typed_read(B)),
    ("write an event without UID and DTSTAMP", || mask(&Component::to_string(&Event::new().summary("s").done()))),
    ("write an event with both", || Component::to_string(&ev("a,b;c"))),
    ("write a calendar", || Calendar::from([ev("one"), ev("two, and a text that is long enough to be folded, 0123456789012345678901234567890123456789")]).to_string()),
    ("write into a full sink", || sink(Fault::From(9))),
    ("write into a torn sink", || sink(Fault::Torn(100))),
    ("write into a good sink", || sink(Fault::None)),
    ("Berlin in March", || zoned("Europe/Berlin", 3, 12)),
    ("Berlin in August", || zoned("Europe/Berlin", 8, 12)),
    ("New York in March", || zoned("America/New_York", 3, 12)),
    ("Berlin, skipped", || zoned("Europe/Berlin", 3, 2)),
    ("no zone", || zoned("Europe/Nowhere", 3, 12)),
    ("date", || date("20240229", &[("VALUE", "DATE")])),
    ("date-time", || date("20240229T235959", &[])),
    ("zoned", || date("20240229T235959", &[("TZID", "Asia/Tokyo")])),
    ("no date", || date("20230229", &[("VALUE", "DATE")])),
    ("5 minutes before", || trigger("-PT5M")),
    ("1 week after", || trigger("P1W")),
    ("no trigger", || trigger("PT")),
    ("text property", || prop("SUMMARY;LANGUAGE=en:a\\,b\\n")),
    ("read folded", || read(FOLDED)),
    ("read wrong", || read(WRONG)),
    ("read nothing", || d(ip::read_components(""))),
    ("typed cut", || typed_read(CUT)),
    ("typed folded", || typed_read(FOLDED)),
    ("simple reader", || d(ip::read_calendar_simple(A).map(|c| c.iter().map(tree).collect::<Vec<_>>()).map_err(|e| e.input.len()))),
    ("component A", || d("BEGIN:VTODO\nSUMMARY:a\nEND:VTODO\n".parse::<CalendarComponent>().map(|c| mcomp_cc(&c)))),
    ("component B", || d("BEGIN:VTASK\nSUMMARY:b\nEND:VTASK\n".parse::<CalendarComponent>().map(|c| mcomp_cc(&c)))),
    ("unfold", || ip::unfold("a\r\n b\n\tc\r\nd")),
    ("unfold nothing", || ip::unfold("a,b")),
    ("uri property", || prop("URL;X=\"a:b\":http://a,b\\n")),
    ("typed by VALUE", || prop("X-P;VALUE=TEXT:a\\,b")),
    ("not typed", || prop("X-P:a\\,b")),
    ("wrong property", || prop("X-P;=:")),
    ("parameter", || d(ip::Parameter::try_from(";A=\"b:c\"").map(|p| (p.key.to_string(), p.val.map(|v| v.to_string()))))),
    ("wrong parameter", || d(ip::Parameter::try_from("A").map(|p| p.key.to_string()))),
    ("builder", || {
        let mut e = Event::new();
        e.summary("s").priority(11).sequence(7).class(Class::Private).status(EventStatus::Confirmed).url("http://x").location("here");
        let f = e.done();
        d((mcomp(&f), mcomp(&e)))
    }),
    ("builder, empty", || d((mcomp(&Event::new()), mcomp(&Todo::new()), mcomp(&Venue::new())))),
    ("alarm", || d(mcomp(&Alarm::display("d", Trigger::before_end(Duration::minutes(5))).duration_and_repeat(Duration::seconds(90), 2).done()))),
    ("alarm, plain", || d(mcomp(&Alarm::audio(stamp()).done()))),
    ("to-do", || {
        let t = Todo::new().due(stamp()).percent_complete(50).status(TodoStatus::InProcess).done();
        d((mcomp(&t), t.get_due(), t.get_percent_complete(), t.get_status(), t.get_priority()))
    }),
    ("new calendar", || d(mcal(&Calendar::new()).map_err(|f| f.what))),
    ("calendar, set", || {
        let c = Calendar::new().name("n").timezone("Europe/Berlin").ttl(&Duration::hours(3)).done();
        d((mcal(&c).map_err(|f| f.what), c.get_name().map(String::from), c.get_ttl()))
    }),
    ("calendar, emptied", || {
        let mut c = Calendar::new();
        c.push(ev("x")).name("y");
        let f = c.done();
        d((mcal(&f).map_err(|f| f.what), mcal(&c).map_err(|f| f.what)))
    }),
    ("ttl 5 min", || ttl("REFRESH-INTERVAL", "PT5M")),
    ("ttl 7 min", || ttl("X-PUBLISHED-TTL", "PT7M")),
    ("ttl none", || ttl("REFRESH-INTERVAL", "never")),
    ("type DTSTART", || d(Property::new("DTSTART", "v").value_type())),
    ("type SUMMARY", || d(Property::new("SUMMARY", "v").value_type())),
    ("type X-FOO", || d(Property::new("X-FOO", "v").value_type())),
    ("json A", || json(A)),
    ("json wrong", || json(WRONG)),
    ("deserialize nonsense", || d(serde_json::from_str::<ip::Component<'_>>("{\"name\":1}").map(|c| tree(&c)).map_err(|e| e.to_string()))),
    ("reserialize A", || ip::read_calendar(A).map(|c| c.to_string()).unwrap_or_default()),
    ("reserialize B", || ip::read_calendar(B).map(|c| c.to_string()).unwrap_or_default()),
    ("write a generic component", || match empty_generic("X-K") {
        CalendarComponent::Other(o) => mask(&Component::to_string(&o)),
        _ => String::new(),
    }),
    ("write nested", || {
        let mut e = ev("p");
        e.append_component(Todo::new().summary("k").done());
        mask(&Component::to_string(&e))
    }),
    ("write a property", || prop_string(Property::new("X-P", &"é".repeat(60)).add_parameter("K", "a:b").done()).unwrap_or_default()),
    ("zone from fields", || d(ymd_hm_tzid(2024, 3, 31, 12, 30, chrono_tz::Tz::Europe__Berlin).map(|t| DatePerhapsTime::from(t).to_property("X")).map(|p| mprop(&p)))),
    ("zone from no fields", || d(ymd_hm_tzid(2024, 13, 31, 12, 30, chrono_tz::Tz::Europe__Berlin))),
    ("zone of a value", || d(CalendarDateTime::from_date_time(chrono_tz::Tz::Asia__Tokyo.with_ymd_and_hms(2024, 3, 31, 1, 2, 3).unwrap()))),
    ("zone by name", || d((CalendarDateTime::try_from((NaiveDate::default().and_hms_opt(1, 2, 3).unwrap(), "Asia/Tokyo")), CalendarDateTime::try_from((NaiveDate::default().and_hms_opt(1, 2, 3).unwrap(), "Tokyo"))))),
];
pub const DEEP: usize = 32;

/// runs an operation, in this thread or in another one
fn result(op: usize, other: bool) -> String {
    let f = OPS[op].1;
    let go = move || match std::panic::catch_unwind(f) {
        Ok(s) => s,
        Err(_) => "panics".to_string(),
    };
    if !other {
        return go();
    }
    std::thread::spawn(go).join().unwrap_or_else(|_| "panics".into())
}
/// runs f in a forked process and gives what it returned; None: it died
fn forked(f: impl FnOnce() -> String) -> Option<String> {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let mut fd = [0; 2];
    unsafe {
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fd[0]);
            let s = f();
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = libc::write(fd[1], b.as_ptr().cast(), b.len());
                if n <= 0 {
                    libc::_exit(3);
                }
                b = &b[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut out = vec![];
        let ok = std::fs::File::from_raw_fd(fd[0]).read_to_end(&mut out).is_ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (pid > 0 && ok && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0).then(|| String::from_utf8_lossy(&out).into_owned())
    }
}
struct Search {
    base: Vec<String>,
    n: usize,
    threads: bool,
    nodes: *mut u64,
}
fn show(path: &[(usize, bool)]) -> String {
    path.iter().map(|(o, t)| format!("{}{}", OPS[*o].0, if *t { " (another thread)" } else { "" })).collect::<Vec<_>>().join(" -> ")
}
impl Search {
    /// the last operation of the path, then all continuations; empty: fine
    fn node(&self, path: &mut Vec<(usize, bool)>, left: usize) -> String {
        let (op, t) = path[path.len() - 1];
        let got = result(op, t);
        unsafe { *self.nodes += 1 };
        if got != self.base[op] {
            return format!("{}\nalone: {}\nnow:   {}", show(path), clip(&self.base[op]), clip(&got));
        }
        if left == 0 {
            return String::new();
        }
        for op in 0..self.n {
            for t in 0..=self.threads as usize {
                path.push((op, t == 1));
                match forked(|| self.node(path, left - 1)) {
                    Some(s) if s.is_empty() => {}
                    Some(s) => return s,
                    None => return format!("{} dies", show(path)),
                }
                path.pop();
            }
        }
        String::new()
    }
}
/// hist DEPTH N THREADS FIRST...: explores below the given operations
pub fn aux_hist(args: &[&str]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<usize> = args.iter().filter_map(|x| x.parse().ok()).collect();
    let (depth, n, threads) = (a[0], a[1], a[2] == 1);
    let nodes = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0).cast::<u64>()
    };
    let base: Vec<String> = (0..n).map(|o| forked(|| result(o, false)).unwrap_or_else(|| "dies".into())).collect();
    let s = Search { base, n, threads, nodes };
    let first: Vec<(usize, bool)> = a[3..].iter().map(|x| (x / 2, x % 2 == 1)).collect();
    // walk down to where this process has to begin
    let out = forked(|| {
        let mut path = vec![];
        for (k, x) in first.iter().enumerate() {
            path.push(*x);
            let bad = s.node(&mut path, if k + 1 == first.len() { depth - first.len() } else { 0 });
            if !bad.is_empty() {
                return bad;
            }
        }
        String::new()
    });
    let text = match out {
        Some(t) if t.is_empty() => format!("nodes {}", unsafe { *nodes }),
        Some(t) => t,
        None => format!("{} dies", show(&first)),
    };
    print!("{text}");
    0
}
/// env: prints what every operation gives when it is the first one
pub fn aux_env() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    for o in 0..OPS.len() {
        let s = forked(|| result(o, false)).unwrap_or_else(|| "dies".into());
        println!("{:016x}", h64(&s));
    }
    0
}
/// texts, and how they are read
fn seeds() -> Vec<(u8, String)> {
    let mut v: Vec<(u8, String)> = vec![
        (0, A.into()),
        (0, FOLDED.into()),
        (0, format!("BEGIN:VCALENDAR\nX-LONG:{}\nBEGIN:X-K\nP;Q=\"r:s\";T=u:{}\nEND:X-K\nEND:VCALENDAR\n", "0123456789".repeat(9), "abcdefghij".repeat(9))),
        (0, "BEGIN:VTODO\nBEGIN:VALARM\nTRIGGER;VALUE=DATE-TIME:20240101T000000Z\nACTION:DISPLAY\nEND:VALARM\nEND:VTODO\nBEGIN:VVENUE\nEND:VVENUE\n".into()),
    ];
    for l in ["SUMMARY;LANGUAGE=en:a\\,b\\n", "DTSTART;TZID=Europe/Berlin:20240331T123000", "DTSTART;VALUE=DATE:20240229", "DTSTART:20240229T235959Z", "TRIGGER;RELATED=END:-P1DT2H3M4S", "X-P;VALUE=TEXT;A=\"b:c\":d\\;e", "DTSTART;TZID=America/New_York:19700101T000000", "REFRESH-INTERVAL;VALUE=DURATION:PT12H", "REPEAT:12", "STATUS:CONFIRMED", "CLASS:PRIVATE"] {
        v.push((1, l.into()));
    }
    v
}
/// (only the order of a property's parameters is free)
fn loosely(text: &str) -> String {
    let mut out = String::new();
    for x in ip::unfold(text).lines() {
        let mut b: Vec<char> = x.chars().collect();
        b.sort();
        out.extend(b);
        out.push('\n');
    }
    out
}
/// everything that can be learnt from a text
fn learn(kind: u8, t: &str) -> String {
    let go = || {
        if kind == 0 {
            let u = ip::unfold(t);
            let simple = d(ip::read_calendar_simple(&u).map(|c| c.iter().map(tree).collect::<Vec<_>>()).map_err(|e| (e.code, e.input.len())));
            let again = ip::read_calendar(&u).map(|c| c.to_string()).unwrap_or_default();
            return format!("{u}\n{simple}\n{again}\n{}\n{}\n{}\n{}", read(t), typed_read(t), json(&u), d(t.parse::<CalendarComponent>().map(|c| mcomp_cc(&c))));
        }
        let Ok(p) = ip::Property::try_from(t) else { return prop(t) };
        let p = Property::from(p);
        let when = DatePerhapsTime::from_property(&p);
        let utc = match &when {
            Some(DatePerhapsTime::DateTime(c)) => c.try_into_utc(),
            _ => None,
        };
        let mut e = Event::new();
        e.append_property(p.clone());
        let mut c = Calendar::empty();
        c.append_property(p.clone());
        format!("{} {when:?} {utc:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {}", prop(t), Trigger::try_from(&p), p.value_type(), e.get_status(), e.get_class(), e.get_start(), c.get_ttl(), loosely(&mask(&Component::to_string(&e))), loosely(&prop_string(p).unwrap_or_default()))
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(go)).unwrap_or_else(|_| "panics".into())
}
fn near(t: &str) -> Vec<String> {
    let mut v = vec![];
    for (i, c) in t.char_indices() {
        let (a, b) = (&t[..i], &t[i + c.len_utf8()..]);
        v.push(format!("{a}{b}"));
        v.push(format!("{a}{c}{c}{b}"));
        v.push(a.to_string());
        v.push(b.to_string());
        let swap = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        for x in [swap, '0', '9', 'X', ' ', ':', ';', '"', '\\', '\n'] {
            if x != c {
                v.push(format!("{a}{x}{b}"));
            }
        }
    }
    v
}
fn said(t: String) -> i32 {
    print!("{t}");
    0
}
/// near SEED PART PARTS: every text near a seed before the seed and after it, in the same buffer and in others
pub fn aux_near(args: &[&str]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<usize> = args.iter().filter_map(|x| x.parse().ok()).collect();
    let (kind, seed) = seeds().swap_remove(a[0]);
    let Some(base) = forked(|| learn(kind, &seed)) else { return said("the seed dies".into()) };
    let mut n = 0;
    for e in near(&seed).iter().skip(a[1]).step_by(a[2]) {
        // the text near it first, then the seed
        let first = forked(|| {
            let mut buf = String::with_capacity(8192);
            buf.push_str(e);
            let r = learn(kind, &buf);
            buf.clear();
            buf.push_str(&seed);
            let s = learn(kind, &buf);
            buf.clear();
            buf.push_str(e);
            let again = learn(kind, &buf);
            if s != base {
                return format!("!{seed:?} after {e:?}\nalone: {}\nnow:   {}", clip(&base), clip(&s));
            }
            if r != again {
                return format!("!{e:?} again after {seed:?}\nfirst: {}\nnow:   {}", clip(&r), clip(&again));
            }
            r
        });
        let Some(alone) = first else { return said(format!("{e:?} -> {seed:?} dies")) };
        if alone.starts_with('!') {
            return said(alone);
        }
        let second = forked(|| {
            let mut buf = String::with_capacity(8192);
            buf.push_str(&seed);
            let s = learn(kind, &buf);
            buf.clear();
            buf.push_str(e);
            let r = learn(kind, &buf);
            let own = learn(kind, e);
            if s == base && r == alone && own == alone {
                return String::new();
            }
            format!("{e:?} after {seed:?}\nalone: {}\nnow:   {}\nand:   {}", clip(&alone), clip(&r), clip(&own))
        });
        match second {
            Some(s) if s.is_empty() => n += 5,
            Some(s) => return said(s),
            None => return said(format!("{seed:?} -> {e:?} dies")),
        }
    }
    said(format!("nodes {n}"))
}
/// items for long rows: one for each name and each line of the catalogue
fn items() -> Vec<TProp> {
    let mut v = catalogue();
    for n in names_in_use() {
        v.push(tp(&n, &[], "a\\,b"));
        v.push(tp(&n, &[("VALUE", Some("TEXT"))], "20240101T000000Z"));
        v.push(tp(&n, &[("VALUE", Some("DATE-TIME")), ("X-K", Some("v"))], "PT5M"));
        v.push(tp("X-P", &[(&n, Some("v"))], &n));
    }
    v
}
fn item(t: &TProp) -> String {
    let l = spell_prop(t);
    let mut c = Calendar::empty();
    let p = Property::from(raw_tprop(t));
    c.append_property(p.clone());
    let mut e = Event::new().uid("u").timestamp(stamp()).done();
    e.append_property(p.clone()).append_multi_property(p);
    c.push(e);
    format!("{}\n{}", learn(1, &l), loosely(&c.to_string()))
}
/// rows: all items alone, and in rows of all of them in several orders
pub fn aux_rows(args: &[&str]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let all = items();
    let n = all.len();
    let way: usize = args[0].parse().unwrap_or(0);
    // fresh processes for all
    let base: Vec<u64> = all.iter().map(|t| forked(|| item(t)).map_or(0, |s| h64(&s))).collect();
    let order: Vec<usize> = match way {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).flat_map(|i| [i, i]).collect(),
        w => (0..n).map(|i| (i * [7919, 104_729, 1_299_709][w % 3] + w) % n).collect(),
    };
    for (k, &i) in order.iter().enumerate() {
        if h64(&item(&all[i])) != base[i] {
            return said(format!("{:?} as the {k}. of a row (order {way})", all[i]));
        }
    }
    said(format!("nodes {}", order.len() + n))
}
fn helper(args: &[String], st: &mut Stats) -> R {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("aux").args(args);
    let Ok(out) = c.output() else { return fail("harness", "no process") };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    match text.strip_prefix("nodes ").and_then(|t| t.parse::<u64>().ok()) {
        Some(k) if out.status.success() => {
            st.steps(k);
            Ok(())
        }
        _ => fail("an operation depends on what happened before", format!("{text} {}", String::from_utf8_lossy(&out.stderr))),
    }
}
fn search(depth: usize, n: usize, threads: bool, first: &[usize], st: &mut Stats) -> R {
    let mut args = vec!["hist".to_string()];
    args.extend([depth, n, threads as usize].iter().chain(first).map(|x| x.to_string()));
    helper(&args, st)
}

pub fn run(run: &Run) {
    run.assume("generated identifiers and time stamps count as alike; the operations are those of the list in c25.rs");
    let k = OPS.len();
    // (states: the call sequences themselves)
    run.cases("pairs", &format!("all sequences of 2 of {k} operations, each in the main or in another thread, each sequence from a fresh process"), k * 2, |i, st| {
        st.state(&i);
        st.note(|| OPS[i / 2].0.to_string());
        search(2, k, true, &[i], st)
    });
    let n = run.q(DEEP, k);
    run.cases("triples", &format!("all sequences of 3 of {n} operations in one thread, each from a fresh process"), n, |i, st| {
        st.state(&i);
        search(3, n, false, &[i * 2], st)
    });
    for (name, n, depth) in [("sequences of four", run.q(8, 28), 4), ("sequences of five", run.q(5, 14), 5)] {
        run.cases(name, &format!("all sequences of {depth} of {n} operations, each from a fresh process"), n * n, |i, st| {
            st.state(&i);
            search(depth, n, false, &[i / n * 2, i % n * 2], st)
        });
    }
    let t = run.q(6, 14);
    run.cases("threads", &format!("all sequences of 3 of {t} operations, each in the main or in another thread"), t * 2, |i, st| {
        st.state(&i);
        search(3, t, true, &[i], st)
    });
    // many times the same: counters
    let times = run.q(12_000, 100_000);
    run.cases("repetitions", &format!("every operation {times} times in a row, all other operations afterwards"), k, |i, st| {
        let base: Vec<String> = (0..k).map(|o| result(o, true)).collect();
        for n in 0..times {
            let s = result(i, false);
            ensure!(s == base[i], "an operation depends on what happened before", format!("{} for the {n}. time\nfirst: {}\nnow:   {}", OPS[i].0, base[i], s));
            st.step();
        }
        for (o, b) in base.iter().enumerate() {
            let s = result(o, false);
            ensure!(s == *b, "an operation depends on what happened before", format!("{} after {} many times\nfirst: {b}\nnow:   {s}", OPS[o].0, OPS[i].0));
            st.step();
        }
        st.state(&i);
        Ok(())
    });
    let s = seeds().len();
    let total: usize = seeds().iter().map(|s| near(&s.1).len()).sum();
    run.cases("texts near each other", &format!("{total} texts one edit away from {s} texts, before and after them, in the same buffer and in others, each pair from a fresh process"), s * 16, |i, st| {
        st.state(&i);
        helper(&["near".into(), (i / 16).to_string(), (i % 16).to_string(), "16".into()], st)
    });
    let all = items();
    let ways = run.q(8, 64);
    run.cases("rows", &format!("{} properties, each alone in a fresh process and in {ways} rows of all of them", all.len()), ways, |i, st| {
        st.state(&i);
        helper(&["rows".into(), i.to_string()], st)
    });
    // the environment
    let vars: Vec<(&str, &str)> = ["UTC", "", "America/New_York", "Europe/Berlin", "Asia/Kathmandu", "Pacific/Kiritimati", "Etc/GMT+12", "<+0545>-5:45", "<-1159>11:59", "nonsense", ":/nonexistent", "EST5EDT,M3.2.0,M11.1.0"]
        .map(|z| ("TZ", z))
        .into_iter()
        .chain(["de_DE.UTF-8", "tr_TR.UTF-8", "C", "ja_JP", "x"].into_iter().flat_map(|l| [("LANG", l), ("LC_ALL", l)]))
        .chain([("ICAL", "1"), ("DEBUG", "1"), ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "1"), ("SOURCE_DATE_EPOCH", "0"), ("HOME", "/nonexistent"), ("PATH", ""), ("TMPDIR", "/nonexistent"), ("COLUMNS", "20"), ("NO_COLOR", "1"), ("TERM", "dumb"), ("USER", "x"), ("PRODID", "x")])
        .collect();
    let here = env(None);
    run.cases("environment", &format!("{} settings of TZ, LANG and other variables x {k} operations, compared with this environment's", vars.len() + 1), vars.len() + 1, |i, st| {
        let got = env(Some(vars.get(i).copied()));
        same!("results in another environment", format!("{:?}", vars.get(i)), k, got.len());
        for (o, (a, b)) in here.iter().zip(&got).enumerate() {
            ensure!(a == b, "an operation depends on the environment", format!("{} with {:?} set", OPS[o].0, vars.get(i)));
            st.step();
        }
        st.state(&i);
        Ok(())
    });
}
/// all results in another environment: as it is, one variable set, or none at all
fn env(with: Option<Option<(&str, &str)>>) -> Vec<String> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(["aux", "env"]);
    match with {
        None => {}
        Some(Some((k, v))) => {
            c.env(k, v);
        }
        Some(None) => {
            c.env_clear();
        }
    }
    let out = c.output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
    out.lines().map(|l| l.to_string()).collect()
}
