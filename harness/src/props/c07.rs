//! C07: no input makes the library panic, abort or hang.
//!
//! The monitor is the execution itself: a panic (arithmetic overflow included) is caught per
//! execution, a dead process is traced to the execution by the supervisor, and an execution that
//! does not return within HANG_SECS is reported by the watchdog.
use super::gen::*;
use super::*;
use std::fmt::Write;

fn sink(x: impl std::fmt::Debug) {
    std::hint::black_box(&x);
}
fn poke_prop(p: &Property) {
    sink(DatePerhapsTime::from_property(p).map(|d| (d.date_naive(), d.to_property("DTSTART"))));
    if let Ok(t) = Trigger::try_from(p) {
        sink((t.related(), t.as_duration(), t.as_date_time().map(|d| d.try_into_utc())));
        sink(Property::from(t));
    }
    sink(p.value_type());
    let mut q = p.clone();
    sink(TryInto::<String>::try_into(q.done()).is_ok());
}
fn poke_base<C: Component>(c: &C) {
    sink((c.get_timestamp(), c.get_created(), c.get_last_modified()));
    for d in [c.get_start(), c.get_end()].into_iter().flatten() {
        if let DatePerhapsTime::DateTime(t) = &d {
            sink(t.try_into_utc());
        }
        sink(d.date_naive());
    }
    sink((c.get_priority(), c.get_summary(), c.get_description(), c.get_uid(), c.get_sequence(), c.get_class(), c.get_url()));
    c.properties().values().chain(c.multi_properties().values().flatten()).for_each(poke_prop);
    c.components().iter().for_each(poke_base);
}
/// every getter, recursively
pub fn poke(c: &CalendarComponent) {
    match c {
        CalendarComponent::Event(e) => {
            poke_base(e);
            sink((e.get_status(), e.get_location()));
        }
        CalendarComponent::Todo(t) => {
            poke_base(t);
            sink((t.get_status(), t.get_location(), t.get_due(), t.get_completed(), t.get_percent_complete()));
        }
        CalendarComponent::Venue(v) => {
            poke_base(v);
            sink((v.get_street_address(), v.get_extended_address(), v.get_locality(), v.get_region(), v.get_country(), v.get_postal_code()));
        }
        CalendarComponent::Other(o) => poke_base(o),
        _ => {}
    }
    sink((c.as_event().is_some(), c.as_todo().is_some()));
}
fn poke_cal(c: &Calendar) -> usize {
    sink((c.get_name(), c.get_description(), c.get_timezone(), c.get_ttl()));
    c.properties.iter().for_each(poke_prop);
    c.components.iter().for_each(poke);
    let s = c.to_string();
    sink(s.parse::<Calendar>().is_ok());
    s.len()
}
fn poke_tree(c: &ip::Component) {
    let s = ip::Calendar { properties: c.properties.clone(), components: vec![c.clone()] }.to_string();
    sink(ip::read_components(&s).is_ok());
    fn props(c: &ip::Component) {
        for p in &c.properties {
            sink(DatePerhapsTime::try_from(p).is_ok());
            sink(p.to_string().len());
        }
        sink(c.find_prop("SUMMARY").is_some());
        c.components.iter().for_each(props);
    }
    props(c);
}
/// everything the library can do with a text; the outcome of each entry point
pub fn exercise(text: &str, json: bool) -> String {
    let mut log = String::new();
    let unf = ip::unfold(text);
    let mut texts = vec![text];
    if unf != text {
        texts.push(&unf);
    }
    for t in texts {
        match ip::read_components(t) {
            Ok(cs) => {
                let _ = write!(log, "c{}", cs.len());
                cs.iter().for_each(poke_tree);
                if json {
                    let j = serde_json::to_string(&cs).unwrap();
                    sink(serde_json::from_str::<Vec<ip::Component>>(&j).is_ok());
                }
                let n = poke_cal(&Calendar::from(cs.clone()));
                let _ = write!(log, "t{}", n > 0);
                for c in cs {
                    poke(&CalendarComponent::from(c));
                }
            }
            Err(e) => {
                let _ = write!(log, "ce{}", !e.is_empty());
            }
        }
        match ip::read_calendar(t) {
            Ok(c) => {
                let _ = write!(log, "k{}{}", c.properties.len(), c.components.len());
                sink(c.to_string().len());
            }
            Err(e) => {
                let _ = write!(log, "ke{}", !e.is_empty());
            }
        }
        let _ = write!(log, "s{}", ip::read_calendar_simple(t).map_err(|e| format!("{e:?}").len()).is_ok());
        match ip::Property::try_from(t) {
            Ok(p) => {
                let _ = write!(log, "p{}", p.params.len());
                sink(DatePerhapsTime::try_from(&p).is_ok());
                sink(p.to_string().len());
                poke_prop(&Property::from(p));
            }
            Err(e) => {
                let _ = write!(log, "pe{}", !e.is_empty());
            }
        }
        match ip::Parameter::try_from(t) {
            Ok(p) => {
                let _ = write!(log, "m{}", p.val.is_some());
                sink(Parameter::from(p));
            }
            Err(e) => {
                let _ = write!(log, "me{}", !e.is_empty());
            }
        }
        let _ = write!(log, "o{}", ip::Component::try_from(t).map(|c| poke_tree(&c)).map_err(|e| e.len()).is_ok());
        let _ = write!(log, "f{}", t.parse::<CalendarComponent>().map(|c| poke(&c)).map_err(|e| e.len()).is_ok());
        let _ = write!(log, "r{}", t.parse::<Property>().map(|p| poke_prop(&p)).map_err(|e| e.len()).is_ok());
        let _ = write!(log, "v{:?}", t.parse::<ValueType>().is_ok());
        sink(ip::ParseString::from(t).unescape_text());
    }
    match text.parse::<Calendar>() {
        Ok(c) => {
            poke_cal(&c);
            log.push('C')
        }
        Err(e) => {
            let _ = write!(log, "CE{}", !e.is_empty());
        }
    }
    log
}
/// CPU time of this thread, in seconds
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
fn go(text: &str, json: bool, st: &mut Stats) -> R {
    // recorded first, so that a crash can be told from the replay output
    st.note(|| format!("{:?}", clip(text)));
    let log = exercise(text, json);
    st.step();
    st.state(&log);
    Ok(())
}

/// a rich document, one of everything
pub fn rich() -> String {
    let mut lines: Vec<String> = vec!["BEGIN:VCALENDAR".into(), "VERSION:2.0".into(), "PRODID:-//x//y\\, z//EN".into()];
    lines.push("REFRESH-INTERVAL;VALUE=DURATION:PT1H".into());
    lines.push("X-PUBLISHED-TTL:P1W".into());
    lines.push("BEGIN:VEVENT".into());
    for l in [
        "UID:1@x",
        "DTSTAMP:20240101T000000Z",
        "DTSTART;TZID=Europe/Berlin:20240331T023000",
        "DTEND;VALUE=DATE:20240401",
        "SUMMARY;LANGUAGE=en:a\\, b\\;c\\nd \"e\"",
        "ATTENDEE;CN=\"A: B\";ROLE=CHAIR:mailto:a@b.c",
        "PRIORITY:7",
        "DESCRIPTION:l\u{f6}ng",
        " folded",
        "BEGIN:VALARM",
        "ACTION:DISPLAY",
        "TRIGGER;RELATED=END:-PT15M",
        "END:VALARM",
        "END:VEVENT",
        "BEGIN:VTODO",
        "DUE:20240101T000000",
        "COMPLETED:20240101T000000Z",
        "PERCENT-COMPLETE:50",
        "STATUS:IN-PROCESS",
        "END:VTODO",
        "END:VCALENDAR",
    ] {
        lines.push(l.into());
    }
    join(&lines, "\n")
}

pub fn aux_deep(n: usize) -> i32 {
    let text = format!("{}{}", "BEGIN:A\n".repeat(n), "END:A\n".repeat(n));
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        sink(text.parse::<Calendar>().map(|c| c.to_string().len()));
        sink(ip::read_components(&text).map(|c| c.len()));
        sink(ip::read_components(&text[..text.len() / 2]).is_ok());
    });
    t.unwrap().join().map(|_| 0).unwrap_or(1)
}

pub fn run(run: &Run) {
    run.assume(&format!("an execution that does not return within {HANG_SECS} s counts as not terminating; nesting is bounded by 1000 levels on a 2 MB stack (deeper: recorded finding)"));
    let toks = ["BEGIN:", "END:", "A", "VCALENDAR", "\n", "\r\n", ":", ";", "=", "\"", " ", "\\", "\u{3000}"];
    let k = run.q(5, 6);
    run.cases("token texts", &format!("all texts of <= {k} of 13 tokens through every entry point, getter and writer"), words_upto(13, k), |i, st| {
        go(&spell(i, &toks), i % 16 == 0, st)
    });
    // inside of a component
    let pt = ["P", "SUMMARY", ":", ";", "=", "\"", ",", "\\", "\n", " ", "BEGIN", "END", "é", "\t"];
    let k = run.q(4, 5);
    run.cases("lines inside a component", &format!("all texts of <= {k} of 14 tokens between BEGIN:VEVENT and END:VEVENT"), words_upto(14, k) * 2, |i, st| {
        let w = spell(i / 2, &pt);
        if i % 2 == 0 {
            go(&format!("BEGIN:VEVENT\n{w}\nEND:VEVENT\n"), false, st)
        } else {
            go(&format!("BEGIN:VEVENT\nX;{w}"), false, st)
        }
    });
    // values of typed properties
    let vt = ["P", "T", "1", "0", "4294967296", "18446744073709551616", "D", "W", "H", "M", "S", "Y", "-", "+", "Z", "20241231", "T235960", ".", "é"];
    let k = run.q(3, 4);
    let params = ["", ";VALUE=DATE", ";VALUE=DATE-TIME", ";VALUE=DURATION", ";TZID=Europe/Berlin", ";TZID", ";VALUE", ";RELATED=X;VALUE=X"];
    run.cases(
        "values of typed properties",
        &format!("all values of <= {k} of 19 tokens in all typed properties of a calendar, event, to-do and alarm x 8 parameter lists"),
        words_upto(19, k) * params.len(),
        |i, st| {
            let v = spell(i / params.len(), &vt);
            let p = params[i % params.len()];
            let mut t = String::from("BEGIN:VCALENDAR\n");
            for n in ["REFRESH-INTERVAL", "X-PUBLISHED-TTL", "NAME"] {
                let _ = writeln!(t, "{n}{p}:{v}");
            }
            t.push_str("BEGIN:VEVENT\n");
            for n in ["DTSTART", "DTEND", "DTSTAMP", "CREATED", "LAST-MODIFIED", "PRIORITY", "SEQUENCE", "CLASS", "STATUS", "DURATION"] {
                let _ = writeln!(t, "{n}{p}:{v}");
            }
            let _ = writeln!(t, "BEGIN:VALARM\nTRIGGER{p}:{v}\nREPEAT{p}:{v}\nDURATION{p}:{v}\nEND:VALARM\nEND:VEVENT");
            let _ = writeln!(t, "BEGIN:VTODO\nDUE{p}:{v}\nCOMPLETED{p}:{v}\nPERCENT-COMPLETE{p}:{v}\nSTATUS{p}:{v}\nEND:VTODO\nEND:VCALENDAR");
            let c: Calendar = match t.parse() {
                Ok(c) => c,
                Err(e) => return fail("well-formed document rejected", e),
            };
            st.step();
            st.note(|| t.clone());
            poke_cal(&c);
            for comp in ip::read_components(&t).map_err(|e| Fail { known: None, what: "rejected".into(), detail: e })? {
                poke_tree(&comp);
            }
            let al = c.components[0].as_event().unwrap().components()[0].properties().get("TRIGGER").map(|p| Trigger::try_from(p).is_ok());
            st.state(&(c.get_ttl(), al, c.components[0].as_event().unwrap().get_start().is_some(), &v));
            Ok(())
        },
    );
    // durations beyond what fits
    let ns: Vec<String> = {
        let mut v: Vec<String> = (0..=run.q(70, 130)).map(|b| format!("{}", 1u128 << b.min(127))).collect();
        v.extend((1..=run.q(30, 60)).map(|d| "9".repeat(d)));
        v.extend([u32::MAX as u64, i32::MAX as u64, i64::MAX as u64, u64::MAX, i64::MAX as u64 / 1000, u64::MAX / 604800, u64::MAX / 86400, u64::MAX / 3600].iter().flat_map(|x| [x - 1, *x, x.saturating_add(1)]).map(|x| x.to_string()));
        v
    };
    let forms = ["P{}W", "P{}D", "PT{}H", "PT{}M", "PT{}S", "P{}Y", "P{}M", "P{}DT{}H{}M{}S", "P{}Y{}M{}DT{}H{}M{}S", "PT0.{}S", "PT{}.{}S", "P{}", "PT{}", "{}"];
    run.cases("huge numbers", &format!("{} numbers x {} duration spellings x 3 signs in durations, triggers and integers", ns.len(), forms.len()), ns.len() * forms.len() * 3, |i, st| {
        let mut d = Dec(i);
        let sign = d.of(&["", "-", "+"]);
        let v = format!("{sign}{}", forms[d.n(forms.len())].replace("{}", &ns[d.0]));
        let t = format!("BEGIN:VCALENDAR\nREFRESH-INTERVAL;VALUE=DURATION:{v}\nX-PUBLISHED-TTL:{v}\nBEGIN:VTODO\nDURATION:{v}\nPRIORITY:{v}\nSEQUENCE:{v}\nPERCENT-COMPLETE:{v}\nDTSTART:{v}\nDUE;VALUE=DATE:{v}\nBEGIN:VALARM\nTRIGGER:{v}\nREPEAT:{v}\nEND:VALARM\nEND:VTODO\nEND:VCALENDAR\n");
        go(&t, false, st)
    });
    // edits of a rich document
    let doc = rich();
    let chars: Vec<usize> = doc.char_indices().map(|(p, _)| p).chain([doc.len()]).collect();
    let ins = ["", "\n", "\r", "\r\n", ":", ";", "=", "\"", " ", "\n ", "\\", "\u{0}", "\u{3000}", "BEGIN:", "END:", "\nEND:VEVENT\n", "\nBEGIN:X\n"];
    run.cases("edits of a document", &format!("a document of {} characters: insert or replace by 17 texts at every position, cut before and after every position", chars.len()), chars.len() * 36, |i, st| {
        let mut d = Dec(i);
        let op = d.n(36);
        let at = chars[d.0];
        let next = chars.get(d.0 + 1).copied().unwrap_or(at);
        let t = match op {
            34 => doc[..at].to_string(),
            35 => doc[at..].to_string(),
            op if op % 2 == 0 => format!("{}{}{}", &doc[..at], ins[op / 2], &doc[at..]),
            op => format!("{}{}{}", &doc[..at], ins[op / 2], &doc[next..]),
        };
        go(&t, false, st)
    });
    run.cases("every scalar", "every scalar value 3 times in a value, a parameter, a name, before BEGIN, as white space of a fold", SCALARS / run.q(8, 1), |i, st| {
        let c = scalar(i * run.q(8, 1) + run.q(i % 8, 0));
        let text = match i % 4 {
            0 => format!("BEGIN:VEVENT\nSUMMARY:{c}{c}{c}\nX;P={c}{c}:{c}\nEND:VEVENT\n"),
            1 => format!("{c}BEGIN:VEVENT\n{c}{c}:x\nEND:VEVENT{c}"),
            2 => format!("BEGIN:{c}{c}\n{c}\nEND:{c}{c}\n"),
            _ => format!("BEGIN:VEVENT\nSUMMARY:{}{c}{c}x\n{c}y\nEND:VEVENT\n", "x".repeat(70 + i / 4 % 6)),
        };
        go(&text, i % 64 == 0, st)
    });
    // pumped inputs: contexts x repeated words x endings
    let ctx = ["", "BEGIN:A\n", "BEGIN:A\nP:", "BEGIN:A\nSUMMARY:", "BEGIN:A\nP;K=", "BEGIN:A\nP;K=\"", "BEGIN:A\nP;", "BEGIN:", "P", "BEGIN:A\nEND:A\n"];
    let pt = ["BEGIN:A\n", "END:A\n", "P:v\n", "\n", " ", ":", ";", "=", "\"", "\\", "k", "\r\n", "\u{3000}", "é", ",", "\t"];
    let ends = ["", "\n", ":v\nEND:A\n", "\"", "\nEND:A\n"];
    let len = run.q(300, 700);
    let pw = run.q(2, 3);
    let pumps: Vec<String> = (1..words_upto(16, pw)).map(|i| spell(i, &pt)).filter(|s| run.tier == Tier::Quick || s.len() <= 24).collect();
    run.cases("repetitions", &format!("10 contexts x {} repeated words of <= {pw} of 16 tokens, {len} times x 5 endings", pumps.len()), ctx.len() * pumps.len() * ends.len(), |i, st| {
        let mut d = Dec(i);
        let e = d.of(&ends);
        let c = d.of(&ctx);
        go(&format!("{c}{}{e}", pumps[d.0].repeat(len)), false, st)
    });
    // large sizes: the running time must stay in proportion
    let m = run.q(3, 10);
    let shapes: Vec<(&str, Box<dyn Fn(usize) -> String + Sync + '_>)> = vec![
        ("nested", Box::new(|n| format!("{}{}", "BEGIN:A\n".repeat(n), "END:A\n".repeat(n)))),
        ("nested with properties", Box::new(|n| format!("{}{}", "BEGIN:A\nP:v\n".repeat(n), "Q:w\nEND:A\n".repeat(n)))),
        ("nested, cut", Box::new(|n| "BEGIN:A\nP:v\n".repeat(n))),
        ("nested, wrong end", Box::new(|n| format!("{}END:B\n{}", "BEGIN:A\n".repeat(n), "END:A\n".repeat(n - 1)))),
        ("parameters", Box::new(|n| format!("BEGIN:A\nP{}:v\nEND:A\n", (0..n * m).map(|k| format!(";K{k}=v")).collect::<String>()))),
        ("quoted parameters", Box::new(|n| format!("BEGIN:A\nP{}:v\nEND:A\n", ";K=\"v:w\"".repeat(n * m)))),
        ("valueless parameters", Box::new(|n| format!("BEGIN:A\nP{}:v\nEND:A\n", ";K".repeat(n * m)))),
        ("properties", Box::new(|n| format!("BEGIN:A\n{}END:A\n", (0..n * m).map(|k| format!("P{k}:v\n")).collect::<String>()))),
        ("siblings", Box::new(|n| format!("BEGIN:A\n{}END:A\n", "BEGIN:B\nP:v\nEND:B\n".repeat(n * m)))),
        ("roots", Box::new(|n| "BEGIN:B\nP:v\nEND:B\n".repeat(n * m))),
        ("long value", Box::new(|n| format!("BEGIN:A\nSUMMARY:{}\nEND:A\n", "é \\, ".repeat(n * 100)))),
        ("white space", Box::new(|n| format!("BEGIN:A\nSUMMARY:{}\nX:{}\nEND:A\n", "\u{3000}".repeat(n * 100), " ".repeat(n * 100)))),
        ("folds", Box::new(|n| format!("BEGIN:A\nSUMMARY:{}\nEND:A\n", "x\n ".repeat(n * 100)))),
        ("blank lines", Box::new(|n| format!("BEGIN:A\n{}P:v\n{}END:A\n", "\n".repeat(n * 100), "\r\n".repeat(n * 100)))),
        ("alarms", Box::new(|n| format!("BEGIN:VEVENT\n{}END:VEVENT\n", "BEGIN:VALARM\nTRIGGER:-PT5M\nEND:VALARM\n".repeat(n * m)))),
        ("repeated", Box::new(|n| format!("BEGIN:VEVENT\n{}END:VEVENT\n", "ATTENDEE:x\n".repeat(n * m)))),
        ("long name", Box::new(|n| format!("BEGIN:{0}\n{0}:v\nEND:{0}\n", "N".repeat(n * 100)))),
        ("quotes", Box::new(|n| format!("BEGIN:A\nP;K={}:v\nEND:A\n", "\"".repeat(n * m)))),
        ("backslashes", Box::new(|n| format!("BEGIN:A\nSUMMARY:{}\nEND:A\n", "\\".repeat(n * 100)))),
        ("cut line", Box::new(|n| format!("BEGIN:A\nSUMMARY{}", ";K=v".repeat(n * m)))),
        ("junk", Box::new(|n| format!("BEGIN:A\n{}", "junk without colon\n".repeat(n * m)))),
    ];
    let ns: Vec<usize> = run.q(vec![1, 10, 50, 100, 200, 300, 500, 700, 1000], (1..=25).map(|k| k * 40).collect());
    run.cases("large documents", &format!("{} shapes x {} sizes up to 1000 levels, {} items, 10^5 characters; CRLF and LF", shapes.len(), ns.len(), m * 1000), shapes.len() * ns.len() * 2, |i, st| {
        let mut d = Dec(i);
        let crlf = d.bool();
        let s = &shapes[d.n(shapes.len())];
        st.note(|| s.0.to_string());
        let mut t = s.1(ns[d.0]);
        if crlf {
            t = t.replace("\r\n", "\n").replace('\n', "\r\n");
        }
        go(&t, false, st)
    });
    // a megabyte: time in proportion to the size
    let flat: Vec<&(&str, Box<dyn Fn(usize) -> String + Sync + '_>)> = shapes.iter().filter(|s| !s.0.starts_with("nested")).collect();
    let mb = run.q(2, 8);
    run.cases("a megabyte", &format!("{} flat shapes of {mb} MB, CRLF and LF: unfold, read, convert, write within a CPU time of 6 s per MB", flat.len()), flat.len() * 2, |i, st| {
        let s = flat[i / 2];
        let unit = (s.1(1000).len() as f64 / 1000.0).max(1.0);
        let mut t = s.1((mb as f64 * 1e6 / unit) as usize);
        if i % 2 == 1 {
            t = t.replace("\r\n", "\n").replace('\n', "\r\n");
        }
        st.note(|| format!("{}: {} octets", s.0, t.len()));
        let mut last = cpu();
        let mut log = vec![];
        let mut step = |what: &str| -> R {
            let now = cpu();
            let took = now - last;
            last = now;
            log.push(format!("{what} {took:.2}s"));
            ensure!(took < 6.0 * mb as f64, "running time out of proportion", format!("{} ({} octets): {}", s.0, t.len(), log.join(", ")));
            st.step();
            Ok(())
        };
        let unf = ip::unfold(&t);
        step("unfold")?;
        let ok = ip::read_components(&unf).map(|c| c.len()).map_err(|e| e.len());
        step("read_components")?;
        sink(ip::read_calendar_simple(&unf).is_ok());
        step("read_calendar_simple")?;
        if let Ok(c) = ip::read_calendar(&unf) {
            step("read_calendar")?;
            sink(c.to_string().len());
            step("write the tree")?;
            let c = Calendar::from(c);
            step("convert")?;
            sink(c.to_string().len());
            step("write")?;
        }
        sink(t.parse::<Calendar>().is_ok());
        step("parse")?;
        sink(t.parse::<CalendarComponent>().is_ok());
        step("parse a component")?;
        let log = log.join(", ");
        st.note(|| log);
        st.state(&(s.0, i % 2, ok.is_ok()));
        Ok(())
    });
    // very deep nesting, in a process of its own
    let depths = [300, 1000, 200_000];
    run.cases("nesting in a process of its own", "300, 1000 and 200000 levels on a 2 MB stack", depths.len(), |i, st| {
        let n = depths[i];
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["aux", "deep", &n.to_string()]).stderr(std::process::Stdio::null()).output();
        st.step();
        st.state(&n);
        match out {
            Ok(o) if o.status.code() == Some(0) => Ok(()),
            Ok(o) if n > 10_000 && o.status.code().is_none() => known("KF-DEEP-NEST", "documents nested tens of thousands of levels deep overflow the stack", format!("{n} levels: {:?}", o.status)),
            o => fail("deeply nested document crashes", format!("{n} levels: {o:?}")),
        }
    });
}
