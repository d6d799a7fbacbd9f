//! C04: a serialized calendar parses back to an equal calendar.
use super::gen::*;
use super::*;

/// serialize, compare with the model, parse, compare again; then the fixpoint
pub fn round(m: &MCal, st: &mut Stats) -> R {
    let built = calendar(m);
    let shown = mcal(&built)?;
    same!("the built calendar is not what was put in", format!("{m:?}"), *m, shown);
    round_built(&built, m, st)
}
pub fn round_built(built: &Calendar, m: &MCal, st: &mut Stats) -> R {
    let out = built.to_string();
    st.step();
    let mut gen = vec![];
    check_written_cal(m, &out, &mut gen)?;
    let cal: Calendar = match out.parse() {
        Ok(c) => c,
        Err(e) => return fail("serialized calendar does not parse", format!("{}\n{}", clip(&e), clip(&out))),
    };
    st.step();
    let mut it = gen.iter();
    let exp = MCal { props: m.props.clone(), comps: m.comps.iter().map(|c| with_generated(c, &mut it)).collect() };
    let got = mcal(&cal)?;
    if got != exp {
        return fail("calendar changed by writing and reading", diff(&exp, &got, &out));
    }
    // again: the same text up to parameter order, and an equal calendar
    let out2 = cal.to_string();
    st.step();
    check_written_cal(&exp, &out2, &mut vec![])?;
    let cal2: Calendar = match out2.parse() {
        Ok(c) => c,
        Err(e) => return fail("second serialization does not parse", e),
    };
    ensure!(cal2 == cal, "second round trip changed the calendar", clip(&out2));
    if gen.iter().all(|(a, b)| a.is_empty() && b.is_empty()) {
        ensure!(cal == *built, "parsed calendar is not equal to the original", clip(&out));
    }
    st.state(&exp);
    st.note(|| out.clone());
    Ok(())
}
pub fn diff(exp: &MCal, got: &MCal, out: &str) -> String {
    format!("expected {}\ngot      {}\ntext {:?}", clip(&format!("{exp:?}")), clip(&format!("{got:?}")), clip(out))
}

pub fn stamped(kind: &str) -> MComp {
    let mut c = MComp::new(kind);
    c.set(MProp::new("DTSTAMP", "20240229T235959Z"));
    c.set(MProp::new("UID", "uid,1"));
    c
}
/// components of all sorts
pub fn components_catalogue() -> Vec<MComp> {
    let mut v = vec![];
    let display = {
        let mut a = MComp::new("VALARM");
        a.set(MProp::new("ACTION", "DISPLAY"));
        a.set(MProp::new("TRIGGER", "-PT900S").with("RELATED", "END"));
        a.set(MProp::new("DESCRIPTION", "wake, up;\n\\"));
        a
    };
    let audio = {
        let mut a = stamped("VALARM");
        a.set(MProp::new("ACTION", "AUDIO"));
        a.set(MProp::new("TRIGGER", "20240101T000000Z").with("VALUE", "DATE-TIME"));
        a.set(MProp::new("DURATION", "PT60S"));
        a.set(MProp::new("REPEAT", "4"));
        a.add_multi(MProp::new("ATTACH", "ftp://x/y;z"));
        a
    };
    for kind in ["VEVENT", "VTODO", "VVENUE", "VJOURNAL"] {
        v.push(MComp::new(kind));
        let mut c = stamped(kind);
        c.set(MProp::new("SUMMARY", "a, b; c: d\\ \"e\"\n"));
        c.set(MProp::new("DTSTART", "20240101").with("VALUE", "DATE"));
        c.set(MProp::new("X-CUSTOM", "raw,;\\n:\"").with("P", "a:b;c").with("Q", ""));
        c.add_multi(MProp::new("ATTENDEE", "mailto:a@b.c").with("CN", "A, B: C"));
        c.add_multi(MProp::new("ATTENDEE", "mailto:a@b.c").with("CN", "A, B: C"));
        c.add_multi(MProp::new("ATTENDEE", "mailto:b@b.c"));
        c.add_multi(MProp::new("COMMENT", "second;\nline"));
        v.push(c.clone());
        c.kids.push(display.clone());
        c.kids.push(audio.clone());
        v.push(c.clone());
        let mut d = MComp::new(kind);
        d.set(MProp::new("DTSTART", "20240101T120000").with("TZID", "Europe/Berlin"));
        d.kids.push(c);
        d.kids.push(MComp::new("X-EMPTY"));
        d.kids.push(display.clone());
        v.push(d);
    }
    let mut tz = stamped("VTIMEZONE");
    tz.set(MProp::new("TZID", "Europe/Berlin"));
    for k in ["STANDARD", "DAYLIGHT"] {
        let mut s = MComp::new(k);
        s.set(MProp::new("RRULE", "FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU"));
        s.set(MProp::new("TZOFFSETTO", "+0100"));
        s.add_multi(MProp::new("RDATE", "20240101T000000"));
        tz.kids.push(s);
    }
    v.push(tz);
    v
}
/// values typical for a name
pub fn values_for(name: &str, vt: Option<&str>) -> Vec<String> {
    let v: &[&str] = match type_of(name, vt) {
        Some("TEXT") => &["", "plain", "a,b;c\\d\ne:f\"g", "\\n\\,\\\\", " lead and trail ", "é€😀", "tab\there\rcr"],
        Some("DATE") => &["20240229"],
        Some("DATE-TIME") => &["20240229T000000Z", "20240229T000000", "20240229"],
        Some("DURATION") => &["PT0S", "-P1D", "+P2W", "P1DT2H3M4S"],
        Some("INTEGER") => &["0", "-1", "4294967295"],
        Some("RECUR") => &["FREQ=MONTHLY;BYDAY=MO,TU;COUNT=3"],
        Some("FLOAT") => &["1.25;-3.5"],
        Some("PERIOD") => &["19970308T160000Z/PT3H,19970308T200000Z/PT1H"],
        _ => &["", "http://x.y/z?a=b;c,d:e\\n\\\\", "mailto:a@b.c", " sp ", "é\u{3000}"],
    };
    v.iter().map(|s| s.to_string()).collect()
}

pub fn run(run: &Run) {
    run.assume("names are well-formed; untyped values and parameters contain no line feed, parameters no double quote (see findings of C01, C03)");
    let cat = components_catalogue();
    let calprops: Vec<Vec<MProp>> = vec![
        vec![],
        default_props(),
        {
            let mut p = default_props();
            p.push(MProp::new("NAME", "n,1"));
            p.push(MProp::new("X-WR-CALNAME", "n,1"));
            p.push(MProp::new("X-UNKNOWN", "a;b").with("P", "x:y"));
            p.push(MProp::new("NAME", "second"));
            p
        },
    ];
    let n = run.q(3, 4);
    run.cases(
        "component lists",
        &format!("lists of <= {n} of {} components x 3 sets of calendar properties", cat.len()),
        words_upto(cat.len(), n) * calprops.len(),
        |i, st| {
            let mut d = Dec(i);
            let p = calprops[d.n(calprops.len())].clone();
            let m = MCal { props: p, comps: word(d.0, cat.len()).into_iter().map(|c| cat[c].clone()).collect() };
            round(&m, st)
        },
    );
    let syms = &["a", "\\", ",", ";", "\n", "n", ":", "\r", "\"", " ", "é", "N"];
    let k = run.q(4, 5);
    run.cases(
        "texts everywhere",
        &format!("words of <= {k} of 12 symbols as calendar property, single and repeated text, nested text and parameter"),
        words_upto(syms.len(), k),
        |i, st| {
            let w = spell(i, syms);
            let pw: String = w.chars().filter(|c| !"\n\r\"".contains(*c)).collect();
            let mut e = stamped("VEVENT");
            e.set(MProp::new("SUMMARY", &w).with("ALTREP", &pw));
            e.set(MProp::new("X-RAW", &w.replace('\n', "")));
            e.add_multi(MProp::new("COMMENT", &w));
            e.add_multi(MProp::new("COMMENT", &format!("{w}{w}")).with("LANGUAGE", &pw));
            let mut a = stamped("VALARM");
            a.set(MProp::new("ACTION", "DISPLAY"));
            a.set(MProp::new("TRIGGER", "PT0S"));
            a.set(MProp::new("DESCRIPTION", &w));
            e.kids.push(a);
            let mut v = stamped("VVENUE");
            v.set(MProp::new("LOCALITY", &w));
            let m = MCal { props: vec![MProp::new("X-WR-CALDESC", &w), MProp::new("PRODID", &w)], comps: vec![e, v] };
            round(&m, st)
        },
    );
    // every property name, alone and in pairs, with and without VALUE
    let mut names: Vec<&str> = TEXT_NAMES.to_vec();
    names.extend(OTHER_TYPES.iter().map(|t| t.0));
    names.extend(["X-CUSTOM", "IANA-THING", "x-lower", "ENDPOINT", "BEGINNING", "REFRESH-INTERVAL", "X-PUBLISHED-TTL", "IMAGE"]);
    let vts: Vec<Option<&str>> = std::iter::once(None).chain(TYPE_NAMES.iter().map(|t| Some(*t))).chain([Some("X-OTHER")]).collect();
    run.cases(
        "every property name",
        &format!("{} names x 16 VALUE settings x typical values x 5 holders", names.len()),
        names.len() * vts.len() * 7 * 5,
        |i, st| {
            let mut d = Dec(i);
            let holder = d.n(5);
            let vi = d.n(7);
            let vt = vts[d.n(vts.len())];
            let name = names[d.0];
            let vals = values_for(name, vt);
            let Some(val) = vals.get(vi) else { return Ok(()) };
            let mut p = MProp::new(name, val);
            if let Some(v) = vt {
                p = p.with("VALUE", v);
            }
            let mut m = MCal::default();
            let mut c = MComp::new(["VEVENT", "VTODO", "VVENUE", "X-COMP", "VCALENDAR"][holder]);
            if MULTI.contains(&name) {
                c.add_multi(p.clone());
                c.add_multi(MProp::new(name, "first"));
                c.add_multi(p.clone());
            } else {
                c.set(p.clone());
            }
            if holder == 4 {
                m.props.push(p.clone());
                m.props.push(MProp::new("METHOD", "PUBLISH"));
                m.props.push(p);
            } else {
                let mut o = stamped("VEVENT");
                let mut k = c.clone();
                k.kind = "X-KID".into();
                o.kids.push(k);
                m.comps = vec![c, o];
            }
            round(&m, st)
        },
    );
    // nesting shapes
    let shapes: Vec<Vec<usize>> = (1..=run.q(6, 8)).flat_map(forests).collect();
    let kinds = ["VEVENT", "VALARM", "X-A"];
    run.cases(
        "nesting shapes",
        &format!("all {} ordered forests of <= {} components x 3 kinds by position x stamped or not", shapes.len(), run.q(6, 8)),
        shapes.len() * 27 * 2,
        |i, st| {
            let mut d = Dec(i);
            let full = d.bool();
            let (a, b, c) = (d.n(3), d.n(3), d.n(3));
            let comps = forest(
                &shapes[d.0],
                |n, depth| {
                    let k = kinds[[a, b, c][(n + depth) % 3]];
                    let mut m = if full { stamped(k) } else { MComp::new(k) };
                    m.set(MProp::new("SUMMARY", &format!("node {n}")));
                    m.add_multi(MProp::new("COMMENT", &format!("depth {depth}")));
                    m
                },
                |p, k| p.kids.push(k),
            );
            round(&MCal { props: default_props(), comps }, st)
        },
    );
    // counts
    let counts: Vec<usize> = (0..=run.q(70, 300)).chain([100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1024]).collect();
    run.cases("counts", "0..=70 and selected counts up to 1024 of components, properties, repeated properties, parameters, children, levels, text length, calendar properties", counts.len() * 8, |i, st| {
        let mut d = Dec(i);
        let what = d.n(8);
        let n = counts[d.0];
        let mut m = MCal { props: default_props(), comps: vec![] };
        let mut e = stamped("VEVENT");
        match what {
            0 => {
                for k in 0..n {
                    let mut c = MComp::new(["VEVENT", "VTODO", "VVENUE", "X-C"][k % 4]);
                    c.set(MProp::new("SUMMARY", &k.to_string()));
                    m.comps.push(c);
                }
            }
            1 => (0..n).for_each(|k| e.set(MProp::new(&format!("X-{k}"), &k.to_string()))),
            2 => (0..n).for_each(|k| e.add_multi(MProp::new(["ATTENDEE", "EXDATE", "RDATE"][k % 3], &(k / 3).to_string()))),
            3 => {
                let mut p = MProp::new("X-P", "v");
                (0..n).for_each(|k| p = p.clone().with(&format!("K{k}"), &format!("v{k}")));
                e.set(p)
            }
            4 => (0..n).for_each(|k| {
                let mut a = stamped("VALARM");
                a.set(MProp::new("DESCRIPTION", &k.to_string()));
                e.kids.push(a)
            }),
            5 => {
                for k in 0..n.min(400) {
                    let mut o = stamped("X-LEVEL");
                    o.set(MProp::new("X-N", &k.to_string()));
                    o.kids.push(e);
                    e = o;
                }
            }
            6 => {
                e.set(MProp::new("DESCRIPTION", &"é,\n ".repeat(n)));
                e.set(MProp::new("X-RAW", &"ab ".repeat(n)));
            }
            _ => (0..n).for_each(|k| m.props.push(MProp::new(["X-A", "COMMENT", "X-B"][k % 3], &k.to_string()))),
        }
        m.comps.push(e);
        round(&m, st)
    });
    big::stage(run, true, 1, |t, st| round(&big::big_cal(t), st));
    big::stage(run, false, 8, |t, st| round(&big::big_cal(t), st));
    setters(run);
}

/// sequences of the public builder calls on every kind, in a calendar
fn setters(run: &Run) {
    use chrono::{NaiveDate, TimeZone, Utc};
    fn ev<E: EventLike>(e: &mut E, op: usize) -> bool {
        let day = NaiveDate::from_ymd_opt(2024, 2, 29).unwrap();
        let t = Utc.with_ymd_and_hms(2024, 12, 31, 23, 59, 59).unwrap();
        match op {
            0 => e.summary("s, \"x\"; y\n"),
            1 => e.description("d\\n"),
            2 => e.location("l,;"),
            3 => e.venue("there, here", "ven:ue;1"),
            4 => e.starts(t),
            5 => e.ends((day.and_hms_opt(1, 2, 3).unwrap(), chrono_tz::Europe::Berlin)),
            6 => e.all_day(day),
            7 => e.alarm(Alarm::display("a,b", (chrono::Duration::seconds(-5), Related::End)).duration_and_repeat(chrono::Duration::zero(), 3)),
            8 => e.alarm(Alarm::audio(t)),
            _ => return base(e, op - 9),
        };
        true
    }
    fn base<C: Component>(e: &mut C, op: usize) -> bool {
        let t = Utc.with_ymd_and_hms(1, 1, 1, 0, 0, 0).unwrap();
        match op {
            0 => e.uid("u;1"),
            1 => e.timestamp(t),
            2 => e.created(t),
            3 => e.last_modified(t),
            4 => e.priority(11),
            5 => e.sequence(u32::MAX),
            6 => e.class(Class::Confidential),
            7 => e.url("http://x/;,\\"),
            8 => e.add_property("X-A", ",;\\"),
            9 => e.add_multi_property("ATTENDEE", "mailto:x"),
            10 => e.append_multi_property(Property::new("COMMENT", "c\n,").add_parameter("LANGUAGE", "d:e").done()),
            11 => e.append_property(Property::new("X-A", "").add_parameter("P", "q").done()),
            12 => e.summary(""),
            13 => e.append_component(Todo::new().summary("nested").done()),
            _ => return false,
        };
        true
    }
    let depth = run.q(3, 4);
    run.cases(
        "builder call sequences",
        &format!("sequences of <= {depth} of 23 calls on event and to-do, of 14 on venue and nested component"),
        words_upto(23, depth) * 4,
        |i, st| {
            let mut d = Dec(i);
            let kind = d.n(4);
            let ops = word(d.0, 23);
            let mut cal = Calendar::new();
            match kind {
                0 => {
                    let mut c = Event::new();
                    ops.iter().for_each(|o| {
                        ev(&mut c, *o);
                    });
                    cal.push(c);
                }
                1 => {
                    let mut c = Todo::new();
                    ops.iter().for_each(|o| {
                        ev(&mut c, *o);
                    });
                    cal.push(c);
                }
                2 => {
                    let mut c = Venue::new();
                    if !ops.iter().all(|o| base(&mut c, *o)) {
                        return Ok(());
                    }
                    cal.push(c);
                }
                _ => {
                    let mut c = Venue::new();
                    if !ops.iter().all(|o| base(&mut c, *o)) {
                        return Ok(());
                    }
                    cal.push(Event::new().append_component(c).done());
                }
            }
            let m = mcal(&cal)?;
            round_built(&cal, &m, st)
        },
    );
}
