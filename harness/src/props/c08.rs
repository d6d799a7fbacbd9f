//! C08: dates and date-times survive being stored, written and read.
use super::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime, Utc};

pub fn leap(y: u32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn days_in(y: u32, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => 0,
    }
}
/// days of the years before y
fn before(y: usize) -> usize {
    if y == 0 {
        return 0;
    }
    let p = y - 1;
    y * 365 + p / 4 - p / 100 + p / 400 + 1
}
pub const DAYS: usize = 3_652_425;
/// the i-th date since 0000-01-01
pub fn ymd(i: usize) -> (u32, u32, u32) {
    let mut y = i / 366;
    while before(y + 1) <= i {
        y += 1
    }
    let mut r = (i - before(y)) as u32;
    let y = y as u32;
    let mut m = 1;
    while r >= days_in(y, m) {
        r -= days_in(y, m);
        m += 1;
    }
    (y, m, r + 1)
}
pub fn nd((y, m, d): (u32, u32, u32)) -> NaiveDate {
    NaiveDate::from_ymd_opt(y as i32, m, d).unwrap()
}
pub fn day_text((y, m, d): (u32, u32, u32)) -> String {
    format!("{y:04}{m:02}{d:02}")
}
pub fn time_text(s: u32) -> String {
    format!("{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60)
}
pub fn at(day: NaiveDate, s: u32) -> NaiveDateTime {
    day.and_time(NaiveTime::from_num_seconds_from_midnight_opt(s, 0).unwrap())
}
pub fn utc(t: NaiveDateTime) -> DateTime<Utc> {
    DateTime::from_naive_utc_and_offset(t, Utc)
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    Date,
    Floating,
    Utc,
    Zoned(String),
}
/// value, written text, parameters
pub fn sample(day: (u32, u32, u32), s: u32, f: &Form) -> (DatePerhapsTime, String, Vec<(String, String)>) {
    let d = nd(day);
    let t = format!("{}T{}", day_text(day), time_text(s));
    match f {
        Form::Date => (DatePerhapsTime::Date(d), day_text(day), vec![("VALUE".into(), "DATE".into())]),
        Form::Floating => (DatePerhapsTime::DateTime(CalendarDateTime::Floating(at(d, s))), t, vec![]),
        Form::Utc => (DatePerhapsTime::DateTime(CalendarDateTime::Utc(utc(at(d, s)))), t + "Z", vec![]),
        Form::Zoned(z) => (
            DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time: at(d, s), tzid: z.clone() }),
            t,
            vec![("TZID".into(), z.clone())],
        ),
    }
}
fn has(p: &Property, key: &str, val: &str, params: &[(String, String)]) -> R {
    let got = mprop(p);
    let mut exp = MProp::new(key, val);
    for (k, v) in params {
        exp = exp.with(k, v);
    }
    same!("property stored", key, exp, got);
    Ok(())
}
pub fn line_text(key: &str, val: &str, params: &[(String, String)]) -> String {
    let mut s = key.to_string();
    for (k, v) in params {
        let q = if v.contains([':', ';', ',']) { "\"" } else { "" };
        s += &format!(";{k}={q}{v}{q}");
    }
    format!("{s}:{val}")
}
/// property level: store, read, write, read in both ways
pub fn prop_level(key: &str, day: (u32, u32, u32), s: u32, f: &Form, st: &mut Stats) -> R {
    let (v, text, params) = sample(day, s, f);
    let p = v.to_property(key);
    has(&p, key, &text, &params)?;
    same!("read from the stored property", text, Some(&v), DatePerhapsTime::from_property(&p).as_ref());
    let d = nd(day);
    same!("date_naive", text, d, v.date_naive());
    same!("conversion to a date", text, d, NaiveDate::from(v.clone()));
    // read from the text alone
    match f {
        Form::Floating => same!("read from text", text, Ok(&v), text.parse().map(DatePerhapsTime::DateTime).as_ref()),
        Form::Utc => same!("read from text", text, Ok(&v), text.parse().map(DatePerhapsTime::DateTime).as_ref()),
        _ => {}
    }
    // written and parsed
    let line = line_text(key, &text, &params);
    let parsed = match ip::Property::try_from(line.as_str()) {
        Ok(p) => p,
        Err(e) => return fail("date line rejected", format!("{line}: {e}")),
    };
    same!("conversion of the parsed property", line, Ok(&v), DatePerhapsTime::try_from(&parsed).as_ref());
    let back = Property::from(parsed);
    same!("typed property read back", line, p, back);
    same!("value of the typed property", line, Some(&v), DatePerhapsTime::from_property(&back).as_ref());
    st.steps(5);
    Ok(())
}
fn written(p: Property, exp: &str) -> R {
    let out = prop_string(p)?;
    same!("written date property", exp, format!("{exp}\r\n"), out);
    Ok(())
}
pub fn forms4() -> Vec<Form> {
    vec![Form::Date, Form::Floating, Form::Utc, Form::Zoned("Europe/Berlin".into())]
}
pub const KEYS: &[&str] = &["DTSTART", "DTEND", "DUE", "RECURRENCE-ID", "EXDATE", "RDATE", "X-DATE"];

/// every date setter with its getter, through a document
fn doc_level(day: (u32, u32, u32), s: u32, f: &Form, st: &mut Stats) -> R {
    let (v, text, params) = sample(day, s, f);
    let stamp = utc(at(nd(day), s));
    let stext = format!("{}T{}Z", day_text(day), time_text(s));
    let mut e = Event::new();
    e.starts(v.clone()).ends(v.clone()).timestamp(stamp).created(stamp).last_modified(stamp).uid("e");
    let mut t = Todo::new();
    t.starts(v.clone()).ends(v.clone()).due(v.clone()).completed(stamp).timestamp(stamp).created(stamp).last_modified(stamp).uid("t");
    let mut a = Event::new();
    a.all_day(nd(day)).timestamp(stamp).uid("a");
    let mut cal = Calendar::new();
    cal.push(e.done()).push(t.done()).push(a.done());
    let out = cal.to_string();
    for l in [line_text("DTSTART", &text, &params), line_text("DUE", &text, &params), format!("COMPLETED:{stext}"), format!("CREATED:{stext}"), format!("LAST-MODIFIED:{stext}")] {
        ensure!(out.contains(&format!("\r\n{l}\r\n")), "date not written as expected", format!("{l} in\n{out}"));
    }
    let back: Calendar = match out.parse() {
        Ok(c) => c,
        Err(e) => return fail("written calendar rejected", e),
    };
    for c in [&cal, &back] {
        let (Some(e), Some(t), Some(a)) = (c[0].as_event(), c[1].as_todo(), c[2].as_event()) else {
            return fail("component types changed", out);
        };
        let u = Some(stamp);
        same!("event dates", text, [Some(&v), Some(&v)], [e.get_start().as_ref(), e.get_end().as_ref()]);
        same!("to-do dates", text, [Some(&v), Some(&v), Some(&v)], [t.get_start().as_ref(), t.get_end().as_ref(), t.get_due().as_ref()]);
        same!("time stamps", text, [u; 6], [e.get_timestamp(), e.get_created(), e.get_last_modified(), t.get_timestamp(), t.get_created(), t.get_last_modified()]);
        same!("completed", text, u, t.get_completed());
        let d = Some(DatePerhapsTime::Date(nd(day)));
        same!("all day", text, [&d, &d], [&a.get_start(), &a.get_end()]);
        st.steps(14);
    }
    st.state(&(text, f));
    st.note(|| out.clone());
    Ok(())
}
/// a text in one of the layouts that names nothing
fn absent(key: &str, text: &str, params: &[(String, String)], st: &mut Stats) -> R {
    if params.is_empty() {
        same!("text of no date and time", text, Err(()), text.parse::<CalendarDateTime>());
    }
    let mut p = Property::new(key, text);
    for (k, v) in params {
        p.add_parameter(k, v);
    }
    same!("text of no date", text, None, DatePerhapsTime::from_property(&p));
    let raw = ip::Property {
        name: key.to_string().into(),
        val: text.to_string().into(),
        params: params.iter().map(|(k, v)| ip::Parameter { key: k.clone().into(), val: Some(v.clone().into()) }).collect(),
    };
    let r = DatePerhapsTime::try_from(&raw);
    ensure!(r.is_err(), "text of no date converted", format!("{text}: {r:?}"));
    st.steps(2);
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("years 0..9999, the leap second :60 at the end of any minute; zone names free of double quotes and control characters");
    let forms = forms4();
    run.cases("every date", "all 3652425 dates 0000-01-01..9999-12-31, as date and as one of 3 date-time forms with a time of day that runs through all seconds", DAYS, |i, st| {
        let day = ymd(i);
        let s = (i * 7919 % 86400) as u32;
        prop_level(KEYS[i % KEYS.len()], day, 0, &forms[0], st)?;
        prop_level(KEYS[i / 7 % KEYS.len()], day, s, &forms[1 + i % 3], st)?;
        if i % 101 == 0 || run.tier == Tier::Thorough {
            for f in &forms {
                let (v, text, params) = sample(day, s, f);
                written(v.to_property("DTSTART"), &line_text("DTSTART", &text, &params))?;
            }
        }
        st.state(&day);
        Ok(())
    });
    let days = [(2024, 2, 29), (0, 1, 1), (1999, 12, 31), (9999, 12, 31), (1582, 10, 10)];
    let n = run.q(1, 5);
    run.cases("every second", &format!("all 86400 seconds of {n} days x 4 forms"), 86400 * n * 4, |i, st| {
        let mut d = Dec(i);
        let f = &forms[d.n(4)];
        let day = days[d.n(n)];
        let s = d.0 as u32;
        prop_level("DTSTART", day, s, f, st)?;
        let (v, text, params) = sample(day, s, f);
        written(v.to_property("DTEND"), &line_text("DTEND", &text, &params))?;
        st.state(&(text, f));
        Ok(())
    });
    let secs: Vec<u32> = vec![0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399, 35999, 36000, 82800];
    // boundaries of all months of selected years
    let years: Vec<u32> = run.q(vec![0, 1, 4, 100, 999, 1000, 1582, 1899, 1900, 1969, 1970, 2000, 2023, 2024, 2038, 2100, 9999], (0..=9999).step_by(37).chain([1899, 1900, 1969, 1970, 2000, 2023, 2024, 2038, 2100, 9999]).collect());
    run.cases("every setter", &format!("event, to-do, all-day and time-stamp setters in a calendar: first and last day of all months of {} years x 12 times x 4 forms", years.len()), years.len() * 24 * 12 * 4, |i, st| {
        let mut d = Dec(i);
        let f = &forms[d.n(4)];
        let s = secs[d.n(12)];
        let last = d.bool();
        let m = d.n(12) as u32 + 1;
        let y = years[d.0];
        doc_level((y, m, if last { days_in(y, m) } else { 1 }), s, f, st)
    });
    let zones: Vec<String> = chrono_tz::TZ_VARIANTS
        .iter()
        .map(|z| z.name().to_string())
        .chain(["Custom", "My Zone", "/freeassociation.sourceforge.net/Europe/Berlin", "(UTC+01:00) Amsterdam; Berlin", "a,b", "é", "W. Europe Standard Time", "X=1", " lead", "UTC", "Z"].map(String::from))
        .collect();
    run.cases("every zone name", &format!("{} IANA and custom zone names x 12 times through documents", zones.len()), zones.len() * 12, |i, st| {
        let f = Form::Zoned(zones[i / 12].clone());
        let s = secs[i % 12];
        let day = ymd(i * 6007 % DAYS);
        // (documents quote a comma as well; the library does not have to)
        if zones[i / 12].contains(',') {
            return prop_level("DTSTART", day, s, &f, st);
        }
        if zones[i / 12].len() + 30 > 75 {
            return Ok(());
        }
        prop_level("DTSTART", day, s, &f, st)?;
        doc_level(day, s, &f, st)
    });
    // fractions of a second have no place in the text
    let fr: [u32; 9] = [1, 999, 1_000, 499_999_999, 500_000_000, 500_000_001, 999_000_000, 999_999_999, 123_456_789];
    run.cases("fractions of a second", "every second of a day x 9 fractions x 3 forms, properties and time stamps", 86400 * 9, |i, st| {
        let (s, nanos) = ((i / 9) as u32, fr[i % 9]);
        let day = ymd((i * 6007 + 31) % (DAYS - 1));
        let fine = nd(day).and_time(NaiveTime::from_num_seconds_from_midnight_opt(s, nanos).unwrap());
        for f in &forms[1..] {
            let v = DatePerhapsTime::DateTime(match f {
                Form::Utc => CalendarDateTime::Utc(utc(fine)),
                Form::Zoned(z) => CalendarDateTime::WithTimezone { date_time: fine, tzid: z.clone() },
                _ => CalendarDateTime::Floating(fine),
            });
            let (whole, text, params) = sample(day, s, f);
            let p = v.to_property("DUE");
            has(&p, "DUE", &text, &params)?;
            same!("read without the fraction", text, Some(&whole), DatePerhapsTime::from_property(&p).as_ref());
            if (i + 1) % 7 == 0 {
                written(p, &line_text("DUE", &text, &params))?;
            }
        }
        let (stamp, whole) = (utc(fine), Some(utc(at(nd(day), s))));
        let mut t = Todo::new();
        t.timestamp(stamp).created(stamp).last_modified(stamp).completed(stamp).starts(stamp);
        same!("time stamps without the fraction", stamp, [whole; 4], [t.get_timestamp(), t.get_created(), t.get_last_modified(), t.get_completed()]);
        same!("start without the fraction", stamp, whole.map(|w| DatePerhapsTime::DateTime(CalendarDateTime::Utc(w))), t.get_start());
        let mut a = Alarm::display("x", stamp);
        let trig = mprop(&a.done().properties()["TRIGGER"]);
        same!("trigger without the fraction", stamp, format!("{}T{}Z", day_text(day), time_text(s)), trig.val);
        st.state(&(day, s, nanos));
        st.steps(6);
        Ok(())
    });
    // the second that a minute may have at its end
    run.cases("leap seconds", "every minute of a day x 3 fractions x 3 forms on a running date, properties, documents and time stamps", 1440 * 3, |i, st| {
        let (m, frac) = ((i / 3) as u32, [0, 1, 999_999_999][i % 3]);
        let day = ymd((i * 6007 + 31) % (DAYS - 1));
        let leap = |f: u32| nd(day).and_time(NaiveTime::from_num_seconds_from_midnight_opt(m * 60 + 59, 1_000_000_000 + f).unwrap());
        let digits = format!("{}T{:02}{:02}60", day_text(day), m / 60, m % 60);
        for f in &forms[1..] {
            let mk = |t: NaiveDateTime| {
                DatePerhapsTime::DateTime(match f {
                    Form::Utc => CalendarDateTime::Utc(utc(t)),
                    Form::Zoned(z) => CalendarDateTime::WithTimezone { date_time: t, tzid: z.clone() },
                    _ => CalendarDateTime::Floating(t),
                })
            };
            let (_, _, params) = sample(day, 0, f);
            let text = if *f == Form::Utc { format!("{digits}Z") } else { digits.clone() };
            let p = mk(leap(frac)).to_property("DTSTART");
            has(&p, "DTSTART", &text, &params)?;
            let whole = mk(leap(0));
            same!("leap second read", text, Some(&whole), DatePerhapsTime::from_property(&p).as_ref());
            let line = line_text("DTSTART", &text, &params);
            written(p, &line)?;
            let Ok(parsed) = ip::Property::try_from(line.as_str()) else { return fail("date line rejected", line) };
            same!("leap second of the parsed property", line, Ok(&whole), DatePerhapsTime::try_from(&parsed).as_ref());
            st.steps(3);
        }
        let (stamp, whole) = (utc(leap(frac)), Some(utc(leap(0))));
        let mut t = Todo::new();
        t.timestamp(stamp).created(stamp).last_modified(stamp).completed(stamp);
        same!("leap seconds in time stamps", stamp, [whole; 4], [t.get_timestamp(), t.get_created(), t.get_last_modified(), t.get_completed()]);
        st.state(&(i, day));
        Ok(())
    });
    // month and day digits
    let ys: Vec<u32> = run.q(vec![0, 4, 1900, 2000, 2023, 2024, 9999], (0..10000).collect());
    run.cases("all month and day digits", &format!("{} years x all 10^4 month and day digits x 4 forms", ys.len()), ys.len() * 10000, |i, st| {
        let (y, m, d) = (ys[i / 10000], (i / 100 % 100) as u32, (i % 100) as u32);
        let valid = d >= 1 && d <= days_in(y, m);
        let f = &forms[i % 4];
        st.state(&(i, valid));
        if valid {
            prop_level("DUE", (y, m, d), 0, f, st)
        } else {
            let (_, _, params) = sample((2000, 1, 1), 0, f);
            let text = match f {
                Form::Date => day_text((y, m, d)),
                Form::Utc => day_text((y, m, d)) + "T000000Z",
                _ => day_text((y, m, d)) + "T000000",
            };
            absent("DUE", &text, &params, st)
        }
    });
    run.cases("all time digits", "all 10^6 time digits (without :60) x 3 forms", 1_000_000, |i, st| {
        let (h, m, s) = ((i / 10000) as u32, (i / 100 % 100) as u32, (i % 100) as u32);
        if s == 60 {
            return Ok(());
        }
        let day = ymd(i * 3 % DAYS);
        let f = &forms[1 + i % 3];
        st.state(&i);
        if h < 24 && m < 60 && s < 60 {
            return prop_level("DTSTART", day, h * 3600 + m * 60 + s, f, st);
        }
        let (_, _, params) = sample(day, 0, f);
        let z = if *f == Form::Utc { "Z" } else { "" };
        let text = format!("{}T{h:02}{m:02}{s:02}{z}", day_text(day));
        absent("DTSTART", &text, &params, st)?;
        // the UTC time stamps
        if *f == Form::Utc {
            let mut t = Todo::new();
            for k in ["DTSTAMP", "CREATED", "LAST-MODIFIED", "COMPLETED"] {
                t.add_property(k, text.as_str());
            }
            same!("time stamp of no time", text, [None; 4], [t.get_timestamp(), t.get_created(), t.get_last_modified(), t.get_completed()]);
        }
        Ok(())
    });
}
