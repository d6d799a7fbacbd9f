//! C10: durations and alarm triggers survive the round trip with sign and anchor.
use super::c08::{at, forms4, line_text, nd, sample, utc, ymd, Form, DAYS};
use super::*;
use chrono::Duration;

/// RFC 5545 dur-value, in seconds (i128: no overflow)
pub fn rfc_duration(s: &str) -> Option<i128> {
    let (sign, r) = match s.as_bytes().first()? {
        b'-' => (-1, &s[1..]),
        b'+' => (1, &s[1..]),
        _ => (1, s),
    };
    let mut r = r.strip_prefix('P')?;
    fn num<'a>(r: &mut &'a str, unit: char) -> Option<i128> {
        let n = r.find(|c: char| !c.is_ascii_digit())?;
        if n == 0 || !r[n..].starts_with(unit) {
            return None;
        }
        let v = r[..n].parse().ok()?;
        *r = &r[n + 1..];
        Some(v)
    }
    if let Some(w) = num(&mut r, 'W') {
        return r.is_empty().then_some(sign * w * 604800);
    }
    let mut total = 0;
    let mut any = false;
    if let Some(d) = num(&mut r, 'D') {
        total += d * 86400;
        any = true;
    }
    if let Some(t) = r.strip_prefix('T') {
        r = t;
        let mut some = false;
        for (u, f) in [('H', 3600), ('M', 60), ('S', 1)] {
            if let Some(v) = num(&mut r, u) {
                total += v * f;
                some = true;
            }
        }
        if !some {
            return None;
        }
        any = true;
    }
    (any && r.is_empty()).then_some(sign * total)
}
fn anchor(r: Option<Related>) -> Vec<(String, String)> {
    match r {
        Some(Related::Start) => vec![("RELATED".into(), "START".into())],
        Some(Related::End) => vec![("RELATED".into(), "END".into())],
        None => vec![],
    }
}
const REL: [Option<Related>; 3] = [None, Some(Related::Start), Some(Related::End)];

/// a duration as trigger: stored, read, written, parsed and read
fn trigger_level(secs: i64, st: &mut Stats) -> R {
    let d = Duration::seconds(secs);
    for r in REL {
        let t = match r {
            None => Trigger::from(d),
            Some(r) => Trigger::from((d, r)),
        };
        same!("trigger", secs, Trigger::Duration(d, r), t);
        same!("accessors of a trigger", secs, (Some(&d), r, None), (t.as_duration(), t.related(), t.as_date_time()));
        one(&t, secs, r, st)?;
    }
    Ok(())
}
fn one(t: &Trigger, secs: i64, r: Option<Related>, st: &mut Stats) -> R {
    let p = Property::from(t.clone());
    let val = p.value().to_string();
    same!("written duration denotes", val, Some(secs as i128), rfc_duration(&val));
    let mut exp = MProp::new("TRIGGER", &val);
    for (k, v) in anchor(r) {
        exp = exp.with(&k, &v);
    }
    same!("trigger property", secs, exp, mprop(&p));
    same!("trigger read from its property", val, Ok(t), Trigger::try_from(&p).as_ref());
    let line = line_text("TRIGGER", &val, &anchor(r));
    same!("written trigger", secs, format!("{line}\r\n"), prop_string(p)?);
    let back: Property = match line.parse() {
        Ok(p) => p,
        Err(_) => return fail("trigger line rejected", line),
    };
    same!("trigger read back", line, Ok(t), Trigger::try_from(&back).as_ref());
    st.steps(4);
    Ok(())
}
fn interesting(max: u64, spread: u64) -> Vec<i64> {
    let mut v: Vec<u64> = vec![];
    let mut around = |x: u64| (x.saturating_sub(spread)..=(x + spread).min(max)).for_each(|y| v.push(y));
    for b in 0..=32 {
        around((1u64 << b).min(max));
    }
    for u in [60, 3600, 86400, 604800, 31536000, 1000, 1000000] {
        for k in [1, 2, 3, 7, 9, 10, 11, 23, 24, 25, 59, 60, 61, 99, 100, 101, 365, 1000, 1193, 4095, 7101, 49710] {
            if u * k <= max {
                around(u * k)
            }
        }
    }
    v.sort();
    v.dedup();
    let mut s: Vec<i64> = v.iter().map(|x| *x as i64).collect();
    s.extend(v.iter().map(|x| -(*x as i64)));
    s
}

pub fn run(run: &Run) {
    run.assume("whole-second durations of at most 2^32-1 seconds; RFC 5545 spellings with numbers of at most 10 digits denoting at most 2^32-1 seconds");
    const MAX: u64 = u32::MAX as u64;
    let n = run.q(500_000, 20_000_000);
    run.cases("durations", &format!("all durations of -{n}..={n} seconds x 3 anchors"), 2 * n + 1, |i, st| {
        let s = i as i64 - n as i64;
        st.state(&s);
        trigger_level(s, st)
    });
    let inter = interesting(MAX, run.q(30, 2000));
    run.cases("larger durations", &format!("{} durations around powers of two and multiples of minutes, hours, days, weeks, years, up to 2^32-1, both signs", inter.len()), inter.len(), |i, st| {
        st.state(&inter[i]);
        trigger_level(inter[i], st)
    });
    // before and after
    run.cases("before and after", "constructors on all durations 0..=100000 seconds and the larger ones", 100_001 + inter.len(), |i, st| {
        let s = if i <= 100_000 { i as i64 } else { inter[i - 100_001].abs() };
        let d = Duration::seconds(s);
        for (t, e, r) in [
            (Trigger::before_start(d), -s, Related::Start),
            (Trigger::before_end(d), -s, Related::End),
            (Trigger::after_start(d), s, Related::Start),
            (Trigger::after_end(d), s, Related::End),
        ] {
            same!("constructed trigger", s, Trigger::Duration(Duration::seconds(e), Some(r)), t);
            one(&t, e, Some(r), st)?;
        }
        st.state(&s);
        Ok(())
    });
    // inside of documents
    run.cases("alarms in documents", &format!("the {} larger durations as trigger and duration of alarms in an event and a to-do", inter.len()), inter.len(), |i, st| {
        let s = inter[i];
        let d = Duration::seconds(s);
        let mut e = Event::new();
        for r in REL {
            let t = Trigger::Duration(d, r);
            e.alarm(Alarm::audio(t.clone()).duration_and_repeat(d, 1));
            e.alarm(Alarm::display("x", t));
        }
        let mut t = Todo::new();
        e.components().iter().for_each(|k| {
            t.append_component(k.clone());
        });
        let cal = Calendar::from([CalendarComponent::from(e.done()), t.done().into()]);
        let text = cal.to_string();
        let back: Calendar = match text.parse() {
            Ok(c) => c,
            Err(e) => return fail("written calendar rejected", e),
        };
        for c in [&cal, &back] {
            for kids in [c[0].as_event().map(|e| e.components()), c[1].as_todo().map(|e| e.components())] {
                let kids = kids.unwrap_or(&[]);
                same!("alarms", text, 6, kids.len());
                for (n, k) in kids.iter().enumerate() {
                    let got = k.properties().get("TRIGGER").map(Trigger::try_from);
                    same!("trigger of a nested alarm", text, Some(Ok(Trigger::Duration(d, REL[n / 2]))), got);
                    if n % 2 == 0 {
                        let v = k.property_value("DURATION").and_then(rfc_duration);
                        same!("duration of a nested alarm", text, Some(s as i128), v);
                    }
                    st.step();
                }
            }
        }
        st.state(&s);
        st.note(|| text.clone());
        Ok(())
    });
    // spellings
    let nums: &[&str] = &["0", "1", "2", "7", "9", "10", "15", "23", "24", "59", "60", "61", "90", "100", "365", "999", "1000", "007", "00", "3600", "86400", "49710", "71582788", "4294967295"];
    let few: &[usize] = &[0, 1, 5, 6, 9, 13, 17, 20];
    let days_: &[usize] = &[0, 1, 2, 6, 9, 14, 17, 21];
    run.cases("spellings", "weeks; days; days with every time part; every time part: 24 numbers alone, 8 numbers each in combination; 3 signs; with and without VALUE=DURATION, RELATED", 3 * 4 * (6 * 24 + 9 * 9 * 9 * 9), |i, st| {
        let mut d = Dec(i);
        let sign = d.of(&["", "+", "-"]);
        let par = d.n(4);
        let body = if d.0 < 6 * 24 {
            let n = nums[d.0 % 24];
            match d.0 / 24 {
                0 => format!("P{n}W"),
                1 => format!("P{n}D"),
                2 => format!("PT{n}H"),
                3 => format!("PT{n}M"),
                4 => format!("PT{n}S"),
                _ => format!("P{n}DT{n}H{n}M{n}S"),
            }
        } else {
            d.0 -= 6 * 24;
            let mut part = |set: &[usize], u: char| match d.n(9) {
                0 => String::new(),
                k => format!("{}{u}", nums[set[k - 1]]),
            };
            let day = part(days_, 'D');
            let (h, m, s) = (part(few, 'H'), part(few, 'M'), part(few, 'S'));
            if !h.is_empty() && !s.is_empty() && m.is_empty() {
                return Ok(()); // not in the RFC's grammar
            }
            if format!("{h}{m}{s}").is_empty() {
                if day.is_empty() {
                    return Ok(());
                }
                format!("P{day}")
            } else {
                format!("P{day}T{h}{m}{s}")
            }
        };
        let text = format!("{sign}{body}");
        let Some(secs) = rfc_duration(&text) else { return fail("harness", text) };
        if secs.unsigned_abs() > MAX as u128 {
            return Ok(());
        }
        let (params, rel) = match par {
            0 => ("", None),
            1 => (";VALUE=DURATION", None),
            2 => (";RELATED=END", Some(Related::End)),
            _ => (";RELATED=START;VALUE=DURATION", Some(Related::Start)),
        };
        let line = format!("TRIGGER{params}:{text}");
        let exp = Trigger::Duration(Duration::seconds(secs as i64), rel);
        match line.parse::<Property>() {
            Ok(p) => same!("duration read", line, Ok(&exp), Trigger::try_from(&p).as_ref()),
            Err(e) => return fail("duration line rejected", format!("{line}: {e}")),
        }
        st.step();
        st.state(&(secs, rel == Some(Related::End), par));
        st.note(|| format!("{line} = {secs}"));
        Ok(())
    });
    // other parameters say nothing about the anchor
    let ps: Vec<&str> = gen::PARAMETERS.iter().copied().filter(|p| !["VALUE", "RELATED", "TZID"].contains(p)).collect();
    let rel = [(None, None), (Some("START"), Some(Related::Start)), (Some("END"), Some(Related::End))];
    run.cases("beside other parameters", &format!("{} parameters x 3 values x before or after x 3 anchors x with and without VALUE x 5 durations, read and set", ps.len()), ps.len() * 3 * 2 * 3 * 2 * 5, |i, st| {
        let mut d = Dec(i);
        let before = d.bool();
        let valued = d.bool();
        let (r, want) = rel[d.n(3)];
        let (t, secs) = [("PT0S", 0), ("PT15M", 900), ("-PT15M", -900), ("P1W", 604800), ("-P1DT1S", -86401)][d.n(5)];
        let v = d.of(&["END", "START", "DATE-TIME"]);
        let o = ps[d.n(ps.len())];
        let mut known = String::new();
        let mut built = Property::new("TRIGGER", t);
        if let Some(r) = r {
            known += &format!(";RELATED={r}");
            built.add_parameter("RELATED", r);
        }
        if valued {
            known += ";VALUE=DURATION";
            built.add_parameter("VALUE", "DURATION");
        }
        built.add_parameter(o, v);
        let line = if before { format!("TRIGGER;{o}={v}{known}:{t}") } else { format!("TRIGGER{known};{o}={v}:{t}") };
        let exp = Trigger::Duration(Duration::seconds(secs), want);
        match line.parse::<Property>() {
            Ok(p) => same!("trigger read", line, Ok(&exp), Trigger::try_from(&p).as_ref()),
            Err(e) => return fail("trigger rejected", format!("{line}: {e}")),
        }
        same!("trigger set", line, Ok(&exp), Trigger::try_from(&built).as_ref());
        st.steps(2);
        st.state(&line);
        Ok(())
    });
    // what is no trigger
    let mut names = gen::names_in_use();
    names.retain(|n| n != "TRIGGER");
    let types = TYPE_NAMES;
    run.cases("no triggers", &format!("{} other property names and {} other types, with relative and absolute values", names.len(), types.len()), (names.len() + types.len()) * 3, |i, st| {
        let v = ["-PT15M", "20240229T120000Z", "20240229T120000"][i % 3];
        let mut p = Property::new(names.get(i / 3).map_or("TRIGGER", |n| n.as_str()), v);
        if i / 3 >= names.len() {
            let t = types[i / 3 - names.len()];
            if ["DURATION", "DATE-TIME"].contains(&t) {
                return Ok(());
            }
            p.add_parameter("VALUE", t);
        }
        let r = Trigger::try_from(&p);
        ensure!(r.is_err(), "read as a trigger", format!("{p:?}: {r:?}"));
        st.step();
        st.state(&format!("{p:?}"));
        Ok(())
    });
    // absolute triggers
    let mut forms = forms4();
    forms.remove(0);
    forms.push(Form::Zoned("My; Zone: é".into()));
    let step = run.q(37, 1);
    run.cases("absolute triggers", &format!("every {step}. date of the years 0..9999 with a running time of day x 4 forms, property and document"), DAYS / step * 4, |i, st| {
        let f = &forms[i % 4];
        let day = ymd(i / 4 * step);
        let s = (i * 7919 % 86400) as u32;
        let (v, text, mut params) = sample(day, s, f);
        let DatePerhapsTime::DateTime(cdt) = v else { return fail("harness", "") };
        let t = match f {
            Form::Utc => Trigger::from(utc(at(nd(day), s))),
            Form::Floating => Trigger::from(at(nd(day), s)),
            _ => Trigger::from(cdt.clone()),
        };
        same!("absolute trigger", text, (Some(&cdt), None, None), (t.as_date_time(), t.as_duration(), t.related()));
        let p = Property::from(t.clone());
        params.push(("VALUE".into(), "DATE-TIME".into()));
        let mut exp = MProp::new("TRIGGER", &text);
        for (k, v) in &params {
            exp = exp.with(k, v);
        }
        same!("absolute trigger property", text, exp, mprop(&p));
        same!("absolute trigger read", text, Ok(&t), Trigger::try_from(&p).as_ref());
        let line = line_text("TRIGGER", &text, &params);
        match line.parse::<Property>() {
            Ok(p) => same!("absolute trigger read back", line, Ok(&t), Trigger::try_from(&p).as_ref()),
            Err(_) => return fail("trigger line rejected", line),
        }
        st.steps(3);
        st.state(&(text, f));
        if i % 8 == 0 {
            let cal = Calendar::from([Event::new().alarm(Alarm::audio(t.clone())).alarm(Alarm::display("d", t.clone())).done()]);
            let out = cal.to_string();
            let back: Calendar = match out.parse() {
                Ok(c) => c,
                Err(e) => return fail("written calendar rejected", e),
            };
            for k in [0, 1] {
                let got = back[0].as_event().and_then(|e| e.components().get(k)).and_then(|a| a.properties().get("TRIGGER")).map(Trigger::try_from);
                same!("absolute trigger of a nested alarm", out, Some(Ok(&t)), got.as_ref().map(|r| r.as_ref()));
                st.step();
            }
            st.note(|| out.clone());
        }
        Ok(())
    });
}
