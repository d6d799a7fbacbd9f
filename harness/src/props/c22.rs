//! C22: alarms are complete: action, trigger, and duration exactly with repeat.
use super::c10::rfc_duration;
use super::*;
use chrono::{Duration, NaiveDate, NaiveDateTime, TimeZone, Utc};

/// what an alarm has been told to be
#[derive(Clone, PartialEq, Hash, Debug)]
pub struct Told {
    text: Option<String>,
    trig: usize,
    rep: Option<(i64, u32)>,
    extra: Vec<String>,
}
const TEXTS: [&str; 4] = ["x", "", "Ring, ring; \\n\n\"now\" é😀", "a description that is long enough to be folded over three lines, twice: 0123456789 0123456789 0123456789 äöüäöüäöü"];

fn day(h: u32) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(2024, 2, 29).unwrap().and_hms_opt(h, 59, 58).unwrap()
}
pub const TRIGS: usize = 15;
/// a trigger and what it has to be: seconds or text, and parameters
fn trigger(k: usize) -> (Trigger, Result<i128, &'static str>, Vec<(&'static str, &'static str)>) {
    let s = Duration::seconds;
    let rel = |r: &'static str| vec![("RELATED", r)];
    let abs = vec![("VALUE", "DATE-TIME")];
    match k {
        0 => (Trigger::before_start(s(900)), Ok(-900), rel("START")),
        1 => (Trigger::after_end(s(1)), Ok(1), rel("END")),
        2 => (s(-60).into(), Ok(-60), vec![]),
        3 => (Utc.from_utc_datetime(&day(23)).into(), Err("20240229T235958Z"), abs),
        4 => (day(0).into(), Err("20240229T005958"), abs),
        5 => (
            CalendarDateTime::WithTimezone { date_time: day(7), tzid: "Europe/Berlin".into() }.into(),
            Err("20240229T075958"),
            vec![("TZID", "Europe/Berlin"), ("VALUE", "DATE-TIME")],
        ),
        6 => (Trigger::before_end(s(4294967295)), Ok(-4294967295), rel("END")),
        7 => (Trigger::after_start(s(0)), Ok(0), rel("START")),
        8 => (s(86400).into(), Ok(86400), vec![]),
        9 => ((s(-7200), Related::End).into(), Ok(-7200), rel("END")),
        10 => ((s(604800), Related::Start).into(), Ok(604800), rel("START")),
        11 => (CalendarDateTime::Utc(Utc.from_utc_datetime(&day(1))).into(), Err("20240229T015958Z"), abs),
        12 => (CalendarDateTime::Floating(day(2)).into(), Err("20240229T025958"), abs),
        13 => (s(0).into(), Ok(0), vec![]),
        _ => (s(4294967295).into(), Ok(4294967295), vec![]),
    }
}
fn create(text: &Option<String>, trig: usize) -> Alarm {
    let t = trigger(trig).0;
    match text {
        None => Alarm::audio(t),
        Some(d) => Alarm::display(d, t),
    }
}
/// compares what a component contains with what the alarm was told; `read`: it has been written and read
fn complete(m: &MComp, t: &Told, read: bool, what: &str) -> R {
    let mut names = vec!["ACTION", "TRIGGER"];
    if t.text.is_some() {
        names.push("DESCRIPTION");
    }
    if t.rep.is_some() {
        names.extend(["DURATION", "REPEAT"]);
    }
    if !t.extra.is_empty() {
        names.push("X-EXTRA");
    }
    if read {
        names.extend(["DTSTAMP", "UID"]);
    }
    names.sort();
    let mut have: Vec<&str> = m.props.keys().map(|s| s.as_str()).collect();
    have.sort();
    same!("kind", what, "VALARM", m.kind.as_str());
    same!("properties of an alarm", format!("{what} {t:?}"), names, have);
    same!("repeated properties of an alarm", what, 0, m.multi.len());
    same!("children of an alarm", what, 0, m.kids.len());
    let plain = |n: &str, v: &str| -> R {
        let p = &m.props[n];
        same!(format!("{n} of an alarm"), format!("{what} {t:?}"), MProp::new(n, v), *p);
        Ok(())
    };
    plain("ACTION", if t.text.is_some() { "DISPLAY" } else { "AUDIO" })?;
    if let Some(d) = &t.text {
        plain("DESCRIPTION", d)?;
    }
    if let Some(x) = t.extra.last() {
        plain("X-EXTRA", x)?;
    }
    let (real, val, params) = trigger(t.trig);
    let p = &m.props["TRIGGER"];
    let mut exp = MProp::new("TRIGGER", &p.val);
    for (k, v) in params {
        exp = exp.with(k, v);
    }
    same!("TRIGGER of an alarm", format!("{what} {t:?}"), exp, *p);
    match val {
        Ok(s) => same!("TRIGGER denotes", format!("{what} {t:?} {}", p.val), Some(s), rfc_duration(&p.val)),
        Err(x) => same!("TRIGGER", format!("{what} {t:?}"), x, p.val.as_str()),
    }
    same!("TRIGGER read", format!("{what} {t:?}"), Ok(real), Trigger::try_from(&p.build()));
    if let Some((d, n)) = t.rep {
        plain("REPEAT", &n.to_string())?;
        let p = &m.props["DURATION"];
        same!("DURATION denotes", format!("{what} {t:?} {}", p.val), Some(d as i128), rfc_duration(&p.val));
        ensure!(p.params.is_empty() || p.params == MProp::new("", "").with("VALUE", "DURATION").params, "parameters of DURATION", format!("{what} {p:?}"));
    }
    Ok(())
}
/// an alarm alone: content and text
fn alone(a: &Alarm, t: &Told, what: &str) -> R {
    complete(&mcomp(a), t, false, what)?;
    let out = Component::to_string(a);
    let w = match out.parse::<Calendar>() {
        Ok(c) => mcal(&c)?,
        Err(e) => return fail("written alarm rejected", e),
    };
    same!("written alarms", what, 1, w.comps.len());
    complete(&w.comps[0], t, true, &format!("{what}, written and read"))
}
fn kids_are(kids: &[MComp], told: &[Told], read: bool, what: &str) -> R {
    same!("number of alarms", what, told.len(), kids.len());
    for (i, (k, t)) in kids.iter().zip(told).enumerate() {
        complete(k, t, read, &format!("{what}, alarm {i}"))?;
    }
    Ok(())
}

#[derive(Clone)]
struct S {
    alarm: Option<(Alarm, Told)>,
    event: Event,
    ev: Vec<Told>,
    todo: Todo,
    to: Vec<Told>,
}
const MAKE: usize = 3 * 4;
const REPS: [(i64, u32); 4] = [(300, 4), (0, 0), (4294967295, u32::MAX), (59, 1)];
const OPS: usize = MAKE + 4 + 8;
fn step(s: &S, op: usize, st: &mut Stats) -> Result<Option<S>, Fail> {
    let mut s = s.clone();
    let what = format!("operation {op}");
    if op < MAKE {
        let text = [None, Some(TEXTS[0].to_string()), Some(TEXTS[2].to_string())][op % 3].clone();
        // (triggers 0, 2, 3, 5)
        let trig = [0, 2, 3, 5][op / 3];
        s.alarm = Some((create(&text, trig), Told { text, trig, rep: None, extra: vec![] }));
    } else if op < MAKE + 4 {
        let Some((a, mut t)) = s.alarm.take() else { return Ok(None) };
        let (d, n) = REPS[op - MAKE];
        t.rep = Some((d, n));
        s.alarm = Some((a.duration_and_repeat(Duration::seconds(d), n), t));
    } else {
        let k = op - MAKE - 4;
        match k {
            6 => {
                let e = s.event.done();
                same!("alarms left after done", what, 0, s.event.components().len());
                s.event = e;
            }
            7 => {
                let t = s.todo.done();
                same!("alarms left after done", what, 0, s.todo.components().len());
                s.todo = t;
            }
            _ => {
                let Some((mut a, mut t)) = s.alarm.take() else { return Ok(None) };
                match k {
                    0 => {
                        let b = a.done();
                        // the builder is empty and can be given up
                        same!("left in the builder", what, 0, mcomp(&a).props.len());
                        a = b;
                    }
                    1 => {
                        if t.extra.len() == 1 {
                            return Ok(None);
                        }
                        a.add_property("X-EXTRA", "e");
                        t.extra.push("e".into());
                    }
                    2 => {
                        // the alarm is kept, a finished copy is attached
                        s.event.alarm(a.clone().done());
                        s.ev.push(t.clone());
                    }
                    3 => {
                        s.event.alarm(a.clone());
                        s.ev.push(t.clone());
                    }
                    4 => {
                        s.todo.append_component(a.clone());
                        s.to.push(t.clone());
                    }
                    _ => {
                        EventLike::alarm(&mut s.event, a.clone()).alarm(a.clone());
                        s.ev.push(t.clone());
                        s.ev.push(t.clone());
                    }
                }
                s.alarm = Some((a, t));
            }
        }
    }
    if let Some((a, t)) = &s.alarm {
        alone(a, t, &what)?;
    }
    parents(&s.event, &s.ev, &s.todo, &s.to, &what)?;
    st.step();
    st.note(|| Component::to_string(&s.event));
    Ok(Some(s))
}
fn parents(e: &Event, ev: &[Told], t: &Todo, to: &[Told], what: &str) -> R {
    kids_are(&mcomp(e).kids, ev, false, &format!("{what}, event"))?;
    kids_are(&mcomp(t).kids, to, false, &format!("{what}, to-do"))?;
    let mut cal = Calendar::from([CalendarComponent::from(e.clone()), t.clone().into()]);
    let out = cal.done().to_string();
    let back = match out.parse::<Calendar>() {
        Ok(c) => mcal(&c)?,
        Err(e) => return fail("written calendar rejected", e),
    };
    same!("kinds of the parents", out, vec!["VEVENT", "VTODO"], back.comps.iter().map(|c| c.kind.as_str()).collect::<Vec<_>>());
    kids_are(&back.comps[0].kids, ev, true, &format!("{what}, event read back"))?;
    kids_are(&back.comps[1].kids, to, true, &format!("{what}, to-do read back"))?;
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("alarms get no further properties under the names of their own ones, and none of their own properties as repeatable ones");
    let depth = run.q(5, 6);
    run.bfs(
        "histories",
        &format!("all histories of up to {depth} of: 12 ways to create an alarm, 4 repetitions, finishing it, another property, attaching it in 4 ways, finishing its parents; everything is written and read at each transition"),
        OPS,
        depth,
        || S { alarm: None, event: Event::new(), ev: vec![], todo: Todo::new(), to: vec![] },
        step,
        |s| h128(&(s.alarm.as_ref().map(|a| &a.1), &s.ev, &s.to)),
    );
    // every constructor with every trigger, text and repetition
    let reps: Vec<Option<(i64, u32)>> = std::iter::once(None)
        .chain([0, 1, 59, 60, 3600, 86399, 86400, 604800, 86400 * 365, 4294967295].into_iter().flat_map(|d| [0u32, 1, 9, 10, 255, 256, 65535, 65536, u32::MAX - 1, u32::MAX].into_iter().map(move |n| Some((d, n)))))
        .collect();
    run.cases("constructors", "audio and 4 display texts x 15 triggers x 101 repetitions, alone, nested in an event and a to-do", 5 * TRIGS * reps.len(), |i, st| {
        let mut d = Dec(i);
        let text = match d.n(5) {
            0 => None,
            k => Some(TEXTS[k - 1].to_string()),
        };
        let t = Told { text, trig: d.n(TRIGS), rep: reps[d.n(reps.len())], extra: vec![] };
        let mut a = create(&t.text, t.trig);
        alone(&a, &Told { rep: None, ..t.clone() }, "constructed")?;
        if let Some((s, n)) = t.rep {
            a = a.duration_and_repeat(Duration::seconds(s), n);
        }
        alone(&a, &t, "repeated")?;
        let mut e = Event::new();
        e.summary("parent").alarm(a.clone()).append_component(a.clone());
        let mut o = Todo::new();
        o.append_component(a.done()).summary("parent");
        parents(&e, &[t.clone(), t.clone()], &o, &[t.clone()], "nested")?;
        st.step();
        st.state(&t);
        Ok(())
    });
    // many alarms in one parent
    let max = run.q(200, 2000);
    run.cases("many alarms", &format!("1..={max} different alarms in an event"), max, |i, st| {
        let mut e = Event::new();
        let mut told = vec![];
        for k in 0..=i {
            let t = Told {
                text: (k % 3 > 0).then(|| TEXTS[k % 4].to_string()),
                trig: k * 7 % TRIGS,
                rep: (k % 2 == 0).then_some((k as i64, k as u32)),
                extra: vec![],
            };
            let mut a = create(&t.text, t.trig);
            if let Some((s, n)) = t.rep {
                a = a.duration_and_repeat(Duration::seconds(s), n);
            }
            e.alarm(a);
            told.push(t);
        }
        parents(&e, &told, &Todo::new(), &[], "many")?;
        st.step();
        st.state(&i);
        Ok(())
    });
    // every count and every duration
    let n = run.q(300_000, 10_000_000);
    let pow: Vec<u64> = (0..=32u32).flat_map(|b| (0..5u64).map(move |k| ((1u64 << b) + k).saturating_sub(2).min(u32::MAX as u64))).collect();
    run.cases("counts and durations", &format!("all numbers 0..{n} and those next to a power of two, as count and as seconds"), n + pow.len(), |i, st| {
        let v = if i < n { i as u64 } else { pow[i - n] };
        let a = Alarm::audio(Duration::zero()).duration_and_repeat(Duration::seconds(v as i64), v as u32);
        let t = Told { text: None, trig: 13, rep: Some((v as i64, v as u32)), extra: vec![] };
        complete(&mcomp(&a), &t, false, "number")?;
        if i % 64 == 0 || i >= n {
            alone(&a, &t, "number")?;
        }
        st.step();
        st.state(&v);
        Ok(())
    });
}
