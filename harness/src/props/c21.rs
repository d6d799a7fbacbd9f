//! C21: each written component has exactly one DTSTAMP and one UID.
use super::gen::*;
use super::*;
use chrono::{NaiveDateTime, TimeZone, Utc};
use std::collections::HashSet;

/// generated stamps lie between two readings of the clock
#[derive(Clone, Copy)]
struct Clock(chrono::DateTime<Utc>, std::time::Instant);
fn now() -> Clock {
    Clock(Utc::now(), std::time::Instant::now())
}
fn stamps_ok(gen: &[(String, String)], before: Clock) -> R {
    let after = now();
    // (somebody sets the clock meanwhile: allow for that)
    let wall = (after.0 - before.0).num_milliseconds();
    let set = (wall - after.1.duration_since(before.1).as_millis() as i64).abs() > 20;
    let slack = if set { 2 } else { 0 };
    let (before, after) = (before.0.timestamp() - slack, after.0.timestamp() + slack);
    for (s, _) in gen {
        if s.is_empty() {
            continue;
        }
        let t = NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ").map(|t| t.and_utc().timestamp());
        ensure!(
            t.is_ok_and(|t| t >= before && t <= after),
            "generated DTSTAMP is not the current UTC time",
            format!("{s}, while the clock showed {} to {}", before, after)
        );
    }
    Ok(())
}
fn distinct(gen: &[(String, String)], seen: &mut HashSet<String>, what: &str) -> R {
    for (_, u) in gen {
        if !u.is_empty() {
            ensure!(seen.insert(u.clone()), "generated UID used twice", format!("{u}: {what}"));
        }
    }
    Ok(())
}
/// counts DTSTAMP and UID lines per component, nothing else
fn exactly_one(w: &WComp, top: bool) -> R {
    for n in ["DTSTAMP", "UID"] {
        let k = w.lines.iter().filter(|l| l.0.name.eq_ignore_ascii_case(n)).count();
        let want = !top as usize;
        ensure!(k == want, format!("{k} {n} lines in one component"), format!("{w:?}"));
    }
    w.kids.iter().try_for_each(|k| exactly_one(k, false))
}
/// a calendar: written several times in several ways
fn check(m: &MCal, st: &mut Stats) -> R {
    let cal = calendar(m);
    let copy = c13::copy(&cal);
    let before = now();
    let mut seen = HashSet::new();
    let text: Result<String, _> = (&cal).try_into();
    let outs = [cal.to_string(), text.unwrap_or_default(), format!("{cal}")];
    for out in &outs {
        let mut gen = vec![];
        let w = group(&logical(out)?)?;
        ensure!(w.len() == 1, "not one calendar", out.clone());
        exactly_one(&w[0], true)?;
        check_written_cal(m, out, &mut gen)?;
        stamps_ok(&gen, before)?;
        distinct(&gen, &mut seen, out)?;
        st.step();
    }
    ensure!(cal == copy, "writing stored something in the calendar", format!("{m:?}"));
    for c in &cal.components {
        let (_, mc) = mcomp_cc(c);
        same!("properties after writing", "component", mc.props.contains_key("UID"), c_uid(c).is_some());
    }
    st.state(m);
    st.note(|| outs[0].clone());
    Ok(())
}
fn c_uid(c: &CalendarComponent) -> Option<String> {
    match c {
        CalendarComponent::Event(x) => x.get_uid().map(|s| s.into()),
        CalendarComponent::Todo(x) => x.get_uid().map(|s| s.into()),
        CalendarComponent::Venue(x) => x.get_uid().map(|s| s.into()),
        CalendarComponent::Other(x) => x.get_uid().map(|s| s.into()),
        _ => None,
    }
}
fn conv<C: TryInto<String>>(c: C) -> String {
    c.try_into().ok().unwrap_or_default()
}
/// one component alone, every way of writing it
fn alone<C: Component + Clone + PartialEq>(c: &C, m: &MComp, conv: Option<fn(C) -> String>, st: &mut Stats) -> R {
    let before = now();
    let copy = c.clone();
    let mut a = String::new();
    ensure!(c.fmt_write(&mut a).is_ok(), "writing failed", format!("{m:?}"));
    let b = Component::to_string(c);
    let d = c.try_into_string().unwrap_or_default();
    let e = conv.map(|f| f(c.clone())).unwrap_or_else(|| d.clone());
    let mut seen = HashSet::new();
    let n = 3 + conv.is_some() as usize;
    for out in [a, b, d, e].into_iter().take(n) {
        let w = group(&logical(&out)?)?;
        ensure!(w.len() == 1, "not one component", out);
        exactly_one(&w[0], false)?;
        let mut gen = vec![];
        check_written_comp(m, &out, &mut gen)?;
        stamps_ok(&gen, before)?;
        distinct(&gen, &mut seen, &out)?;
        st.step();
    }
    ensure!(*c == copy, "writing stored something in the component", format!("{m:?}"));
    st.state(m);
    Ok(())
}

/// what the user may have set
const USER: usize = 9;
fn user(m: &mut MComp, k: usize) {
    match k {
        0 => {}
        1 => m.set(MProp::new("DTSTAMP", "20240229T235959Z")),
        2 => m.set(MProp::new("UID", "u1")),
        3 => {
            m.set(MProp::new("DTSTAMP", "19700101T000000Z"));
            m.set(MProp::new("UID", "a,b;c\\d\n"))
        }
        4 => {
            m.set(MProp::new("UID", ""));
            m.set(MProp::new("DTSTAMP", ""))
        }
        5 => m.set(MProp::new("UID", "u1").with("X-P", "v")),
        6 => m.set(MProp::new("DTSTAMP", "20240101").with("VALUE", "DATE")),
        7 => {
            // names that merely look like them
            m.set(MProp::new("X-UID", "x"));
            m.set(MProp::new("DTSTAMPS", "20240101T000000Z"));
            m.set(MProp::new("CREATED", "20240101T000000Z"))
        }
        _ => {
            m.set(MProp::new("SUMMARY", "UID:fake\nDTSTAMP:fake"));
            m.set(MProp::new("RECURRENCE-ID", "20240101T000000Z"));
            m.add_multi(MProp::new("COMMENT", "UID:1"));
        }
    }
}

fn bits(out: &[String]) -> R {
    let ids: Vec<u128> = out.iter().filter_map(|u| u128::from_str_radix(&u.replace('-', ""), 16).ok()).collect();
    ensure!(ids.len() == out.len() && ids.len() >= 128, "generated UIDs are no UUIDs", format!("{out:?}"));
    let (any, all) = ids.iter().fold((0, u128::MAX), |(a, b), x| (a | x, b & x));
    // version and variant
    let fixed = 0xf << 76 | 0x3 << 62;
    ensure!((any ^ all) | fixed == u128::MAX, "bits of generated UIDs that are not random", format!("never set {:032x}, always set {:032x}", !any & !fixed, all & !fixed));
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("the clock of the machine is not changed by more than two seconds during the check; DTSTAMP and UID are not added as repeatable properties");
    let kinds = ["VEVENT", "VTODO", "VVENUE", "X-OTHER", "VALARM"];
    let node = |kind: &str, u: usize| -> MComp {
        let mut m = MComp::new(kind);
        user(&mut m, u);
        m
    };
    // every pair: a component and a child, alone
    run.cases("components", "5 kinds x 9 states of the user's properties, alone and with a child of 5 kinds x 9 states", 5 * 9 * (1 + 5 * 9), |i, st| {
        let mut d = Dec(i);
        let mut m = node(kinds[d.n(5)], d.n(USER));
        if d.0 > 0 {
            let j = d.0 - 1;
            m.kids.push(node(kinds[j % 5], j / 5));
        }
        match m.kind.as_str() {
            "VEVENT" => alone(&event(&m), &m, Some(conv), st),
            "VTODO" => alone(&todo(&m), &m, Some(conv), st),
            "VVENUE" => alone(&venue(&m), &m, Some(conv), st),
            "VALARM" => {
                m.set(MProp::new("ACTION", "AUDIO"));
                m.set(MProp::new("TRIGGER", "PT0S"));
                alone(&alarm(&m), &m, Some(conv), st)
            }
            k => match empty_generic(k) {
                CalendarComponent::Other(mut o) => {
                    fill(&mut o, &m);
                    alone(&o, &m, None, st)
                }
                _ => fail("wrong type", k),
            },
        }
    });
    // whatever a component is called and whatever else it holds
    let mut vocab = names_in_use();
    vocab.retain(|n| !["DTSTAMP", "UID"].contains(&n.to_uppercase().as_str()));
    let of: Vec<&str> = COMPONENTS.iter().copied().chain(["X-OTHER"]).collect();
    run.cases("names in use", &format!("{} component kinds x {} names of another property, single or repeated, x 4 states of DTSTAMP and UID: written alone, as a child and with a child", of.len(), vocab.len()), of.len() * vocab.len() * 2, |i, st| {
        let mut d = Dec(i);
        let multi = d.bool();
        let kind = of[d.n(of.len())];
        let n = vocab[d.0].as_str();
        // (the states take turns: each name meets each of them)
        let u = (d.0 + i) % 4;
        let mut m = node(kind, u);
        if multi {
            m.add_multi(MProp::new(n, "v"))
        } else {
            m.set(MProp::new(n, "v"))
        }
        let mut host = MComp::new("VEVENT");
        let mut kid = m.clone();
        kid.kids.push(MComp::new(kind));
        host.kids.push(kid);
        check(&MCal { props: vec![], comps: vec![m, host] }, st)
    });
    // pairs of other properties
    let all: Vec<&str> = TEXT_NAMES.iter().copied().chain(OTHER_TYPES.iter().map(|t| t.0)).filter(|n| !["DTSTAMP", "UID"].contains(n)).collect();
    run.cases("pairs of other properties", &format!("all pairs of {} names in an event and a generic component, neither DTSTAMP nor UID set", all.len()), all.len() * all.len(), |i, st| {
        let mut comps = vec![MComp::new("VEVENT"), MComp::new("STANDARD")];
        for c in &mut comps {
            c.set(MProp::new(all[i % all.len()], "20240229T120000Z"));
            c.set(MProp::new(all[i / all.len()], "20240229T120000Z"));
        }
        check(&MCal { props: vec![], comps }, st)
    });
    // nesting shapes
    let n = run.q(4, 5);
    let states = 4usize;
    let mut shapes = vec![];
    for k in 0..=n {
        for f in forests(k) {
            for lab in 0..(states * if k < n { 3 } else { 2 }).pow(k as u32) {
                shapes.push((f.clone(), lab, states * if k < n { 3 } else { 2 }));
            }
        }
    }
    run.cases(
        "nesting",
        &format!("all forests of < {n} components x 3 kinds x 4 states and of {n} components x 2 kinds x 4 states, in a calendar, written three times"),
        shapes.len(),
        |i, st| {
            let (f, lab, base) = &shapes[i];
            let comps = forest(
                f,
                |i, depth| {
                    let l = lab / base.pow(i as u32) % base;
                    node(["VEVENT", if depth == 0 { "VTODO" } else { "VALARM" }, "X-OTHER"][l / states], l % states)
                },
                |p, c| p.kids.push(c),
            );
            check(&MCal { props: if i % 2 == 0 { vec![] } else { default_props() }, comps }, st)
        },
    );
    // histories of the setters, with writing in between
    #[derive(Clone)]
    struct S {
        e: Event,
        t: Todo,
        m: MComp,
    }
    let depth = run.q(6, 8);
    let ops = 12;
    run.bfs(
        "histories",
        &format!("all sequences of <= {depth} of {ops} calls setting DTSTAMP and UID in all ways, finishing and writing, on an event and a to-do"),
        ops,
        depth,
        || S { e: Event::new(), t: Todo::new(), m: MComp::new("VEVENT") },
        |s, op, st| {
            let mut s = s.clone();
            let t = |h: u32| Utc.with_ymd_and_hms(2024, 2, 29, h, 59, 60 - 1).single().unwrap();
            match op {
                0 | 1 => {
                    let u = ["first", "second,;"][op];
                    s.e.uid(u);
                    s.t.uid(u);
                    s.m.set(MProp::new("UID", u));
                }
                2 | 3 => {
                    let h = [0, 23][op - 2];
                    s.e.timestamp(t(h));
                    s.t.timestamp(t(h));
                    s.m.set(MProp::new("DTSTAMP", ["20240229T005959Z", "20240229T235959Z"][op - 2]));
                }
                4 => {
                    s.e.add_property("UID", "third");
                    s.t.add_property("UID", "third");
                    s.m.set(MProp::new("UID", "third"));
                }
                5 => {
                    let p = MProp::new("DTSTAMP", "20000101T000000Z").with("X", "y");
                    s.e.append_property(p.build());
                    s.t.append_property(p.build());
                    s.m.set(p);
                }
                6 => {
                    s.e.created(t(1)).last_modified(t(2));
                    s.t.created(t(1)).last_modified(t(2));
                    s.m.set(MProp::new("CREATED", "20240229T015959Z"));
                    s.m.set(MProp::new("LAST-MODIFIED", "20240229T025959Z"));
                }
                7 => {
                    s.e = s.e.done();
                    s.t = s.t.done();
                }
                8 => {
                    // written and read again: now they are set
                    let out = calendar_of(&s.e).to_string();
                    let mut gen = vec![];
                    check_written_cal(&MCal { props: vec![], comps: vec![s.m.clone()] }, &out, &mut gen)?;
                    let want = with_generated(&s.m, &mut gen.iter());
                    let back: Calendar = out.parse().map_err(|e| Fail { known: None, what: "unreadable".into(), detail: e })?;
                    match back.components.into_iter().next() {
                        Some(CalendarComponent::Event(e)) => s.e = e,
                        _ => return fail("not read as an event", out),
                    }
                    same!("read again", "event", want, mcomp(&s.e));
                    s.t = Todo::new();
                    fill(&mut s.t, &want);
                    s.m = want;
                }
                9 => {
                    if s.m.kids.len() > 1 {
                        return Ok(None);
                    }
                    s.e.append_component(Todo::new().uid("kid").done());
                    s.t.append_component(Todo::new().uid("kid").done());
                    let mut k = MComp::new("VTODO");
                    k.set(MProp::new("UID", "kid"));
                    s.m.kids.push(k);
                }
                10 => {
                    if s.m.kids.len() > 1 {
                        return Ok(None);
                    }
                    s.e.append_component(Event::new());
                    s.t.append_component(Event::new());
                    s.m.kids.push(MComp::new("VEVENT"));
                }
                _ => {
                    // writing changes nothing
                    let _ = Component::to_string(&s.e) + &Component::to_string(&s.t);
                }
            }
            let mut mt = s.m.clone();
            mt.kind = "VTODO".into();
            alone(&s.e, &s.m, Some(conv), st)?;
            alone(&s.t, &mt, Some(conv), st)?;
            same!("uid", format!("{:?}", s.m), s.m.props.get("UID").map(|p| p.val.as_str()), s.e.get_uid());
            Ok(Some(s))
        },
        |s| {
            // generated values are all alike
            let mut m = s.m.clone();
            for p in m.props.values_mut() {
                if is_uuid4(&p.val) || p.val > "2025".to_string() && is_utc_stamp(&p.val) {
                    p.val = "*".into();
                }
            }
            h128(&m)
        },
    );
    // parsed trees get neither; converted ones do
    let names = ["VEVENT", "VTODO", "VCALENDAR", "CALENDAR", "calendar", "X-calendar", "VALARM", "A"];
    let props = [vec![], vec![tp("UID", &[], "u")], vec![tp("DTSTAMP", &[], "20240101T000000Z")], vec![tp("DTSTAMP", &[], "20240101T000000Z"), tp("UID", &[], "u"), tp("UID", &[], "v")]];
    big::stage(run, false, 1, |t, st| check(&big::big_cal(t), st));
    run.cases("parsed trees", "8 names x 4 sets of properties, with children of 8 names x 4 sets", 32 * 33, |i, st| {
        let mk = |j: usize| Tree { name: names[j % 8].into(), props: props[j / 8].clone(), kids: vec![] };
        let mut t = mk(i % 32);
        if i / 32 > 0 {
            t.kids.push(mk(i / 32 - 1));
            t.kids.push(mk(i / 32 - 1));
        }
        let cal = ip::Calendar { properties: vec![], components: vec![raw_tree(&t), raw_tree(&t)] };
        let out = cal.to_string();
        st.step();
        fn count(w: &WComp, t: &Tree) -> bool {
            w.lines.len() == t.props.len() && w.kids.len() == t.kids.len() && w.kids.iter().zip(&t.kids).all(|(a, b)| count(a, b))
        }
        let w = group(&logical(&out)?)?;
        let whole = Tree { name: "VCALENDAR".into(), props: vec![], kids: vec![t.clone(), t.clone()] };
        ensure!(w.len() == 1 && count(&w[0], &whole), "a parsed tree is written with lines it does not contain", out);
        // typed
        let typed_cal = Calendar::from(cal);
        let m = MCal { props: vec![], comps: vec![typed(&t), typed(&t)] };
        let before = now();
        let out = typed_cal.to_string();
        let mut gen = vec![];
        check_written_cal(&m, &out, &mut gen)?;
        stamps_ok(&gen, before)?;
        distinct(&gen, &mut HashSet::new(), &out)?;
        let w = group(&logical(&out)?)?;
        exactly_one(&w[0], true)?;
        st.state(&t);
        st.step();
        Ok(())
    });
    // many at once: all different
    let n = run.q(200_000, 2_000_000);
    let per = 2000;
    let all = std::sync::Mutex::new(HashSet::with_capacity(n));
    run.cases("random bits", "128 generated identifiers of components of 4 kinds: each of the 122 bits takes both values", 4, |i, st| {
        let mut out = vec![];
        while out.len() < 128 {
            let s = match i {
                0 => Component::to_string(&Event::new()),
                1 => Component::to_string(&Todo::new()),
                2 => Component::to_string(&Venue::new()),
                _ => Event::new().append_component(Venue::new()).done().try_into_string().unwrap_or_default(),
            };
            for l in logical(&s)? {
                if let Some(u) = l.strip_prefix("UID:") {
                    out.push(u.to_string())
                }
            }
            st.step();
        }
        bits(&out)
    });
    run.cases("many generated identifiers", &format!("{n} components in {} serializations on all threads: all identifiers differ", n / per), n / per, |_, st| {
        let mut c = Calendar::empty();
        for _ in 0..per / 2 {
            let mut e = Event::new();
            e.append_component(Todo::new());
            c.push(e.done());
        }
        let out = c.to_string();
        let uids: Vec<u128> = out
            .split("\r\n")
            .filter_map(|l| l.strip_prefix("UID:"))
            .filter(|u| is_uuid4(u))
            .filter_map(|u| u128::from_str_radix(&u.replace('-', ""), 16).ok())
            .collect();
        same!("identifiers", "1000 events with a to-do each", per, uids.len());
        let mut a = all.lock().unwrap_or_else(|e| e.into_inner());
        for u in uids {
            ensure!(a.insert(u), "generated UID used twice", format!("{u:x}"));
        }
        st.steps(per as u64);
        st.state(&a.len());
        Ok(())
    });
}
fn calendar_of(e: &Event) -> Calendar {
    let mut c = Calendar::empty();
    c.push(e.clone());
    c.done()
}
