//! C26: objects are equal exactly when their contents are; copies are equal and independent.
use super::gen::*;
use super::*;
use chrono::{Duration, NaiveDate, NaiveTime};
use std::fmt::Debug;

/// all ordered pairs of objects: equality is equality of the models, in both directions, of copies too
fn pairs<M: PartialEq + Debug + Sync, T: PartialEq + Clone + Debug + Sync>(run: &Run, name: &str, bounds: &str, all: &[(M, T)]) {
    let n = all.len();
    run.cases(name, &format!("{bounds}: all pairs of {n} objects"), n, |i, st| {
        let (m, a) = &all[i];
        let c = a.clone();
        same!("copy equal to the original", format!("{m:?}"), (true, true, false), (c == *a, *a == c, *a != c));
        for (k, b) in all {
            let want = m == k;
            let got = (a == b, b == a, a != b, c == *b);
            ensure!(got == (want, want, !want, want), "equality is not equality of contents", format!("{} and {}: {got:?}", clip(&format!("{m:?}")), clip(&format!("{k:?}"))));
            st.step();
        }
        st.state(&i);
        st.note(|| clip(&format!("{m:?}")));
        Ok(())
    });
}
fn kinds() -> [&'static str; 5] {
    ["VEVENT", "VTODO", "VVENUE", "VALARM", "X-K"]
}
/// one change of a component: everything that can differ
fn changes(m: &MComp) -> Vec<MComp> {
    let mut v = vec![];
    let mut with = |f: &dyn Fn(&mut MComp)| {
        let mut n = m.clone();
        f(&mut n);
        v.push(n);
    };
    let p_changes = |p: &MProp| -> Vec<MProp> {
        let mut v = vec![];
        for val in [p.val.to_lowercase(), p.val.to_uppercase(), format!("{} ", p.val), format!(" {}", p.val), format!("{}x", p.val), format!("{}\n", p.val), String::new(), p.val.chars().rev().collect()] {
            v.push(MProp { val, ..p.clone() });
        }
        v.push(p.clone().with("X-NEW", ""));
        v.push(p.clone().with("VALUE", "TEXT"));
        v.push(p.clone().with("RELATED", "START"));
        v.push(p.clone().with("TZID", "UTC"));
        for k in p.params.keys() {
            let mut q = p.clone();
            let old = q.params.remove(k).unwrap_or_default();
            v.push(q.clone());
            v.push(q.clone().with(k, &format!("{old}x")));
            v.push(q.clone().with(k, &old.to_lowercase()));
            v.push(q.clone().with(&k.to_lowercase(), &old));
            v.push(q.with(k, ""));
        }
        v
    };
    for k in ["UID", "DTSTAMP", "SEQUENCE", "LAST-MODIFIED", "CREATED", "X-A", "SUMMARY", "ATTENDEE"] {
        with(&|n| n.set(MProp::new(k, "new")));
        with(&|n| n.set(MProp::new(k, "")));
        with(&|n| n.add_multi(MProp::new(k, "new")));
        with(&|n| {
            n.props.remove(k);
        });
    }
    for (k, p) in &m.props {
        with(&|n| {
            n.props.remove(k);
        });
        for q in p_changes(p) {
            with(&|n| n.set(q.clone()));
        }
        for key in [p.key.to_lowercase(), format!("{}X", p.key)] {
            with(&|n| {
                n.props.remove(k);
                n.set(MProp { key: key.clone(), ..p.clone() });
            });
        }
        // single or repeated
        with(&|n| {
            n.props.remove(k);
            n.add_multi(p.clone());
        });
    }
    for (k, ps) in &m.multi {
        with(&|n| {
            n.multi.remove(k);
        });
        with(&|n| n.multi.get_mut(k).unwrap().reverse());
        with(&|n| n.multi.get_mut(k).unwrap().rotate_left(1));
        with(&|n| n.multi.get_mut(k).unwrap().dedup());
        for i in 0..ps.len() {
            if ps.len() > 1 {
                with(&|n| {
                    n.multi.get_mut(k).unwrap().remove(i);
                });
            }
            with(&|n| {
                let l = n.multi.get_mut(k).unwrap();
                l.insert(i, l[i].clone());
            });
            for q in p_changes(&ps[i]) {
                with(&|n| n.multi.get_mut(k).unwrap()[i] = q.clone());
            }
        }
    }
    with(&|n| n.kids.reverse());
    with(&|n| n.kids.clear());
    with(&|n| n.kids.push(MComp::new("X-K")));
    with(&|n| n.kids.push(MComp::new("VTODO")));
    with(&|n| n.kids.insert(0, MComp::new("VTODO")));
    for i in 0..m.kids.len() {
        with(&|n| {
            n.kids.remove(i);
        });
        with(&|n| {
            let k = n.kids[i].clone();
            n.kids.push(k);
        });
        with(&|n| {
            let k = n.kids.remove(i);
            n.kids.extend(k.kids);
        });
        for kind in ["VEVENT", "VTODO", "X-K", "X-k"] {
            with(&|n| n.kids[i].kind = kind.into());
        }
        for k in changes(&m.kids[i]) {
            with(&|n| n.kids[i] = k.clone());
        }
    }
    v
}
/// base components: small, and with everything
fn bases(kind: &str) -> Vec<MComp> {
    let mut full = MComp::new(kind);
    full.set(MProp::new("UID", "u-1"));
    full.set(MProp::new("DTSTAMP", "20240229T235959Z"));
    full.set(MProp::new("DTSTART", "20240229T120000").with("TZID", "Europe/Berlin"));
    full.set(MProp::new("SUMMARY", "Text, one").with("LANGUAGE", "en").with("ALTREP", "a:b"));
    full.add_multi(MProp::new("COMMENT", "a"));
    full.add_multi(MProp::new("COMMENT", "b").with("P", "Q"));
    full.add_multi(MProp::new("COMMENT", "b").with("P", "Q"));
    full.add_multi(MProp::new("ATTENDEE", "mailto:x"));
    if kind != "VALARM" {
        let mut a = MComp::new("VALARM");
        a.set(MProp::new("ACTION", "AUDIO"));
        a.set(MProp::new("TRIGGER", "-PT5M"));
        full.kids.push(a);
        let mut t = MComp::new("VTODO");
        t.set(MProp::new("SUMMARY", "kid"));
        t.kids.push(MComp::new("X-G"));
        full.kids.push(t);
    }
    vec![MComp::new(kind), full]
}
fn variants(kind: &str) -> Vec<MComp> {
    let mut v = vec![];
    for b in bases(kind) {
        v.push(b.clone());
        v.push(b.clone());
        v.extend(changes(&b));
    }
    // (an alarm always has these two)
    if kind == "VALARM" {
        for m in v.iter_mut() {
            m.set(MProp::new("ACTION", "AUDIO"));
            m.set(MProp::new("TRIGGER", "P0D"));
        }
    }
    for m in v.iter_mut() {
        fix(m)
    }
    v
}
/// nested alarms are built as generic components unless they have what an alarm has
fn fix(m: &mut MComp) {
    m.multi.retain(|_, v| !v.is_empty());
    m.kids.iter_mut().for_each(fix);
}
fn built<T>(v: Vec<MComp>, f: impl Fn(&MComp) -> T) -> Vec<(MComp, T)> {
    v.into_iter().map(|m| (m.clone(), f(&m))).collect()
}
/// the same content by another way: other order of calls, values overwritten, parameters the other way round
fn differently<C: Component>(c: &mut C, m: &MComp) {
    for k in m.props.keys() {
        c.append_property(Property::new(k.as_str(), "to be replaced").add_parameter("OLD", "x").done());
    }
    for p in m.props.values().rev() {
        let mut q = Property::new(p.key.as_str(), p.val.as_str());
        for (k, _) in p.params.iter().rev() {
            q.add_parameter(k, "to be replaced");
        }
        for (k, v) in p.params.iter().rev() {
            q.add_parameter(k, v);
        }
        c.append_property(q.done());
    }
    for k in &m.kids {
        add_kid(c, k);
    }
    for ps in m.multi.values().rev() {
        for p in ps {
            c.append_multi_property(p.build());
        }
    }
}
fn other_way(m: &MComp, st: &mut Stats) -> R {
    macro_rules! cmp {
        ($a:expr, $new:expr) => {{
            let a = $a;
            let mut b = $new;
            differently(&mut b, m);
            let b = b.done();
            ensure!(a == b && b == a, "equal contents, built differently", format!("{m:?}\n{a:?}\n{b:?}"));
        }};
    }
    match m.kind.as_str() {
        "VEVENT" => cmp!(event(m), Event::new()),
        "VTODO" => cmp!(todo(m), Todo::new()),
        "VVENUE" => cmp!(venue(m), Venue::new()),
        "VALARM" => cmp!(alarm(m), Alarm::audio(Duration::zero())),
        k => match (any_component(m), empty_generic(k)) {
            (CalendarComponent::Other(a), CalendarComponent::Other(mut b)) => {
                differently(&mut b, m);
                ensure!(a == b && b == a, "equal contents, built differently", format!("{m:?}"));
                // and by conversion
                let c: CalendarComponent = raw_comp(m).into();
                if m.multi.keys().all(|k| MULTI.contains(&k.as_str())) && m.props.keys().all(|k| !MULTI.contains(&k.as_str())) && !deep_alarm(m) {
                    ensure!(c == CalendarComponent::Other(a), "equal contents, converted", format!("{m:?}"));
                }
            }
            _ => return fail("wrong type", k),
        },
    }
    st.step();
    st.state(m);
    Ok(())
}
fn deep_alarm(m: &MComp) -> bool {
    m.kids.iter().any(|k| deep_alarm(k) || k.multi.keys().any(|k| !MULTI.contains(&k.as_str())) || k.props.keys().any(|k| MULTI.contains(&k.as_str())))
}
/// a copy and its original go separate ways
fn independent<C: Component + Clone + PartialEq>(c: &C, m: &MComp, st: &mut Stats) -> R {
    let mut a = c.clone();
    let mut b = c.clone();
    a.add_property("X-ONLY-A", "1").append_component(Todo::new());
    b.add_multi_property("X-ONLY-B", "1");
    ensure!(a != b && a != *c && b != *c, "copies are tied together", format!("{m:?}"));
    same!("the original", "after its copies have changed", *m, mcomp(c));
    let mut k = m.clone();
    k.set(MProp::new("X-ONLY-A", "1"));
    k.kids.push(MComp::new("VTODO"));
    same!("a changed copy", "", k, mcomp(&a));
    let mut k = m.clone();
    k.add_multi(MProp::new("X-ONLY-B", "1"));
    same!("another changed copy", "", k, mcomp(&b));
    let mut x = c.clone();
    x.clone_from(&a);
    ensure!(x == a, "clone_from", format!("{m:?}"));
    st.steps(4);
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("equality is the one of the == operator; names of properties and parameters count with their letter case");
    // texts and parameters
    let words = ["", "a", "A", "b", " a", "a ", "ab", "a,b", "a\\,b", "\n", "é", "e\u{301}", "TEXT", "text"];
    let keys = ["K", "k", "L", "KK", "VALUE", "TZID"];
    let strings: Vec<(String, ip::ParseString<'static>)> = words.iter().flat_map(|w| [(w.to_string(), ip::ParseString::from(*w)), (w.to_string(), ip::ParseString::from(w.to_string()))]).collect();
    pairs(run, "parsed strings", "14 texts, borrowed and owned", &strings);
    let k = run.q(4, 5);
    run.cases("forms of parsed strings", &format!("all words of <= {k} of 14 texts: every access gives the same text, owned or not"), words_upto(words.len(), k), |i, st| {
        let w = spell(i, &words);
        for p in [ip::ParseString::from(w.as_str()), ip::ParseString::from(w.clone())] {
            let all = [p.as_str().to_string(), p.as_ref().to_string(), p.to_string(), p.to_owned().to_string(), p.clone().into_owned().into(), p.to_owned().into(), format!("{p}")];
            for (n, t) in all.iter().enumerate() {
                ensure!(*t == w, "form of a parsed string", format!("form {n} of {w:?} is {t:?}"));
            }
            ensure!(p == w.as_str() && p == p.to_owned() && p != format!("{w}x").as_str(), "equality of a parsed string", w.clone());
            for t in vt_all() {
                let want = if vt_name(t) == "TEXT" { unesc(&w) } else { w.clone() };
                same!("unescaped by type", format!("{w:?} {t:?}"), want, p.clone().unescape_by_value_type(t).as_str());
            }
            st.steps(9);
        }
        st.state(&w);
        Ok(())
    });
    // compared with plain text
    run.cases("parsed strings and plain ones", "14 texts and 205 special ones against each other and against edits of themselves", words.len(), |i, st| {
        let all: Vec<String> = words.iter().map(|w| w.to_string()).chain(big::special().into_iter().flat_map(|s| [s.to_string(), s.to_uppercase(), s.to_lowercase(), s.trim().to_string(), format!("{s}\u{0}")])).collect();
        for a in all.iter().skip(i).step_by(words.len()) {
            let p = ip::ParseString::from(a.as_str());
            for b in &all {
                let q = ip::ParseString::from(b.as_str());
                let got = (p == b.as_str(), p != b.as_str(), p == q, p.to_owned() == b.as_str(), p.clone().into_owned() == q.into_owned());
                let want = a == b;
                ensure!(got == (want, !want, want, want, want), "equality is not equality of contents", format!("{a:?} and {b:?}: {got:?}"));
                st.step();
            }
            st.state(a);
        }
        Ok(())
    });
    named(run);
    long(run);
    many(run);
    let mut params: Vec<((String, String), Parameter)> = vec![];
    let mut raw: Vec<((String, Option<String>), ip::Parameter<'static>)> = vec![];
    for k in keys {
        for w in words {
            params.push(((k.into(), w.into()), Parameter::new(k, w)));
            raw.push(((k.into(), Some(w.into())), ip::Parameter { key: k.into(), val: Some(w.into()) }));
        }
        raw.push(((k.into(), None), ip::Parameter { key: k.into(), val: None }));
    }
    pairs(run, "parameters", "6 names x 14 values", &params);
    pairs(run, "parsed parameters", "6 names x 14 values or none", &raw);
    // properties
    let mut props = vec![];
    let mut tprops = vec![];
    for name in ["X-P", "x-p", "SUMMARY", "DTSTART"] {
        for val in ["", "a", "A", "20240101", " a", "a\\,b"] {
            let lists: [&[(&str, &str)]; 12] = [
                &[],
                &[("K", "")],
                &[("K", "v")],
                &[("K", "V")],
                &[("k", "v")],
                &[("L", "v")],
                &[("K", "v"), ("L", "w")],
                &[("L", "w"), ("K", "v")],
                &[("K", "w"), ("L", "v")],
                &[("VALUE", "DATE")],
                &[("VALUE", "TEXT")],
                &[("VALUE", "DATE"), ("K", "v")],
            ];
            for l in lists {
                let m = l.iter().fold(MProp::new(name, val), |m, (k, v)| m.with(k, v));
                // in the order of the list, not of the model
                let mut p = Property::new(name, val);
                l.iter().for_each(|(k, v)| {
                    p.add_parameter(k, v);
                });
                props.push((m, p.done()));
                let t = tp(name, &l.iter().map(|(k, v)| (*k, Some(*v))).collect::<Vec<_>>(), val);
                tprops.push((t.clone(), raw_tprop(&t)));
            }
            for l in [vec![("K", None)], vec![("K", Some("v")), ("K", Some("v"))], vec![("K", Some("v")), ("K", None)]] {
                let t = tp(name, &l, val);
                tprops.push((t.clone(), raw_tprop(&t)));
            }
        }
    }
    pairs(run, "properties", "4 names x 6 values x 12 parameter lists in the order given", &props);
    pairs(run, "parsed properties", "4 names x 6 values x 15 parameter lists", &tprops);
    // components: everything that can differ, one at a time
    pairs(run, "events", "a bare and a full one and all single changes of both", &built(variants("VEVENT"), event));
    pairs(run, "to-dos", "a bare and a full one and all single changes of both", &built(variants("VTODO"), todo));
    pairs(run, "venues", "a bare and a full one and all single changes of both", &built(variants("VVENUE"), venue));
    pairs(run, "alarms", "a bare and a full one and all single changes of both", &built(variants("VALARM"), alarm));
    pairs(run, "generic components", "a bare and a full one and all single changes of both", &built(variants("X-K"), any_component));
    let mut mixed = vec![];
    for k in ["VEVENT", "VTODO", "VVENUE", "VALARM", "X-K", "x-k", "VJOURNAL"] {
        for b in bases(k) {
            mixed.push((b.clone(), any_component(&b)));
            for c in changes(&b).into_iter().step_by(5) {
                mixed.push((c.clone(), CalendarComponent::from(match any_component(&c) {
                    CalendarComponent::Event(e) => CalendarComponent::Event(e),
                    o => o,
                })));
            }
        }
    }
    for (m, _) in mixed.iter_mut() {
        fix(m)
    }
    pairs(run, "components of all kinds", "7 kinds, bare, full and every fifth change", &mixed);
    let mut trees: Vec<Tree> = big_trees();
    for t in trees.clone() {
        trees.extend(tree_changes(&t));
    }
    let trees: Vec<_> = trees.into_iter().map(|t| (t.clone(), raw_tree(&t))).collect();
    pairs(run, "parsed components", "3 trees and all single changes of them", &trees);
    // the same document in other words: parsed trees are equal whatever buffer they borrow from
    run.cases("parsed again", "the trees above, parsed twice from different buffers, spelled in two ways", trees.len(), |i, st| {
        let t = &trees[i].0;
        let mut lines = vec![];
        spell_tree(t, &mut lines);
        let (a, b) = (join(&lines, "\r\n"), format!("\n{}", join(&lines, "\n")));
        if t.name.is_empty() || t.props.iter().any(|p| p.name.is_empty()) {
            return Ok(());
        }
        let (Ok(x), Ok(y)) = (ip::read_components(&a), ip::read_components(&b)) else { return Ok(()) };
        ensure!(x == y && y == x && x[0] == y[0], "trees of the same document differ", a);
        let same_tree = tree(&x[0]) == *t;
        ensure!((x[0] == raw_tree(t)) == same_tree, "a parsed tree and one made by hand", a);
        st.steps(2);
        st.state(&i);
        Ok(())
    });
    // built differently
    let all: Vec<MComp> = kinds().iter().flat_map(|k| variants(k)).collect();
    run.cases("built differently", &format!("{} components built in another order of calls, with values overwritten", all.len()), all.len(), |i, st| other_way(&all[i], st));
    run.cases("independence", &format!("copies of {} components changed", all.len()), all.len(), |i, st| {
        let m = &all[i];
        match m.kind.as_str() {
            "VEVENT" => independent(&event(m), m, st),
            "VTODO" => independent(&todo(m), m, st),
            "VVENUE" => independent(&venue(m), m, st),
            "VALARM" => independent(&alarm(m), m, st),
            _ => match any_component(m) {
                CalendarComponent::Other(o) => independent(&o, m, st),
                _ => fail("wrong type", format!("{m:?}")),
            },
        }?;
        st.state(m);
        Ok(())
    });
    // calendars (they cannot be copied)
    let mut cals: Vec<MCal> = vec![];
    let comps: Vec<MComp> = kinds().iter().flat_map(|k| bases(k)).collect();
    for props in [vec![], default_props(), vec![MProp::new("NAME", "a")], vec![MProp::new("NAME", "a"), MProp::new("NAME", "b")], vec![MProp::new("NAME", "b"), MProp::new("NAME", "a")], vec![MProp::new("name", "a")], vec![MProp::new("NAME", "a").with("K", "")], default_props().into_iter().rev().collect()] {
        let mut lists: Vec<Vec<MComp>> = vec![vec![]];
        for a in &comps {
            lists.push(vec![a.clone()]);
            for b in comps.iter().step_by(3) {
                lists.push(vec![a.clone(), b.clone()]);
            }
        }
        for c in changes(&comps[1]).into_iter().step_by(9) {
            lists.push(vec![c]);
        }
        for l in lists {
            cals.push(MCal { props: props.clone(), comps: l });
        }
    }
    for m in cals.iter_mut() {
        m.comps.iter_mut().for_each(fix)
    }
    let n = cals.len();
    let built: Vec<Calendar> = cals.iter().map(calendar).collect();
    run.cases("calendars", &format!("all pairs of {n} calendars: 8 lists of properties x lists of <= 2 components and changes"), n, |i, st| {
        let again = calendar(&cals[i]);
        for (j, b) in built.iter().enumerate() {
            let want = cals[i] == cals[j];
            let got = (again == *b, *b == again, again != *b);
            ensure!(got == (want, want, !want), "equality is not equality of contents", format!("{} and {}: {got:?}", clip(&format!("{:?}", cals[i])), clip(&format!("{:?}", cals[j]))));
            st.step();
        }
        st.state(&i);
        Ok(())
    });
    // dates and triggers
    let mut dates: Vec<(String, DatePerhapsTime)> = vec![];
    for (y, m, d) in [(2024, 1, 1), (2024, 1, 2), (2023, 12, 31), (0, 1, 1), (9999, 12, 31)] {
        let day = NaiveDate::from_ymd_opt(y, m, d).unwrap();
        dates.push((format!("{day}"), day.into()));
        for s in [0, 1, 3600, 43200, 86399] {
            for nano in [0, 1, 999_999_999] {
                let t = day.and_time(NaiveTime::from_num_seconds_from_midnight_opt(s, nano).unwrap());
                dates.push((format!("floating {t:?}"), t.into()));
                dates.push((format!("utc {t:?}"), t.and_utc().into()));
                for z in ["UTC", "utc", "Europe/Berlin", "Europe/Vienna", "", "Z"] {
                    dates.push((format!("{t:?} in {z}"), CalendarDateTime::WithTimezone { date_time: t, tzid: z.into() }.into()));
                }
            }
        }
    }
    pairs(run, "dates", "5 days, 5 times, 3 fractions in 8 forms", &dates);
    let mut trig: Vec<(String, Trigger)> = vec![];
    for ms in [0i64, 1, -1, 1000, -1000, 60_000, 3_600_000, 86_400_000, -86_400_000] {
        for r in [None, Some(Related::Start), Some(Related::End)] {
            trig.push((format!("{ms} {r:?}"), Trigger::Duration(Duration::milliseconds(ms), r)));
        }
    }
    for (s, x) in dates.iter().step_by(3) {
        if let DatePerhapsTime::DateTime(t) = x {
            trig.push((s.clone(), Trigger::DateTime(t.clone())));
        }
    }
    pairs(run, "triggers", "9 durations x 3 anchors, and times", &trig);
}
/// components, calendars and trees where one thing has a certain name
fn named(run: &Run) {
    let names = names_in_use();
    run.cases("names in use", &format!("{} names of properties, parameters and components: objects that differ in what has that name", names.len()), names.len(), |i, st| {
        let n = names[i].as_str();
        let mut all: Vec<MComp> = vec![];
        for kind in ["VEVENT", "VTODO", "VVENUE", "VALARM", n] {
            let mut bare = MComp::new(kind);
            if kind == "VALARM" {
                bare.set(MProp::new("ACTION", "AUDIO"));
                bare.set(MProp::new("TRIGGER", "P0D"));
            }
            all.push(bare.clone());
            let mut with = |f: &dyn Fn(&mut MComp)| {
                let mut m = bare.clone();
                f(&mut m);
                if kind != "VALARM" || (m.props["ACTION"].val == "AUDIO" && m.props["TRIGGER"].val == "P0D" && !m.multi.contains_key("ACTION")) {
                    all.push(m);
                }
            };
            for v in ["", "a", "A", "b", "a "] {
                with(&|m| m.set(MProp::new(n, v)));
                with(&|m| m.add_multi(MProp::new(n, v)));
                with(&|m| {
                    m.add_multi(MProp::new(n, "a"));
                    m.add_multi(MProp::new(n, v));
                });
                with(&|m| m.set(MProp::new("X-P", "x").with(n, v)));
                with(&|m| m.set(MProp::new("X-P", "x").with("K", "1").with(n, v)));
                with(&|m| m.set(MProp::new("SUMMARY", "x").with(n, v)));
                with(&|m| m.set(MProp::new(n, "x").with(n, v)));
            }
            if kind != "VALARM" {
                with(&|m| m.kids.push(MComp::new(n)));
                with(&|m| m.kids.extend([MComp::new(n), MComp::new(n)]));
                with(&|m| m.kids.extend([MComp::new("A"), MComp::new(n)]));
                with(&|m| m.kids.extend([MComp::new(n), MComp::new("A")]));
            }
        }
        let mut seen = std::collections::HashSet::new();
        all.retain(|m| seen.insert(crate::engine::h128(m)));
        let built: Vec<CalendarComponent> = all.iter().map(any_component).collect();
        let cals: Vec<Calendar> = all.iter().map(|m| calendar(&MCal { props: m.props.values().cloned().collect(), comps: vec![m.clone()] })).collect();
        for (j, a) in built.iter().enumerate() {
            let c = a.clone();
            same!("model of a copy", n, mcomp_cc(a), mcomp_cc(&c));
            let again = any_component(&all[j]);
            let cal = calendar(&MCal { props: all[j].props.values().cloned().collect(), comps: vec![all[j].clone()] });
            for (k, b) in built.iter().enumerate() {
                let want = j == k;
                let got = (a == b, c == *b, again == *b, cal == cals[k], cals[k] == cal);
                ensure!(got == (want, want, want, want, want), "equality is not equality of contents", format!("{} and {}: {got:?}", clip(&format!("{:?}", all[j])), clip(&format!("{:?}", all[k]))));
                st.step();
            }
        }
        // calendars that differ in one property only
        let lists: Vec<Vec<MProp>> = vec![vec![], vec![MProp::new(n, "a")], vec![MProp::new(n, "b")], vec![MProp::new(n, "")], vec![MProp::new(n, "a"), MProp::new(n, "a")], vec![MProp::new(n, "a").with("K", "v")], vec![MProp::new("X-P", "a").with(n, "v")], vec![MProp::new("X-P", "a").with(n, "w")], vec![MProp::new("X-P", "a")], vec![MProp::new("X-P", "a"), MProp::new(n, "a")], vec![MProp::new(n, "a"), MProp::new("X-P", "a")]];
        let lists: Vec<Vec<MProp>> = lists.iter().cloned().chain(lists.iter().map(|l| default_props().into_iter().chain(l.clone()).collect())).collect();
        for a in &lists {
            for b in &lists {
                let x = calendar(&MCal { props: a.clone(), comps: vec![] });
                let y = calendar(&MCal { props: b.clone(), comps: vec![] });
                ensure!((x == y) == (a == b), "equality is not equality of contents", format!("calendars of {a:?} and {b:?}"));
                st.step();
            }
        }
        // trees
        let t = in_use(n);
        let mut trees = tree_changes(&t);
        trees.insert(0, t);
        let real: Vec<ip::Component> = trees.iter().map(raw_tree).collect();
        for (j, a) in real.iter().enumerate().take(3) {
            let c = a.clone();
            for (k, b) in real.iter().enumerate() {
                let want = trees[j] == trees[k];
                let got = (a == b, c == *b, *b == c);
                ensure!(got == (want, want, want), "equality is not equality of contents", format!("{} and {}: {got:?}", clip(&format!("{:?}", trees[j])), clip(&format!("{:?}", trees[k]))));
                st.step();
            }
        }
        st.state(n);
        Ok(())
    });
}
/// long texts that differ in one place
fn long(run: &Run) {
    let lens = sizes(run.q(300, 1200), run.q(20_000, 300_000));
    run.cases("one place in a long text", &format!("{} lengths up to {}: texts that differ at one place, everywhere a text can stand", lens.len(), lens[lens.len() - 1]), lens.len(), |i, st| {
        let n = lens[i];
        let base = "a".repeat(n);
        let spots: Vec<usize> = if n <= 300 { (0..n).collect() } else { sizes(2, n / 2).into_iter().flat_map(|k| [k, n - 1 - k]).collect() };
        let all = |t: &str| {
            let p = Property::new("X-P", t);
            let q = Property::new(t, "v");
            let mut r = Property::new("X-P", "v");
            r.add_parameter("K", t);
            let mut s = Property::new("X-P", "v");
            s.add_parameter(t, "v");
            (p, q, r.done(), s.done())
        };
        let trees = |t: &str| [raw_tprop(&tp("P", &[], t)), raw_tprop(&tp(t, &[], "v")), raw_tprop(&tp("P", &[("K", Some(t))], "v")), raw_tprop(&tp("P", &[(t, None)], "v"))];
        let a = all(&base);
        let x = trees(&base);
        let kind = empty_generic(&base);
        let z = CalendarDateTime::WithTimezone { date_time: Default::default(), tzid: base.clone() };
        ensure!(a == all(&base) && a.clone() == a && x == trees(&base) && x.clone() == x && kind == empty_generic(&base) && z == z.clone(), "equal contents, long", n.to_string());
        for s in spots {
            if s >= n {
                continue;
            }
            let mut other = base.clone();
            other.replace_range(s..s + 1, "b");
            let b = all(&other);
            let y = trees(&other);
            let (p, q) = (ip::ParseString::from(base.as_str()), ip::ParseString::from(other.as_str()));
            let same = [a.0 == b.0, a.1 == b.1, a.2 == b.2, a.3 == b.3, x[0] == y[0], x[1] == y[1], x[2] == y[2], x[3] == y[3], p == q, p == other.as_str(), kind == empty_generic(&other), z == CalendarDateTime::WithTimezone { date_time: Default::default(), tzid: other.clone() }];
            ensure!(same == [false; 12], "equality is not equality of contents", format!("texts of length {n} that differ at {s}: {same:?}"));
            st.step();
        }
        st.state(&n);
        Ok(())
    });
}
/// many of a kind, one of them different
fn many(run: &Run) {
    let counts = sizes(run.q(70, 300), run.q(1100, 5000));
    run.cases("one of many", &format!("{} counts up to {}: objects with that many parts of a kind, of which one is different, missing or in another place", counts.len(), counts[counts.len() - 1]), counts.len() * 7, |i, st| {
        let (n, dim) = (counts[i / 7], i % 7);
        let make = |vals: &[usize]| -> CalendarComponent {
            let mut e = Event::new();
            for v in vals {
                let t = v.to_string();
                let name = format!("X-{v}");
                match dim {
                    0 => {
                        e.append_property(Property::new(&name, &t).done());
                    }
                    1 => {
                        e.append_multi_property(Property::new("COMMENT", &t));
                    }
                    2 => {
                        e.append_multi_property(Property::new(&name, &t));
                    }
                    3 => {
                        e.append_component(Todo::new().summary(&t).done());
                    }
                    _ => {}
                }
            }
            if dim == 4 {
                let mut p = Property::new("X-P", "v");
                for v in vals {
                    p.add_parameter(&format!("K{v}"), "v");
                }
                e.append_property(p.done());
            }
            e.done().into()
        };
        let cal = |vals: &[usize]| {
            let mut c = Calendar::empty();
            for v in vals {
                if dim == 5 {
                    c.append_property(("X-P", format!("{v}").as_str()));
                }
                if dim == 6 {
                    c.push(Todo::new().summary(&format!("{v}")).done());
                }
            }
            c
        };
        let raw = |vals: &[usize]| -> ip::Component<'static> {
            let mut t = Tree { name: "A".into(), props: vec![], kids: vec![] };
            for v in vals {
                match dim {
                    0..=2 => t.props.push(tp("P", &[], &v.to_string())),
                    3 => t.kids.push(Tree { name: v.to_string(), props: vec![], kids: vec![] }),
                    _ => {}
                }
            }
            if dim == 4 {
                t.props.push(TProp { name: "P".into(), params: vals.iter().map(|v| (v.to_string(), None)).collect(), val: "v".into() });
            }
            raw_tree(&t)
        };
        let base: Vec<usize> = (0..n).collect();
        // (in which the order counts)
        let ordered = [1, 3, 5, 6].contains(&dim);
        let mut others: Vec<Vec<usize>> = vec![];
        for k in sizes(2, n).into_iter().flat_map(|k| [k, n.saturating_sub(k + 1)]).filter(|k| *k < n) {
            let mut v = base.clone();
            v[k] = 1_000_000;
            others.push(v.clone());
            v.remove(k);
            others.push(v);
            let mut v = base.clone();
            v.push(2_000_000 + k);
            others.push(v);
            if ordered && k + 1 < n {
                let mut v = base.clone();
                v.swap(k, k + 1);
                others.push(v.clone());
                let x = v.remove(0);
                v.push(x);
                if v != base {
                    others.push(v);
                }
            }
        }
        let (a, c, r) = (make(&base), cal(&base), raw(&base));
        ensure!(a == make(&base) && a.clone() == a && c == cal(&base) && c13::copy(&c) == c && r == raw(&base) && r.clone() == r, "equal contents, many", format!("{n} in dimension {dim}"));
        for o in &others {
            let (x, y, z) = (make(o), cal(o), raw(o));
            let differ = if dim < 5 { (a != x, x != a, true, r != z) } else { (true, true, c != y && y != c, true) };
            ensure!(differ == (true, true, true, true), "equality is not equality of contents", format!("{n} in dimension {dim}: {} of them, {differ:?}", o.len()));
            st.step();
        }
        st.state(&(n, dim));
        Ok(())
    });
}
fn big_trees() -> Vec<Tree> {
    let bare = Tree { name: "VEVENT".into(), props: vec![], kids: vec![] };
    let mut some = bare.clone();
    some.props = vec![tp("SUMMARY", &[("K", Some("v")), ("L", None)], "a"), tp("X-A", &[], "1"), tp("X-A", &[], "2"), tp("ATTENDEE", &[("CN", Some("x:y"))], "m")];
    let mut deep = some.clone();
    deep.kids = vec![some.clone(), bare.clone(), Tree { name: "A".into(), props: vec![], kids: vec![bare.clone(), some.clone()] }];
    vec![bare, some, deep]
}
fn tree_changes(t: &Tree) -> Vec<Tree> {
    let mut v = vec![];
    let mut with = |f: &dyn Fn(&mut Tree)| {
        let mut n = t.clone();
        f(&mut n);
        v.push(n);
    };
    for name in [t.name.to_lowercase(), format!("{}X", t.name), String::new()] {
        with(&|n| n.name = name.clone());
    }
    with(&|n| n.props.reverse());
    with(&|n| n.kids.reverse());
    with(&|n| n.props.push(tp("UID", &[], "new")));
    with(&|n| n.kids.push(Tree { name: "A".into(), props: vec![], kids: vec![] }));
    for i in 0..t.props.len() {
        with(&|n| {
            n.props.remove(i);
        });
        with(&|n| n.props.push(n.props[i].clone()));
        for val in ["", "A", "a ", "\\a"] {
            with(&|n| n.props[i].val = val.into());
        }
        for name in ["UID", "summary", ""] {
            with(&|n| n.props[i].name = name.into());
        }
        with(&|n| n.props[i].params.reverse());
        with(&|n| n.props[i].params.push(("N".into(), None)));
        with(&|n| n.props[i].params.push(("N".into(), Some(String::new()))));
        for k in 0..t.props[i].params.len() {
            with(&|n| {
                n.props[i].params.remove(k);
            });
            with(&|n| n.props[i].params[k].1 = None);
            with(&|n| n.props[i].params[k].1 = Some(String::new()));
            with(&|n| n.props[i].params[k].1 = Some("V".into()));
            with(&|n| n.props[i].params[k].0 = "k".into());
        }
    }
    for i in 0..t.kids.len() {
        with(&|n| {
            n.kids.remove(i);
        });
        for k in tree_changes(&t.kids[i]) {
            with(&|n| n.kids[i] = k.clone());
        }
    }
    v
}
