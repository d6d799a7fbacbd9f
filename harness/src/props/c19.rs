//! C19: typed calendars contain everything the document said.
use super::c06::sample_docs;
use super::c12::edits;
use super::gen::*;
use super::*;

fn judge(what: &str, trees: &[Tree], got: &[MComp]) -> R {
    let want: Vec<MComp> = trees.iter().map(typed).collect();
    if got == want {
        return Ok(());
    }
    fail("typed component differs from the document", format!("{what}\nexpected {}\ngot      {}", clip(&format!("{want:?}")), clip(&format!("{got:?}"))))
}
fn judge_cal(what: &str, props: &[MProp], trees: &[Tree], c: &Calendar) -> R {
    let m = mcal(c)?;
    same!("calendar properties", what, props, &m.props[..]);
    judge(what, trees, &m.comps)
}
/// a calendar with these properties and components: every way of making it typed
pub fn check(props: &[TProp], trees: &[Tree], st: &mut Stats) -> R {
    let root = Tree { name: "VCALENDAR".into(), props: props.to_vec(), kids: trees.to_vec() };
    let want: Vec<MProp> = props.iter().map(typed_prop).collect();
    let mut lines = vec![];
    spell_tree(&root, &mut lines);
    let text = join(&lines, "\r\n");
    // from trees made by hand
    let cal = ip::Calendar { properties: props.iter().map(raw_tprop).collect(), components: trees.iter().map(raw_tree).collect() };
    judge_cal(&format!("from a tree: {root:?}"), &want, trees, &Calendar::from(cal))?;
    judge_cal(&format!("from a list of trees: {root:?}"), &want, trees, &Calendar::from(vec![raw_tree(&root)]))?;
    let only: Calendar = trees.iter().map(raw_tree).collect::<Vec<_>>().into();
    if trees.first().is_some_and(|t| t.name != "VCALENDAR") {
        judge_cal(&format!("from a list of components: {root:?}"), &default_props(), trees, &only)?;
    }
    for t in trees {
        let (_, m) = mcomp_cc(&CalendarComponent::from(raw_tree(t)));
        judge(&format!("one component: {t:?}"), std::slice::from_ref(t), &[m])?;
        let c: CalendarComponent = raw_tree(t).into();
        same!("variant", t.name, variant_of(&t.name), mcomp_cc(&c).0);
        let shown = [c.as_event().is_some(), c.as_todo().is_some()];
        same!("access by type", t.name, ["Event", "Todo"].map(|v| v == variant_of(&t.name)), shown);
        st.steps(2);
    }
    // from text
    let cal = match ip::read_calendar(&text) {
        Ok(c) => c,
        Err(e) => return fail("well-formed document rejected", e),
    };
    judge_cal(&text, &want, trees, &Calendar::from(cal))?;
    judge_cal(&text, &want, trees, &Calendar::from(parsed_all(&text)?))?;
    match text.parse::<Calendar>() {
        Ok(c) => judge_cal(&text, &want, trees, &c)?,
        Err(e) => return fail("well-formed document rejected", e),
    }
    for t in trees {
        let mut lines = vec![];
        spell_tree(t, &mut lines);
        let text = join(&lines, "\n");
        match text.parse::<CalendarComponent>() {
            Ok(c) => judge(&text, std::slice::from_ref(t), &[mcomp_cc(&c).1])?,
            Err(e) => return fail("well-formed component rejected", format!("{text}: {e}")),
        }
    }
    // single properties
    for p in props.iter().chain(trees.iter().flat_map(|t| &t.props)) {
        same!("property", format!("{p:?}"), typed_prop(p), mprop(&Property::from(raw_tprop(p))));
        let line = spell_prop(p);
        match line.parse::<Property>() {
            Ok(q) => same!("property from text", line, typed_prop(p), mprop(&q)),
            Err(e) => return fail("well-formed property rejected", format!("{line}: {e}")),
        }
        for q in &raw_tprop(p).params {
            let t = Parameter::from(q.clone());
            same!(
                "parameter",
                format!("{p:?}"),
                (q.key.as_str().to_string(), q.val.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default()),
                (t.key().to_string(), t.value().to_string())
            );
        }
        st.steps(2);
    }
    st.steps(5);
    st.state(&root);
    st.note(|| text.clone());
    Ok(())
}
fn comp(name: &str, props: Vec<TProp>) -> Tree {
    Tree { name: name.into(), props, kids: vec![] }
}

pub fn run(run: &Run) {
    run.assume("repeatable names are the eleven RFC 5545 lists for VEVENT, VTODO, VJOURNAL and VFREEBUSY; the placeholder names IANA-PROP and X-PROP, which name no property, are left open");
    // component names
    let known_names = ["VEVENT", "VTODO", "VVENUE", "VALARM", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VCALENDAR", "VAVAILABILITY"];
    let mut names: Vec<String> = super::gen::names_in_use();
    names.extend(["VTASK", "VMEETING", "VAPPOINTMENT", "VACATION", "EVENT", "TODO", "TASK", "VENUE", "ALARM", "VNOTE", "VPOLL", "VOTER", "VRESOURCE", "VPATCH", "VLOCATION", "PARTICIPANT", "VCARD", "VVENUES", "VLOC", "VDAY"].map(String::from));
    for n in known_names {
        names.push(n.into());
        names.push(n.to_lowercase());
        names.push(format!("X-{n}"));
        names.extend(edits(n, &['V', 'X', 'S', '-', '1']));
    }
    names.sort();
    names.dedup();
    names.retain(|n| !n.is_empty() && !["BEGIN", "END"].contains(&n.to_uppercase().as_str()));
    run.cases("component names", &format!("{} names (and their single-letter edits) at 3 levels", names.len()), names.len(), |i, st| {
        let n = &names[i];
        let p = |v: &str| vec![tp("SUMMARY", &[], v), tp("ATTENDEE", &[("K", None)], v), tp("UID", &[], v)];
        let mut mid = comp("VEVENT", p("b"));
        mid.kids.push(comp(n, p("c")));
        mid.kids.push(comp("VALARM", vec![]));
        mid.kids.push(comp(n, vec![]));
        let mut top = comp(n, p("a"));
        top.kids.push(mid.clone());
        check(&[], &[top, comp("VTODO", p("x")), comp(n, vec![]), mid], st)
    });
    // sequences of properties
    let alpha = [
        tp("SUMMARY", &[], "1"),
        tp("SUMMARY", &[("K", Some("v"))], "2"),
        tp("ATTENDEE", &[("K", None)], "mailto:a"),
        tp("ATTENDEE", &[], "mailto:b"),
        tp("COMMENT", &[("K", Some("a:b"))], "x,\ny"),
        tp("X-A", &[("K", Some("1")), ("L", None)], "\\n"),
        tp("X-A", &[], ""),
        tp("RELATED-TO", &[], "u"),
    ];
    let n = run.q(5, 6);
    run.cases("property sequences", &format!("all sequences of <= {n} of 8 properties (4 names), in a calendar, an event, a generic and a nested component"), words_upto(8, n), |i, st| {
        let ps: Vec<TProp> = word(i, 8).into_iter().map(|x| alpha[x].clone()).collect();
        let mut e = comp("VEVENT", ps.clone());
        e.kids.push(comp("VALARM", ps.clone()));
        check(&ps, &[e, comp("X-G", ps.clone())], st)
    });
    // every name of the standard, repeated
    let names: Vec<&str> = TEXT_NAMES.iter().copied().chain(OTHER_TYPES.iter().map(|t| t.0)).chain(["X-A", "attendee", "Attendee", "ATTENDEES", "X-ATTENDEE"]).collect();
    // (the two placeholders name no property)
    let names: Vec<String> = {
        let mut v: Vec<String> = names.iter().chain(VOCABULARY).map(|s| s.to_string()).collect();
        for n in MULTI {
            v.extend(edits(n, &['A', 'S', 'X', '-', '1', '.', '_']));
            v.extend([format!("X-{n}"), format!("{n}-X"), format!("{n}{n}")]);
        }
        let reserved = ["BEGIN", "END", "IANA-PROP", "X-PROP", ""];
        v.retain(|n| !reserved.contains(&n.to_uppercase().as_str()));
        v.sort();
        v.dedup();
        v
    };
    run.cases("names repeated", &format!("{} names x 1..=4 occurrences x 4 component types x alone or among others", names.len()), names.len() * 4 * 4 * 2, |i, st| {
        let mut d = Dec(i);
        let (mixed, times, kind) = (d.bool(), d.n(4) + 1, d.of(&["VEVENT", "VTODO", "VVENUE", "VJOURNAL"]));
        let n = names[d.0].as_str();
        let mut ps = vec![];
        for k in 0..times {
            if mixed {
                ps.push(tp("X-SEP", &[], &k.to_string()));
                ps.push(tp("ATTACH", &[], &k.to_string()));
            }
            let v = (k * 7 % 5).to_string(); // not in order
            ps.push(tp(n, &[("N", Some(&v)), ("E", None)], &v));
        }
        let mut t = comp(kind, ps.clone());
        t.kids.push(comp("VALARM", ps.clone()));
        check(&ps, &[t], st)
    });
    let used = names_in_use();
    run.cases("names in use", &format!("{} names of properties, parameters and components that the standards and other programs use, each as property, parameter and component", used.len()), used.len(), |i, st| {
        let t = in_use(&used[i]);
        check(&t.props, &t.kids, st)?;
        check(&t.props.clone(), &[t], st)
    });
    // parameters
    let pv = [None, Some("v"), Some("w:x"), Some("é, ")];
    let keys = ["A", "B", "A"];
    let n = run.q(4, 5);
    run.cases("parameter lists", &format!("all lists of <= {n} parameters of 2 names x 4 values"), words_upto(12, n), |i, st| {
        let w = word(i, 12);
        let p = TProp {
            name: "X-P".into(),
            val: "v".into(),
            params: w.iter().map(|x| (keys[x % 3].to_string(), pv[x / 3].map(|s| s.to_string()))).collect(),
        };
        let mut q = p.clone();
        q.name = "ATTENDEE".into();
        check(&[p.clone()], &[comp("VEVENT", vec![p, q.clone(), q])], st)
    });
    let cat = catalogue();
    run.cases("catalogue", "all pairs of the properties of the catalogue", cat.len() * cat.len(), |i, st| {
        let ps = vec![cat[i / cat.len()].clone(), cat[i % cat.len()].clone()];
        check(&ps, &[comp("VTODO", ps.clone())], st)
    });
    // shapes
    let n = run.q(5, 6);
    let labels = ["VEVENT", "VALARM", "VCALENDAR", "VTODO"];
    let mut shapes = vec![];
    for k in 0..=n {
        let base: usize = if k <= 4 { 4 } else { 3 };
        for f in forests(k) {
            for lab in 0..base.pow(k as u32) {
                shapes.push((f.clone(), lab, base));
            }
        }
    }
    run.cases("shapes", &format!("all forests of <= {n} components with 3 or 4 names"), shapes.len(), |i, st| {
        let (f, lab, base) = &shapes[i];
        let trees = forest(
            f,
            |i, _| comp(labels[lab / base.pow(i as u32) % base], vec![tp("UID", &[], &i.to_string()), tp("COMMENT", &[], "c"), tp("COMMENT", &[], &i.to_string())]),
            |p, c| p.kids.push(c),
        );
        check(&[tp("VERSION", &[], "2.0")], &trees, st)
    });
    // the type comes from the name alone, whatever the component holds
    let of: Vec<&str> = COMPONENTS.to_vec();
    let kinds_in = ["VEVENT", "VTODO", "VVENUE", "VALARM", "X-OTHER"];
    let held: Vec<&str> = TEXT_NAMES.iter().copied().chain(OTHER_TYPES.iter().map(|t| t.0)).chain(["X-A"]).collect();
    let sets = held.len() + 2;
    run.cases("what a component holds", &format!("{} component names x no property, one of {} or all x no child, one or two of 5 kinds x children with and without properties", of.len(), held.len()), of.len() * sets * 31 * 2, |i, st| {
        let mut d = Dec(i);
        let bare = d.bool();
        let kids = d.n(31);
        let set = d.n(sets);
        let prop = |n: &&str| tp(n, &[], "1");
        let mut t = comp(of[d.0], if set == 0 { vec![] } else if set <= held.len() { vec![prop(&held[set - 1])] } else { held.iter().map(prop).collect() });
        let kid = |k: usize| comp(kinds_in[k], if bare { vec![] } else { vec![tp("SUMMARY", &[], "k")] });
        if kids > 0 {
            t.kids.push(kid((kids - 1) % 5));
            if kids > 5 {
                t.kids.push(kid((kids - 6) / 5));
            }
        }
        let host = Tree { name: "VEVENT".into(), props: vec![], kids: vec![t.clone()] };
        check(&[], &[t, host], st)
    });
    // values as they occur, under every name and beside every parameter
    let vals = [
        "20240101", "20240101T000000", "20240101T000000Z", "20240101,20240102", "20240101T000000Z/PT1H", "PT1H", "-PT15M", "P1D", "{a}", "<a>", "\"a\"", "'a'", "(a)", "[a]", "a/", "a.", "a;", "a,", "/a", "0", "00", "01", "1", "-1", "1.0", "1;2", "1,2", "TRUE",
        "true", "yes", "MAILTO:a", "mailto:a", "Mailto:A@B.C", "http://a/", "HTTP://A", "http://a/?b=c&d=%20", "cid:a", "data:,a", "UTF-8", "utf-8", "8BIT", "BASE64", "QUOTED-PRINTABLE", "en", "en-US", "text/plain", "START", "END", "THISANDFUTURE", "PARENT", "CHILD", "CHAIR",
        "ACCEPTED", "NEEDS-ACTION", "INDIVIDUAL", "BUSY", "CLIENT", "NONE", "PUBLIC", "public", "OPAQUE", "opaque", "CONFIRMED", "confirmed", "DISPLAY", "Europe/Berlin", "/a/Europe/Berlin", "UTC", "GMT", "Z", "+0100", "+0000", "-0000", "+000000", "2.0", "GREGORIAN",
        "gregorian", "REQUEST", "FREQ=DAILY", "FREQ=DAILY;", "freq=daily", "FREQ=DAILY;INTERVAL=1", "FREQ=DAILY;COUNT=1;UNTIL=20240101", "2.0;Success", "3.1;Invalid;X:y", "&amp;", "&lt;", "%41", "=41", "null", "None", "-", "_", "é", "É", "e\u{301}", "\u{feff}a", "a\u{feff}",
    ];
    let pnames: Vec<&str> = held.iter().copied().chain(["NAME", "X-WR-CALNAME", "x-a"]).collect();
    run.cases("values as they occur", &format!("{} names x {} values x no parameter or one of 3", pnames.len(), vals.len()), pnames.len() * vals.len() * 4, |i, st| {
        let mut d = Dec(i);
        let ps: &[(&str, Option<&str>)] = [&[][..], &[("K", Some("w"))], &[("TZID", Some("A"))], &[("LANGUAGE", Some("en"))]][d.n(4)];
        let v = vals[d.n(vals.len())];
        let p = tp(pnames[d.0], ps, v);
        check(std::slice::from_ref(&p), &[comp(["VEVENT", "VTODO", "VVENUE", "VFREEBUSY"][i / 7 % 4], vec![p.clone(), tp("X-B", &[], v)])], st)
    });
    run.cases("parameters as they occur", &format!("{} parameters x {} values in 4 properties, alone and beside another", PARAMETERS.len(), vals.len()), PARAMETERS.len() * vals.len() * 4 * 2, |i, st| {
        let mut d = Dec(i);
        let n = ["SUMMARY", "ATTENDEE", "DTSTART", "X-B"][d.n(4)];
        let two = d.bool();
        let v = vals[d.n(vals.len())];
        let k = PARAMETERS[d.0];
        if v.contains(['"', ',']) {
            return Ok(());
        }
        let mut ps = vec![(k, Some(v))];
        if two {
            ps.push(("X-K", Some(v)));
        }
        let p = tp(n, &ps, "1");
        check(std::slice::from_ref(&p), &[comp("VEVENT", vec![p.clone()])], st)
    });
    // properties and components in any order
    let more = Alphabet::new(&["VTODO", "VVENUE", "X-OTHER"], vec![tp("SUMMARY", &[], "c"), tp("COMMENT", &[], "d")]);
    let n = run.q(7, 9);
    let words = more.words(n);
    run.cases("more documents", &format!("all documents of <= {n} lines over 3 other names and 2 properties, in a calendar"), words.len(), |i, st| check(&[], &more.render(&words[i]).1, st));
    let a = Alphabet::new(
        &["VEVENT", "VALARM"],
        vec![tp("SUMMARY", &[("K", None)], "a,b\n"), tp("SUMMARY", &[], "c"), tp("ATTENDEE", &[], "mailto:x"), tp("ATTENDEE", &[("P", Some("1")), ("P", Some("2"))], "mailto:y")],
    );
    let n = run.q(6, 7);
    let words = a.words(n);
    run.cases("documents", &format!("all documents of <= {n} lines over 2 names and 4 properties, in a calendar with properties before and after"), words.len(), |i, st| {
        let (lines, trees) = a.render(&words[i]);
        let text = format!("BEGIN:VCALENDAR\r\nNAME:1\r\n{}NAME:2\r\nX-A:b\r\nEND:VCALENDAR\r\n", join(&lines, "\r\n"));
        let want = [MProp::new("NAME", "1"), MProp::new("NAME", "2"), MProp::new("X-A", "b")];
        let cal = match ip::read_calendar(&text) {
            Ok(c) => c,
            Err(e) => return fail("well-formed document rejected", e),
        };
        judge_cal(&text, &want, &trees, &Calendar::from(cal))?;
        judge_cal(&text, &want, &trees, &Calendar::from(parsed_all(&text)?))?;
        match text.parse::<Calendar>() {
            Ok(c) => judge_cal(&text, &want, &trees, &c)?,
            Err(e) => return fail("well-formed document rejected", e),
        }
        // without the calendar around it
        let bare = join(&lines, "\n");
        match bare.parse::<Calendar>() {
            Ok(c) => judge_cal(&bare, &[], &trees, &c)?,
            Err(e) => return fail("well-formed document rejected", e),
        }
        st.state(&trees);
        st.steps(4);
        Ok(())
    });
    let docs = sample_docs();
    run.cases("deep and wide", "chains and rows of up to 300 components, and of repeated properties; sample documents", 61, |i, st| {
        let n = i * 5;
        let mut deep = comp("VEVENT", vec![]);
        for k in 0..n {
            let mut t = comp(if k % 2 == 0 { "VALARM" } else { "X-Z" }, vec![tp("UID", &[], &k.to_string()), tp("CONTACT", &[], "c")]);
            t.kids.push(deep);
            deep = t;
        }
        let wide: Vec<Tree> = (0..n).map(|k| comp(["VEVENT", "VTODO", "VVENUE", "VOTHER"][k % 4], vec![tp("UID", &[], &k.to_string())])).collect();
        let mut rep = comp("VEVENT", vec![]);
        for k in 0..n {
            rep.props.push(tp("ATTENDEE", &[], &k.to_string()));
            rep.props.push(tp(&format!("X-{}", k % 17), &[], &k.to_string()));
        }
        check(&[], &[deep], st)?;
        check(&rep.props.clone(), &wide, st)?;
        check(&[], &[rep], st)?;
        if let Some(d) = docs.get(i) {
            let text = join(d, "\n");
            let trees = trees_of(&text)?;
            if trees[0].name == "VCALENDAR" {
                check(&trees[0].props, &trees[0].kids, st)?;
            } else {
                check(&[], &trees, st)?;
            }
        }
        Ok(())
    });
    big::stage(run, false, 2, |t, st| check(&t.props, &t.kids, st));
}
