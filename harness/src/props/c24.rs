//! C24: all writing entry points emit the same text and change nothing.
use super::c04::{components_catalogue, values_for};
use super::gen::*;
use super::*;
use std::fmt::Write as _;
use std::io::Write as _;

/// logical lines with the parameters in a fixed order and generated values masked
fn canon(out: &str) -> Result<Vec<String>, Fail> {
    let mut v = vec![];
    for l in logical(out)? {
        if l.strip_prefix("DTSTAMP:").is_some_and(|s| is_utc_stamp(s) && s > "2025") {
            v.push("DTSTAMP:*".into());
            continue;
        }
        if l.strip_prefix("UID:").is_some_and(is_uuid4) {
            v.push("UID:*".into());
            continue;
        }
        if l.starts_with("BEGIN:") || l.starts_with("END:") || !l.contains(';') {
            v.push(l);
            continue;
        }
        let line = read_line(&l)?;
        let mut ps = param_spellings(&l);
        ps.sort();
        v.push(format!("{}{}:{}", line.name, ps.iter().map(|(k, s)| format!(";{k}={s}")).collect::<String>(), line.raw));
    }
    Ok(v)
}
/// all texts are alike
fn alike(what: &str, outs: &[(&str, String)], st: &mut Stats) -> Result<Vec<String>, Fail> {
    let first = canon(&outs[0].1)?;
    for (name, o) in &outs[1..] {
        let c = canon(o)?;
        if c != first {
            let at = c.iter().zip(&first).position(|(a, b)| a != b).unwrap_or(c.len().min(first.len()));
            return fail(
                "two ways of writing differ",
                format!("{} and {name}, line {at}: {:?} and {:?}\n{}", outs[0].0, first.get(at), c.get(at), clip(what)),
            );
        }
        st.step();
    }
    Ok(first)
}
struct Slow(String);
impl std::fmt::Write for Slow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        s.chars().try_for_each(|c| self.write_char(c))
    }
    fn write_char(&mut self, c: char) -> std::fmt::Result {
        self.0.push(c);
        Ok(())
    }
}
/// every way of writing a component; gives its canonical lines
fn component<C: Component + Clone + PartialEq>(c: &C, m: &MComp, conv: Option<fn(C) -> String>, st: &mut Stats) -> Result<Vec<String>, Fail> {
    let copy = c.clone();
    let what = format!("{m:?}");
    let mut outs = vec![];
    let mut s = String::new();
    ensure!(c.fmt_write(&mut s).is_ok(), "writing failed", what);
    outs.push(("fmt_write", s));
    outs.push(("to_string", Component::to_string(c)));
    outs.push(("try_into_string", c.try_into_string().unwrap_or_default()));
    let mut s = Slow(String::new());
    ensure!(c.fmt_write(&mut s).is_ok(), "writing failed", what);
    outs.push(("fmt_write to a slow sink", s.0));
    outs.push(("to_string of a clone", Component::to_string(&copy)));
    if let Some(f) = conv {
        outs.push(("try_into", f(c.clone())));
    }
    // behind something written before
    let mut s = String::from("before");
    ensure!(c.fmt_write(&mut s).is_ok(), "writing failed", what);
    ensure!(s.starts_with("before"), "writing removed what was there", what);
    outs.push(("fmt_write behind other text", s.split_off(6)));
    outs.push(("to_string again", Component::to_string(c)));
    ensure!(*c == copy, "writing changed the component", what);
    same!("model", what, *m, mcomp(c));
    let lines = alike(&what, &outs, st)?;
    check_written_comp(m, &outs[0].1, &mut vec![])?;
    // its properties alone
    let there: std::collections::HashSet<&String> = lines.iter().collect();
    for p in c.properties().values().chain(c.multi_properties().values().flatten()) {
        let alone = canon(&prop_string(p.clone())?)?;
        let (k, v) = (p.key(), p.value());
        let masked = (k == "DTSTAMP" && is_utc_stamp(v)) || (k == "UID" && is_uuid4(v));
        ensure!(
            alone.len() == 1 && (masked || there.contains(&alone[0])),
            "a property alone is written differently",
            format!("{alone:?} in {lines:?}")
        );
        same!("property twice", what, prop_string(p.clone())?, prop_string(p.clone())?);
    }
    // its children alone stand in it in order
    let mut at = 0;
    for k in c.components() {
        let alone = canon(&Component::to_string(k))?;
        match (at..=lines.len().saturating_sub(alone.len())).find(|i| lines[*i..*i + alone.len()] == alone[..]) {
            Some(i) => at = i + alone.len(),
            None => return fail("a child alone is written differently", format!("{alone:?} in {lines:?}")),
        }
        st.step();
    }
    Ok(lines)
}

fn conv<C: TryInto<String>>(c: C) -> String {
    c.try_into().ok().unwrap_or_default()
}
fn one(m: &MComp, st: &mut Stats) -> Result<Vec<String>, Fail> {
    match m.kind.as_str() {
        "VEVENT" => component(&event(m), m, Some(conv), st),
        "VTODO" => component(&todo(m), m, Some(conv), st),
        "VVENUE" => component(&venue(m), m, Some(conv), st),
        "VALARM" if m.props.contains_key("ACTION") && m.props.contains_key("TRIGGER") => component(&alarm(m), m, Some(conv), st),
        k => match empty_generic(k) {
            CalendarComponent::Other(mut o) => {
                fill(&mut o, m);
                component(&o, m, None, st)
            }
            _ => fail("wrong type", k),
        },
    }
}
/// flags of a format do not apply to a document
fn with_flags<T: std::fmt::Display>(t: &T) -> Vec<(&'static str, String)> {
    vec![("{:#}", format!("{t:#}")), ("{:9}", format!("{t:9}")), ("{:.5}", format!("{t:.5}")), ("{:*>300}", format!("{t:*>300}")), ("{:+#08.0}", format!("{t:+#08.0}"))]
}
/// every way of writing a calendar
fn built(m: &MCal, st: &mut Stats) -> R {
    let c = calendar(m);
    let copy = c13::copy(&c);
    let what = format!("{m:?}");
    let mut outs = vec![("to_string", c.to_string()), ("format", format!("{c}"))];
    let t: Result<String, _> = (&c).try_into();
    outs.push(("try_into", t.unwrap_or_default()));
    let mut s = Slow(String::new());
    ensure!(write!(s, "{c}").is_ok(), "writing failed", what);
    outs.push(("write! to a slow sink", s.0));
    let mut v: Vec<u8> = vec![];
    ensure!(v.write_fmt(format_args!("{c}")).is_ok(), "writing failed", what);
    outs.push(("write! to bytes", String::from_utf8(v).unwrap_or_default()));
    let mut s = String::from("before");
    ensure!(write!(s, "{c}").is_ok() && s.starts_with("before"), "writing failed", what);
    outs.push(("write! behind other text", s.split_off(6)));
    outs.push(("to_string of a copy", copy.to_string()));
    for (flags, o) in with_flags(&c) {
        outs.push((flags, o));
    }
    outs.push(("to_string again", c.to_string()));
    ensure!(c == copy, "writing changed the calendar", what);
    same!("model", what, *m, mcal(&c)?);
    let lines = alike(&what, &outs, st)?;
    check_written_cal(m, &outs[0].1, &mut vec![])?;
    // assembled from what its parts write
    let there: std::collections::HashSet<&String> = lines.iter().collect();
    let mut want = vec!["BEGIN:VCALENDAR".to_string()];
    for p in &c.properties {
        want.extend(canon(&prop_string(p.clone())?)?.into_iter().map(|l| match there.contains(&l) {
            true => l,
            // (written values that look generated)
            false => "?".into(),
        }));
    }
    for k in &m.comps {
        want.extend(one(k, st)?);
    }
    want.push("END:VCALENDAR".into());
    same!("a calendar is written as its parts are", what, want, lines);
    st.state(m);
    st.note(|| outs[0].1.clone());
    Ok(())
}
/// every way of writing a parsed tree
fn parsed(props: &[TProp], kids: &[Tree], st: &mut Stats) -> R {
    let cal = ip::Calendar { properties: props.iter().map(raw_tprop).collect(), components: kids.iter().map(raw_tree).collect() };
    let before = tree_of_cal(&cal);
    let what = format!("{before:?}");
    let mut s = Slow(String::new());
    ensure!(write!(s, "{cal}").is_ok(), "writing failed", what);
    let outs = [cal.to_string(), format!("{cal}"), cal.clone().to_string(), s.0, cal.to_string()];
    for o in &outs[1..] {
        same!("two ways of writing a parsed calendar", what, outs[0], *o);
        st.step();
    }
    for (flags, o) in with_flags(&cal) {
        same!("two ways of writing a parsed calendar", flags, outs[0], o);
    }
    for p in &cal.properties {
        for (flags, o) in with_flags(p) {
            same!("two ways of writing a parsed property", flags, p.to_string(), o);
        }
    }
    ensure!(tree_of_cal(&cal) == before, "writing changed the tree", what);
    // assembled from its parts
    fn parts(c: &ip::Component, out: &mut Vec<String>) -> R {
        out.push(format!("BEGIN:{}", c.name));
        for p in &c.properties {
            let (a, b) = (p.to_string(), format!("{p}"));
            same!("a parsed property twice", format!("{p:?}"), a, b);
            out.extend(logical(&a)?);
        }
        for k in &c.components {
            parts(k, out)?;
        }
        out.push(format!("END:{}", c.name));
        Ok(())
    }
    let mut want = vec![];
    parts(&ip::Component { name: "VCALENDAR".into(), properties: cal.properties.clone(), components: cal.components.clone() }, &mut want)?;
    same!("a parsed calendar is written as its parts are", what, want, logical(&outs[0])?);
    st.state(&before);
    Ok(())
}

// ------------------------------------------------------------------ printing

fn printables() -> (Vec<MComp>, Vec<MCal>, Vec<Tree>) {
    let mut comps = components_catalogue();
    for c in components_catalogue() {
        comps.extend(c.kids);
    }
    let mut long = MComp::new("VTODO");
    long.set(MProp::new("DESCRIPTION", &"{} {0} é, 😀; %s\n\n".repeat(40)));
    comps.push(long);
    let mut cals: Vec<MCal> = comps.iter().filter(|c| c.kind != "VALARM").map(|c| MCal { props: default_props(), comps: vec![c.clone(), MComp::new("VEVENT")] }).collect();
    cals.push(MCal { props: vec![], comps: vec![] });
    let trees = vec![
        Tree { name: "VCALENDAR".into(), props: catalogue(), kids: vec![] },
        Tree {
            name: "VCALENDAR".into(),
            props: vec![],
            kids: vec![Tree { name: "VEVENT".into(), props: catalogue(), kids: vec![Tree { name: "X-{}".into(), props: vec![tp("X-A", &[("K", None)], "{}%")], kids: vec![] }] }],
        },
    ];
    (comps, cals, trees)
}
fn raw_cal(t: &Tree) -> ip::Calendar<'static> {
    ip::Calendar { properties: t.props.iter().map(raw_tprop).collect(), components: t.kids.iter().map(raw_tree).collect() }
}
const MARK: &str = "\u{1}next\u{1}";
/// prints everything to stdout, and the texts that should appear
pub fn aux_print() -> i32 {
    let (comps, cals, trees) = printables();
    let mut bad = 0;
    let mut after = |r: Result<(), std::fmt::Error>| {
        bad += r.is_err() as i32;
        print!("{MARK}");
    };
    for m in &comps {
        match m.kind.as_str() {
            "VEVENT" => after(event(m).print()),
            "VTODO" => after(todo(m).print()),
            "VVENUE" => after(venue(m).print()),
            "VALARM" => after(alarm(m).print()),
            k => {
                if let CalendarComponent::Other(mut o) = empty_generic(k) {
                    fill(&mut o, m);
                    after(o.print())
                }
            }
        }
    }
    for m in &cals {
        after(calendar(m).print());
    }
    for t in &trees {
        after(raw_cal(t).print());
    }
    bad
}
fn check_prints(st: &mut Stats) -> R {
    let (comps, cals, trees) = printables();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["aux", "print"]).output();
    let Ok(out) = out else { return fail("harness", "no process") };
    ensure!(out.status.success(), "printing failed", format!("{:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    let text = String::from_utf8(out.stdout).unwrap_or_default();
    let got: Vec<&str> = text.split_terminator(MARK).collect();
    same!("printed objects", "", comps.len() + cals.len() + trees.len(), got.len());
    let mut it = got.into_iter();
    // one line ending of its own may follow
    let mut next = || -> String {
        let s = it.next().unwrap_or_default();
        match s.strip_suffix("\r\n\r\n") {
            Some(x) => format!("{x}\r\n"),
            None => s.to_string(),
        }
    };
    for m in &comps {
        let s = next();
        let want = match m.kind.as_str() {
            "VEVENT" => Component::to_string(&event(m)),
            "VTODO" => Component::to_string(&todo(m)),
            "VVENUE" => Component::to_string(&venue(m)),
            "VALARM" => Component::to_string(&alarm(m)),
            k => match empty_generic(k) {
                CalendarComponent::Other(mut o) => {
                    fill(&mut o, m);
                    Component::to_string(&o)
                }
                _ => return fail("wrong type", k),
            },
        };
        alike(&format!("{m:?}"), &[("to_string", want), ("print", s)], st)?;
    }
    for m in &cals {
        alike(&format!("{m:?}"), &[("to_string", calendar(m).to_string()), ("print", next())], st)?;
    }
    for t in &trees {
        same!("printed tree", "", raw_cal(t).to_string(), next());
        st.step();
    }
    st.state(&text.len());
    Ok(())
}

// ------------------------------------------------------------------ stages

#[derive(Clone)]
struct S {
    e: Event,
    a: Alarm,
    m: MComp,
    ma: MComp,
    cal: (Vec<Property>, Vec<CalendarComponent>),
    mcal: MCal,
}

pub fn run(run: &Run) {
    run.assume("a printed text may be followed by one line ending of its own; generated values are compared by their form only");
    run.cases("printing", "the catalogue of components, calendars and parsed trees, printed by a process of its own", 1, |_, st| check_prints(st));
    let cat = components_catalogue();
    let cprops: [Vec<MProp>; 4] = [
        vec![],
        default_props(),
        vec![MProp::new("NAME", "b, b\n"), MProp::new("NAME", "a").with("Z", "1").with("A", "x:y"), MProp::new("A", &"long ".repeat(40)), MProp::new("UID", "calendar's own")],
        vec![MProp::new("Z", "1"), MProp::new("A", "2"), MProp::new("Z", "3"), MProp::new("DTSTAMP", "20000101T000000Z")],
    ];
    run.cases("calendars", &format!("4 sets of calendar properties x all pairs of the {} catalogue components", cat.len()), 4 * cat.len() * cat.len(), |i, st| {
        let mut d = Dec(i);
        let props = cprops[d.n(4)].clone();
        let (a, b) = (d.n(cat.len()), d.n(cat.len()));
        built(&MCal { props, comps: vec![cat[a].clone(), cat[b].clone()] }, st)
    });
    // kinds
    let mut kinds: Vec<String> = VOCABULARY.iter().flat_map(|n| [n.to_string(), n.to_lowercase()]).collect();
    kinds.extend(big::special().iter().filter(|s| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || "-_./,".contains(c))).map(|s| s.to_string()));
    kinds.extend((60..=160).map(|n| "K".repeat(n)));
    kinds.extend(["x-lower", "X-Mixed", "vevent", "Vtodo", "é", "日本", "ß", "A,B", "a.b", "VEVENT-", "-", "0"].map(String::from));
    kinds.sort();
    kinds.dedup();
    run.cases("kinds", &format!("generic components of {} kinds, with and without content, nested in themselves, built and parsed", kinds.len()), kinds.len() * 2, |i, st| {
        let k = &kinds[i / 2];
        let mut m = MComp::new(k);
        let mut t = Tree { name: k.clone(), props: vec![], kids: vec![] };
        if i % 2 == 0 {
            m.set(MProp::new("SUMMARY", "s").with("K", "v:w"));
            m.add_multi(MProp::new("COMMENT", "c,"));
            t.props = vec![tp("SUMMARY", &[("K", None)], "s")];
        }
        // (the typed kinds are built by their own type; small letters make a generic one)
        let mut outer = m.clone();
        outer.kids = vec![m.clone(), m.clone()];
        let mut tree = t.clone();
        tree.kids = vec![t.clone(), t];
        built(&MCal { props: vec![], comps: vec![outer, m] }, st)?;
        parsed(&[], &[tree], st)
    });
    // properties
    let names: Vec<&str> = TEXT_NAMES.iter().copied().chain(OTHER_TYPES.iter().map(|t| t.0)).chain(["X-A", "x-lower", "COLOR"]).filter(|n| *n != "DTSTAMP" && *n != "UID").collect();
    let params: [&[(&str, &str)]; 5] = [&[], &[("VALUE", "TEXT")], &[("VALUE", "DATE")], &[("B", "x:y"), ("A", "p,q"), ("C", "")], &[("TZID", "Europe/Berlin")]];
    run.cases("properties", &format!("{} names x their typical values x 5 sets of parameters, single, repeated and of a calendar", names.len()), names.len() * 5, |i, st| {
        let (n, ps) = (names[i / 5], params[i % 5]);
        let vt = ps.iter().find(|p| p.0 == "VALUE").map(|p| p.1);
        let mut m = MComp::new("VEVENT");
        let mut many = MComp::new("VTODO");
        let mut own = vec![];
        for v in values_for(n, vt) {
            if type_of(n, vt) != Some("TEXT") && v.contains('\n') {
                continue;
            }
            let p = ps.iter().fold(MProp::new(n, &v), |p, (k, v)| p.with(k, v));
            m.set(p.clone());
            many.add_multi(p.clone());
            own.push(p);
            built(&MCal { props: own.clone(), comps: vec![m.clone(), many.clone()] }, st)?;
        }
        Ok(())
    });
    // long lines, at all lengths and widths
    let max = run.q(400, 2000);
    run.cases("long values", &format!("values of 0..={max} characters of 1 to 4 octets, in every kind of object"), (max + 1) * 4, |i, st| {
        let v = ["a", "é", "€", "😀"][i % 4].repeat(i / 4);
        let p = MProp::new("SUMMARY", &v).with("K", "x:y");
        let mut comps = vec![];
        for k in ["VEVENT", "VTODO", "VVENUE", "X-OTHER"] {
            let mut m = MComp::new(k);
            m.set(p.clone());
            m.add_multi(p.clone());
            comps.push(m);
        }
        built(&MCal { props: vec![p.clone()], comps }, st)?;
        let t = tp("SUMMARY", &[("K", Some("x:y")), ("L", None)], &v);
        parsed(&[t.clone()], &[Tree { name: "VEVENT".into(), props: vec![t], kids: vec![] }], st)
    });
    // nesting
    let n = run.q(5, 6);
    let mut shapes = vec![];
    for k in 0..=n {
        for f in forests(k) {
            for lab in 0..(if k < n { 4usize } else { 3usize }).pow(k as u32) {
                shapes.push((f.clone(), lab, if k < n { 4usize } else { 3usize }));
            }
        }
    }
    run.cases("nesting", &format!("all forests of < {n} components of 4 kinds and of {n} components of 3 kinds, built and parsed"), shapes.len(), |i, st| {
        let (f, lab, base) = &shapes[i];
        let comps = forest(
            f,
            |i, _| {
                let mut m = MComp::new(["VEVENT", "X-G", "VTODO", "VVENUE"][lab / base.pow(i as u32) % base]);
                if i % 2 == 0 {
                    m.set(MProp::new("SUMMARY", &format!("{i};")).with("K", "v:w"));
                } else {
                    m.set(MProp::new("UID", &format!("u{i}")));
                    m.add_multi(MProp::new("COMMENT", "1"));
                    m.add_multi(MProp::new("COMMENT", "0"));
                }
                m
            },
            |p, c| p.kids.push(c),
        );
        built(&MCal { props: vec![], comps }, st)?;
        let trees = forest(
            f,
            |i, _| Tree { name: ["VEVENT", "X-G", "VTODO", "VVENUE"][lab / base.pow(i as u32) % base].into(), props: vec![tp("B", &[("K", None)], "1"), tp("A", &[], &format!("{i}"))], kids: vec![] },
            |p, c| p.kids.push(c),
        );
        parsed(&[tp("Z", &[], "1"), tp("A", &[], "2")], &trees, st)
    });
    // parsed properties
    let cp = catalogue();
    run.cases("parsed trees", &format!("all pairs of the {} catalogue properties", cp.len()), cp.len() * cp.len(), |i, st| {
        let (a, b) = (&cp[i / cp.len()], &cp[i % cp.len()]);
        let k = Tree { name: "VEVENT".into(), props: vec![b.clone(), a.clone()], kids: vec![] };
        parsed(&[a.clone(), b.clone()], &[k], st)
    });
    // histories: writing in between
    let depth = run.q(5, 7);
    let ops = 15;
    run.bfs(
        "histories",
        &format!("all sequences of <= {depth} of {ops} building, finishing and writing calls on an event with alarms and a calendar"),
        ops,
        depth,
        || S { e: Event::new(), a: Alarm::audio(chrono::Duration::seconds(60)), m: MComp::new("VEVENT"), ma: { let mut a = MComp::new("VALARM"); a.set(MProp::new("ACTION", "AUDIO")); a.set(MProp::new("TRIGGER", "PT60S")); a }, cal: (vec![], vec![]), mcal: MCal { props: vec![], comps: vec![] } },
        |s, op, st| {
            let mut s = s.clone();
            let mut c = Calendar::empty();
            c.properties = s.cal.0.clone();
            c.components = s.cal.1.clone();
            match op {
                0..=2 => {
                    let p = [MProp::new("SUMMARY", "a,b").with("B", "1").with("A", "2"), MProp::new("UID", "u;"), MProp::new("SUMMARY", "")][op].clone();
                    s.e.append_property(p.build());
                    s.m.set(p);
                }
                3 | 4 => {
                    let p = MProp::new("COMMENT", ["z", "a\n"][op - 3]);
                    s.e.append_multi_property(p.build());
                    s.m.add_multi(p);
                }
                5 => {
                    s.e.alarm(s.a.clone());
                    s.m.kids.push(s.ma.clone());
                }
                6 => {
                    s.a.add_property("DESCRIPTION", "d");
                    s.ma.set(MProp::new("DESCRIPTION", "d"));
                }
                7 => s.e = s.e.done(),
                8 => {
                    c.push(s.e.clone());
                    s.mcal.comps.push(s.m.clone());
                }
                9 | 10 => {
                    let p = MProp::new(["B", "A"][op - 9], "1");
                    c.append_property(p.build());
                    s.mcal.props.push(p);
                }
                11 => c = c.done(),
                12 => {
                    let _ = Component::to_string(&s.e) + &Component::to_string(&s.a);
                    let t: Result<String, _> = s.e.clone().try_into();
                    ensure!(t.is_ok(), "writing failed", "");
                }
                13 => {
                    let t: Result<String, _> = (&c).try_into();
                    ensure!(t.is_ok() && !c.to_string().is_empty(), "writing failed", "");
                }
                _ => {
                    let mut x = Slow(String::new());
                    ensure!(write!(x, "{c}").is_ok() && s.e.fmt_write(&mut x).is_ok(), "writing failed", "");
                }
            }
            let what = format!("after operation {op}");
            same!("event", what, s.m, mcomp(&s.e));
            same!("calendar", what, s.mcal, mcal(&c)?);
            component(&s.e, &s.m, Some(conv), st)?;
            component(&s.a, &s.ma, Some(conv), st)?;
            let text = c.to_string();
            check_written_cal(&s.mcal, &text, &mut vec![])?;
            let again: Result<String, _> = (&c).try_into();
            alike(&what, &[("to_string", text), ("try_into", again.unwrap_or_default())], st)?;
            s.cal = (c.properties.clone(), c.components.clone());
            Ok(Some(s))
        },
        |s| h128(&(&s.m, &s.ma, &s.mcal)),
    );
    big::stage(run, true, 2, |t, st| {
        built(&big::big_cal(t), st)?;
        parsed(&t.props, &t.kids, st)
    });
}
