//! C11: builder calls behave like a map of single and a log of repeated properties.
use super::*;

/// the builders, all with the same operations
#[derive(Clone)]
pub enum B {
    E(Event),
    T(Todo),
    V(Venue),
    A(Alarm),
    /// a generic component
    G(CalendarComponent),
}
macro_rules! on {
    ($b:expr, $c:ident => $e:expr) => {
        match $b {
            B::E($c) => $e,
            B::T($c) => $e,
            B::V($c) => $e,
            B::A($c) => $e,
            B::G(CalendarComponent::Other($c)) => $e,
            B::G(_) => unreachable!(),
        }
    };
}
impl B {
    fn model(&self) -> MComp {
        on!(self, c => mcomp(c))
    }
    fn start(kind: usize) -> B {
        match kind {
            0 => B::E(Event::new()),
            1 => B::T(Todo::new()),
            2 => B::V(Venue::new()),
            3 => B::A(Alarm::display("d", chrono::Duration::zero())),
            _ => B::G(empty_generic("X-GENERIC")),
        }
    }
    fn start_model(kind: usize) -> MComp {
        let mut m = MComp::new(["VEVENT", "VTODO", "VVENUE", "VALARM", "X-GENERIC"][kind]);
        if kind == 3 {
            m.set(MProp::new("ACTION", "DISPLAY"));
            m.set(MProp::new("TRIGGER", "P0D"));
            m.set(MProp::new("DESCRIPTION", "d"));
        }
        m
    }
    fn done(&mut self) -> Option<B> {
        Some(match self {
            B::E(c) => B::E(c.done()),
            B::T(c) => B::T(c.done()),
            B::V(c) => B::V(c.done()),
            B::A(c) => B::A(c.done()),
            B::G(_) => return None,
        })
    }
    fn to_cc(&self) -> Option<CalendarComponent> {
        Some(match self.clone() {
            B::E(c) => c.into(),
            B::T(c) => c.into(),
            B::V(c) => c.into(),
            B::G(c) => c,
            B::A(_) => return None,
        })
    }
}
fn kid(n: usize) -> (MComp, B) {
    let mut m = MComp::new(["VALARM", "VEVENT", "VTODO", "VVENUE"][n]);
    m.set(MProp::new("SUMMARY", &format!("kid {n}")));
    m.add_multi(MProp::new("COMMENT", "1"));
    m.add_multi(MProp::new("COMMENT", "1"));
    let b = match n {
        0 => {
            m.set(MProp::new("ACTION", "AUDIO"));
            m.set(MProp::new("TRIGGER", "P0D"));
            B::A(alarm(&m))
        }
        1 => B::E(event(&m)),
        2 => B::T(todo(&m)),
        _ => {
            let mut v = venue(&m);
            let mut inner = MComp::new("VTODO");
            inner.set(MProp::new("SUMMARY", "inner"));
            v.append_component(todo(&inner));
            m.kids.push(inner);
            B::V(v)
        }
    };
    (m, b)
}
pub const OPS: usize = 26;
/// applies operation `op` to both sides
pub fn apply(b: &mut B, m: &mut MComp, op: usize) {
    let mut single = |p: MProp| m.set(p);
    match op {
        0 => {
            on!(b, c => { c.add_property("X-A", "1"); });
            single(MProp::new("X-A", "1"))
        }
        1 => {
            on!(b, c => { c.append_property(Property::new("X-A", "2").add_parameter("P", "q").done()); });
            single(MProp::new("X-A", "2").with("P", "q"))
        }
        2 => {
            on!(b, c => { c.add_property("X-AA", ""); });
            single(MProp::new("X-AA", ""))
        }
        3 => {
            on!(b, c => { c.add_multi_property("COMMENT", "one"); });
            m.add_multi(MProp::new("COMMENT", "one"))
        }
        4 => {
            on!(b, c => { c.append_multi_property(Property::new("COMMENT", "two").add_parameter("P", "q").done()); });
            m.add_multi(MProp::new("COMMENT", "two").with("P", "q"))
        }
        5 => {
            on!(b, c => { c.add_multi_property("X-A", "multi"); });
            m.add_multi(MProp::new("X-A", "multi"))
        }
        6 => {
            on!(b, c => { c.summary("s"); });
            single(MProp::new("SUMMARY", "s"))
        }
        7 => {
            on!(b, c => { c.append_property(Property::new("SUMMARY", "t").add_parameter("LANGUAGE", "de").add_parameter("ALTREP", "x:y").done()); });
            single(MProp::new("SUMMARY", "t").with("LANGUAGE", "de").with("ALTREP", "x:y"))
        }
        8..=11 => {
            let (k, r) = kid(op - 8);
            on!(b, c => { on!(r, d => { c.append_component(d); }) });
            m.kids.push(k)
        }
        // finishing is handled by the caller
        12 => {}
        13 => {
            on!(b, c => { c.priority(99); });
            single(MProp::new("PRIORITY", "10"))
        }
        14 => {
            on!(b, c => { c.priority(3); });
            single(MProp::new("PRIORITY", "3"))
        }
        15 => {
            on!(b, c => { c.uid("u"); });
            single(MProp::new("UID", "u"))
        }
        16 => {
            on!(b, c => { c.sequence(7); });
            single(MProp::new("SEQUENCE", "7"))
        }
        17 => {
            on!(b, c => { c.class(Class::Private); });
            single(MProp::new("CLASS", "PRIVATE"))
        }
        18 => {
            on!(b, c => { c.description("d1"); });
            single(MProp::new("DESCRIPTION", "d1"))
        }
        19 => {
            on!(b, c => { c.url("u:l"); });
            single(MProp::new("URL", "u:l"))
        }
        20 => {
            on!(b, c => { c.add_multi_property("x-a", "lower"); });
            m.add_multi(MProp::new("x-a", "lower"))
        }
        21 => {
            on!(b, c => { c.add_property("x-a", "lower"); });
            single(MProp::new("x-a", "lower"))
        }
        22 => {
            #[allow(deprecated)]
            {
                on!(b, c => { c.add_property_pre_alloc("X-AA".to_string(), "pre".to_string()); });
            }
            single(MProp::new("X-AA", "pre"))
        }
        23 => {
            on!(b, c => { c.append_property(("X-PAIR", "p")); });
            single(MProp::new("X-PAIR", "p"))
        }
        24 => {
            on!(b, c => { c.append_multi_property(("EXDATE", "20240101T000000Z")); });
            m.add_multi(MProp::new("EXDATE", "20240101T000000Z"))
        }
        _ => {
            on!(b, c => { c.add_property("COMMENT", "single"); });
            single(MProp::new("COMMENT", "single"))
        }
    }
}
/// what a component shows in every way, compared with the model
pub fn compare(b: &B, m: &MComp, st: &mut Stats) -> R {
    same!("content of the builder", m.kind, *m, b.model());
    on!(b, c => {
        for (k, p) in &m.props {
            same!("value of a property", k, Some(p.val.as_str()), c.property_value(k));
        }
        for k in ["X-NONE", "COMMENT", "SUMMARY", "X-A", "x-a"] {
            same!("value of a property", k, m.props.get(k).map(|p| p.val.as_str()), c.property_value(k));
        }
    });
    st.step();
    Ok(())
}
/// conversions keep kind and content
pub fn convert(b: &B, m: &MComp, st: &mut Stats) -> R {
    let mut host = Venue::new();
    on!(b.clone(), c => { host.append_component(c); });
    same!("child made of a component", m.kind, vec![m.clone()], host.components().iter().map(mcomp).collect::<Vec<_>>());
    // a child is itself converted on
    let mut next = Event::new();
    next.append_component(host.components()[0].clone());
    same!("grandchild", m.kind, vec![m.clone()], next.components().iter().map(mcomp).collect::<Vec<_>>());
    if let Some(cc) = b.to_cc() {
        let (v, c) = mcomp_cc(&cc);
        same!("calendar component", m.kind, (variant_of(&m.kind), m), (v, &c));
        same!("as_event", m.kind, m.kind == "VEVENT", cc.as_event().is_some());
        same!("as_todo", m.kind, m.kind == "VTODO", cc.as_todo().is_some());
        if let Some(e) = cc.as_event() {
            same!("as_event", m.kind, *m, mcomp(e));
        }
        if let Some(t) = cc.as_todo() {
            same!("as_todo", m.kind, *m, mcomp(t));
        }
        let cal = Calendar::from(cc);
        same!("in a calendar", m.kind, vec![m.clone()], mcal(&cal)?.comps);
    } else {
        let mut e = Event::new();
        if let B::A(a) = b.clone() {
            e.alarm(a);
        }
        same!("alarm of an event", m.kind, vec![m.clone()], e.components().iter().map(mcomp).collect::<Vec<_>>());
    }
    st.steps(3);
    Ok(())
}
fn empty_model(m: &MComp) -> MComp {
    MComp::new(&m.kind)
}
/// one transition; finishing leaves an empty builder and hands over everything
fn step(s: &(B, MComp), op: usize, st: &mut Stats) -> Result<Option<(B, MComp)>, Fail> {
    let (mut b, mut m) = s.clone();
    if op == 12 || op == OPS {
        let Some(f) = b.done() else { return Ok(None) };
        compare(&f, &m, st)?;
        compare(&b, &empty_model(&m), st)?;
        // go on with the result, or with the emptied builder
        if op == 12 {
            convert(&f, &m, st)?;
            b = f;
        } else {
            m = empty_model(&m);
        }
    } else {
        apply(&mut b, &mut m, op);
        compare(&b, &m, st)?;
    }
    same!("the original is unchanged", op, s.1, s.0.model());
    st.note(|| format!("op {op}: {m:?}"));
    Ok(Some((b, m)))
}

pub fn run(run: &Run) {
    run.assume("properties are compared by name, value and parameter set");
    let kinds = ["event", "to-do", "venue", "alarm", "generic"];
    for (k, name) in kinds.iter().enumerate() {
        let depth = run.q(4, 5);
        run.bfs(
            &format!("{name} builder"),
            &format!("all sequences of <= {depth} of {} calls (setters, single, repeated, children, finish and go on with the result or the emptied builder)", OPS + 1),
            OPS + 1,
            depth,
            || (B::start(k), B::start_model(k)),
            step,
            |s| h128(&s.1),
        );
    }
    // fewer operations, deeper
    let few = [0, 1, 3, 4, 5, 8, 12, OPS, 25];
    let depth = run.q(6, 7);
    run.bfs(
        "event builder, deep",
        &format!("all sequences of <= {depth} of {} calls", few.len()),
        few.len(),
        depth,
        || (B::start(0), B::start_model(0)),
        |s, op, st| step(s, few[op], st),
        |s| h128(&s.1),
    );
    // conversions of everything reachable within 3 calls
    let depth = run.q(3, 4);
    run.cases("conversions", &format!("all sequences of <= {depth} of {OPS} calls on each of 5 builders, converted"), words_upto(OPS, depth) * 5, |i, st| {
        let mut b = B::start(i % 5);
        let mut m = B::start_model(i % 5);
        for op in word(i / 5, OPS) {
            apply(&mut b, &mut m, op);
        }
        st.state(&m);
        compare(&b, &m, st)?;
        convert(&b, &m, st)
    });
    // every pair of property names: no interference
    let mut names: Vec<&str> = TEXT_NAMES.to_vec();
    names.extend(OTHER_TYPES.iter().map(|t| t.0));
    names.extend(["X-A", "X-AB", "x-a", "", "É", "X A"]);
    run.cases("pairs of names", &format!("all pairs of {} names x single or repeated each x 3 builders", names.len()), names.len() * names.len() * 12, |i, st| {
        let mut d = Dec(i);
        let (m1, m2) = (d.bool(), d.bool());
        let kind = d.n(3);
        let (a, c) = (names[d.n(names.len())], names[d.0]);
        let mut b = B::start(kind);
        let mut m = B::start_model(kind);
        for (n, multi, v) in [(a, m1, "1"), (c, m2, "2"), (a, m1, "3"), (c, m2, "4")] {
            let p = MProp::new(n, v).with("K", v);
            if multi {
                on!(&mut b, x => { x.append_multi_property(p.build()); });
                m.add_multi(p)
            } else {
                on!(&mut b, x => { x.append_property(p.build()); });
                m.set(p)
            }
        }
        st.state(&m);
        compare(&b, &m, st)
    });
    // equal values are listed as often as they were added, whatever is called afterwards
    run.cases("equal values", &format!("{} names x 2..=4 equal values x another between them or not x 5 builders, finished, copied and converted", names.len()), names.len() * 3 * 2 * 5, |i, st| {
        let mut d = Dec(i);
        let (kind, between, times) = (d.n(5), d.bool(), d.n(3) + 2);
        let n = names[d.0];
        let mut b = B::start(kind);
        let mut m = B::start_model(kind);
        for k in 0..times {
            for p in [Some(MProp::new(n, "v").with("K", "w")), (between && k == 0).then(|| MProp::new(n, "other"))].into_iter().flatten() {
                on!(&mut b, x => { x.append_multi_property(p.build()); });
                m.add_multi(p);
            }
        }
        compare(&b, &m, st)?;
        compare(&b.clone(), &m, st)?;
        convert(&b, &m, st)?;
        if let Some(f) = b.done() {
            compare(&f, &m, st)?;
            convert(&f, &m, st)?;
            compare(&b, &empty_model(&m), st)?;
        }
        st.state(&m);
        Ok(())
    });
    // children keep what they have in common with their parent
    run.cases("child like its parent", &format!("{} names in the parent and in a child of 4 kinds, the property set before or after, one or two alike children, in an event and a to-do", names.len()), names.len() * 4 * 2 * 2 * 2, |i, st| {
        let mut d = Dec(i);
        let (kind, late, twice, k) = (d.n(2), d.bool(), d.bool(), d.n(4));
        let n = names[d.0];
        let p = MProp::new(n, "v").with("K", "w");
        let mut km = MComp::new(["VALARM", "VEVENT", "VTODO", "VVENUE"][k]);
        if k == 0 {
            km.set(MProp::new("ACTION", "AUDIO"));
            km.set(MProp::new("TRIGGER", "P0D"));
        }
        km.set(p.clone());
        km.add_multi(p.clone());
        let mut b = B::start(kind);
        let mut m = B::start_model(kind);
        for step in 0..2 {
            if (step == 0) != late {
                on!(&mut b, x => { x.append_property(p.build()); x.append_multi_property(p.build()); });
                m.set(p.clone());
                m.add_multi(p.clone());
                continue;
            }
            for _ in 0..1 + twice as usize {
                match (k, &mut b) {
                    (0, B::E(e)) => {
                        e.alarm(alarm(&km));
                    }
                    (0, B::T(t)) => {
                        t.alarm(alarm(&km));
                    }
                    (1, b) => on!(b, x => { x.append_component(event(&km)); }),
                    (2, b) => on!(b, x => { x.append_component(todo(&km)); }),
                    (_, b) => on!(b, x => { x.append_component(venue(&km)); }),
                }
                m.kids.push(km.clone());
            }
        }
        st.state(&m);
        compare(&b, &m, st)?;
        convert(&b, &m, st)
    });
    // every call sets value and parameters anew, however little they differ from what was there
    let mut again: Vec<MProp> = vec![];
    for v in ["", "v", "V", "v "] {
        again.push(MProp::new("X-A", v));
        for (k, w) in [("P", "1"), ("P", "2"), ("P", ""), ("Q", "1"), ("p", "1"), ("VALUE", "TEXT")] {
            again.push(MProp::new("X-A", v).with(k, w));
        }
        again.push(MProp::new("X-A", v).with("P", "1").with("Q", "1"));
    }
    let n = again.len();
    let k = run.q(2, 3);
    run.cases("the same name again", &format!("all sequences of <= {k} properties of one name with 4 values and 8 sets of parameters, single and repeated, on 5 builders"), words_upto(n, k) * 10, |i, st| {
        let mut d = Dec(i);
        let kind = d.n(5);
        let multi = d.bool();
        let mut b = B::start(kind);
        let mut m = B::start_model(kind);
        for p in word(d.0, n) {
            let mut p = again[p].clone();
            if multi {
                p.key = "COMMENT".into();
                on!(&mut b, x => { x.append_multi_property(p.build()); });
                m.add_multi(p)
            } else {
                on!(&mut b, x => { x.append_property(p.build()); });
                m.set(p)
            }
            compare(&b, &m, st)?;
        }
        st.state(&m);
        Ok(())
    });
    // a name is what it was given as, whatever it consists of
    let sp = big::special();
    let n = sp.len();
    run.cases("special names", &format!("all pairs of {n} special texts as names of properties and of parameters, single and repeated, on 2 builders"), n * n * 2, |i, st| {
        let mut d = Dec(i);
        let kind = d.n(2) * 3;
        let (a, c) = (sp[d.n(n)], sp[d.0]);
        let mut b = B::start(kind);
        let mut m = B::start_model(kind);
        for (k, v, multi) in [(a, c, false), (c, a, false), (a, "2", true), (c, "1", true), (a, "x", true)] {
            let p = MProp::new(k, v).with(c, "1").with(a, v);
            if multi {
                on!(&mut b, x => { x.append_multi_property(p.build()); });
                m.add_multi(p)
            } else {
                on!(&mut b, x => { x.append_property(p.build()); });
                m.set(p)
            }
        }
        on!(&mut b, x => { x.add_multi_property(c, "s"); x.add_property("X-LAST", a); });
        m.add_multi(MProp::new(c, "s"));
        m.set(MProp::new("X-LAST", a));
        st.state(&m);
        compare(&b, &m, st)?;
        if i % 16 == 0 {
            convert(&b, &m, st)?;
        }
        Ok(())
    });
    // parameters of a property are a map, too
    run.cases("parameter calls", "all sequences of <= 5 of 6 parameter calls on a property, finished and gone on", words_upto(8, run.q(5, 6)), |i, st| {
        let mut p = Property::new("K", "v");
        let mut m = MProp::new("K", "v");
        for op in word(i, 8) {
            match op {
                0 => {
                    p.add_parameter("A", "1");
                    m = m.with("A", "1");
                }
                1 => {
                    p.append_parameter(Parameter::new("A", "2"));
                    m = m.with("A", "2");
                }
                2 => {
                    p.append_parameter(("B", "3"));
                    m = m.with("B", "3");
                }
                3 => {
                    p.append_parameter(ValueType::Date);
                    m = m.with("VALUE", "DATE");
                }
                4 => {
                    p.append_parameter(Related::End);
                    m = m.with("RELATED", "END");
                }
                5 => {
                    p.add_parameter("VALUE", "X");
                    m = m.with("VALUE", "X");
                }
                6 => {
                    p = p.done();
                }
                _ => {
                    let f = p.done();
                    same!("finished property", i, m, mprop(&f));
                    m = MProp::new("", "");
                }
            }
            same!("property", i, m, mprop(&p));
            for k in ["A", "B", "VALUE", "C"] {
                same!("parameter", k, m.params.get(k).cloned(), p.get_param_as(k, |s| Some(s.to_string())));
            }
            same!("value", i, Some(m.val.clone()), p.get_value_as(|s| Some(s.to_string())));
            st.step();
        }
        st.state(&m);
        Ok(())
    });
    big::stage(run, false, 1, |t, st| {
        let m = big::big_cal(t);
        for k in &m.comps {
            let b = match k.kind.as_str() {
                "VEVENT" => B::E(event(k)),
                "VTODO" => B::T(todo(k)),
                "VVENUE" => B::V(venue(k)),
                _ => B::G(any_component(k)),
            };
            compare(&b, k, st)?;
            if m.comps.len() < 20 || k.kind == "VTODO" {
                convert(&b, k, st)?;
            }
            let mut done = b.clone();
            if let Some(d) = done.done() {
                compare(&d, k, st)?;
                compare(&done, &empty_model(k), st)?;
            }
        }
        st.state(&m);
        Ok(())
    });
}
