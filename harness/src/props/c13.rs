//! C13: a calendar is an ordered container with its default properties.
use super::*;

/// two calendars under construction and their models
pub struct Two {
    a: Calendar,
    b: Calendar,
    ma: MCal,
    mb: MCal,
}
pub fn copy(c: &Calendar) -> Calendar {
    let mut r = Calendar::empty();
    r.properties = c.properties.clone();
    r.components = c.components.clone();
    r
}
impl Clone for Two {
    fn clone(&self) -> Two {
        Two { a: copy(&self.a), b: copy(&self.b), ma: self.ma.clone(), mb: self.mb.clone() }
    }
}
fn comp(kind: usize, label: &str) -> MComp {
    let mut m = MComp::new(["VEVENT", "VTODO", "VVENUE", "X-OTHER", "VALARM"][kind]);
    m.set(MProp::new("SUMMARY", label));
    m.add_multi(MProp::new("COMMENT", label));
    if kind == 0 {
        let mut k = MComp::new("VTODO");
        k.set(MProp::new("SUMMARY", "kid"));
        m.kids.push(k);
    }
    m
}
/// a generic component, also for VALARM
fn generic(m: &MComp) -> CalendarComponent {
    raw_comp(m).into()
}
fn defaults() -> MCal {
    MCal { props: default_props(), comps: vec![] }
}
/// everything that can be read of a calendar
pub fn check(c: &Calendar, m: &MCal, what: &str, st: &mut Stats) -> R {
    same!("calendar", what, *m, mcal(c)?);
    let n = m.comps.len();
    same!("len", what, n, c.len());
    same!("is_empty", what, n == 0, c.is_empty());
    let views: [(&str, Vec<MComp>); 6] = [
        ("iter", c.iter().map(|x| mcomp_cc(x).1).collect()),
        ("index", (0..c.len()).map(|i| mcomp_cc(&c[i]).1).collect()),
        ("as_ref", AsRef::<[CalendarComponent]>::as_ref(c).iter().map(|x| mcomp_cc(x).1).collect()),
        ("deref", std::ops::Deref::deref(c).iter().map(|x| mcomp_cc(x).1).collect()),
        ("field", c.components.iter().map(|x| mcomp_cc(x).1).collect()),
        ("reversed", {
            let mut v: Vec<_> = c.iter().rev().map(|x| mcomp_cc(x).1).collect();
            v.reverse();
            v
        }),
    ];
    for (name, v) in views {
        same!(format!("components seen through {name}"), what, m.comps, v);
    }
    same!("first", what, m.comps.first().cloned(), c.first().map(|x| mcomp_cc(x).1));
    same!("last", what, m.comps.last().cloned(), c.last().map(|x| mcomp_cc(x).1));
    for k in ["VERSION", "PRODID", "CALSCALE", "X-A", "X-B", "x-a", "", "NAME", "X-WR-CALNAME", "METHOD"] {
        let exp = m.props.iter().find(|p| p.key == k).map(|p| p.val.as_str());
        same!("property_value", format!("{what} {k}"), exp, c.property_value(k));
    }
    for (i, x) in c.iter().enumerate() {
        same!("as_event", what, m.comps[i].kind == "VEVENT", x.as_event().is_some());
        same!("as_todo", what, m.comps[i].kind == "VTODO", x.as_todo().is_some());
    }
    st.step();
    Ok(())
}
pub const OPS: usize = 34;
fn apply(t: &mut Two, op: usize) -> Result<&'static str, Fail> {
    let l = format!("{op}");
    let mut comps = |ms: &[MComp]| t.ma.comps.extend(ms.iter().cloned());
    Ok(match op {
        0 => {
            let m = comp(0, &l);
            t.a.push(event(&m));
            comps(&[m]);
            "push event"
        }
        1 => {
            let m = comp(1, &l);
            t.a.push(todo(&m));
            comps(&[m]);
            "push to-do"
        }
        2 => {
            let m = comp(2, &l);
            t.a.push(venue(&m));
            comps(&[m]);
            "push venue"
        }
        3 => {
            let m = comp(3, &l);
            t.a.push(generic(&m));
            comps(&[m]);
            "push generic"
        }
        4 => {
            let m = comp(4, &l);
            t.a.push(generic(&m));
            comps(&[m]);
            "push generic alarm"
        }
        5 => {
            let (x, y) = (comp(0, "5a"), comp(1, "5b"));
            t.a.push(event(&x)).push(todo(&y));
            comps(&[x, y]);
            "push chained"
        }
        6 => {
            let m = comp(1, &l);
            #[allow(deprecated)]
            t.a.add(todo(&m));
            comps(&[m]);
            "add"
        }
        7 => {
            t.a.extend(Vec::<Event>::new());
            "extend by nothing"
        }
        8 => {
            let (x, y) = (comp(0, "8a"), comp(0, "8b"));
            t.a.extend([event(&x), event(&y)]);
            comps(&[x, y]);
            "extend by array"
        }
        9 => {
            let ms: Vec<MComp> = (0..4).map(|i| comp(i, &format!("9{i}"))).collect();
            t.a.extend(ms.iter().map(any_component));
            comps(&ms);
            "extend by iterator of mixed components"
        }
        10 => {
            // (a calendar is a slice, too)
            t.a.extend(t.b.iter().cloned());
            t.ma.comps.extend(t.mb.comps.iter().cloned());
            "extend by the other calendar's components"
        }
        11 => {
            t.a.append(&mut t.b);
            let mut x = std::mem::take(&mut t.mb.comps);
            t.ma.comps.append(&mut x);
            "append the other"
        }
        12 => {
            t.b.append(&mut t.a);
            let mut x = std::mem::take(&mut t.ma.comps);
            t.mb.comps.append(&mut x);
            "append to the other"
        }
        13 => {
            std::mem::swap(&mut t.a, &mut t.b);
            std::mem::swap(&mut t.ma, &mut t.mb);
            "swap"
        }
        14 => {
            t.a = t.a.done();
            "done, go on with the result"
        }
        15 => {
            t.b = t.a.done();
            t.mb = std::mem::take(&mut t.ma);
            "done, keep the builder"
        }
        16 => {
            t.a.append_property(("X-A", "1"));
            t.ma.props.push(MProp::new("X-A", "1"));
            "property"
        }
        17 => {
            t.a.append_property(Property::new("X-A", "2").add_parameter("K", "v").done());
            t.ma.props.push(MProp::new("X-A", "2").with("K", "v"));
            "property of the same name"
        }
        18 => {
            t.a.append_property(("VERSION", "3.0")).append_property(("X-B", ""));
            t.ma.props.push(MProp::new("VERSION", "3.0"));
            t.ma.props.push(MProp::new("X-B", ""));
            "properties chained"
        }
        19 => {
            t.a.name("n");
            t.ma.props.push(MProp::new("NAME", "n"));
            t.ma.props.push(MProp::new("X-WR-CALNAME", "n"));
            "name"
        }
        20 => {
            t.a = Calendar::new();
            t.ma = defaults();
            "new"
        }
        21 => {
            t.a = Calendar::default();
            t.ma = defaults();
            "default"
        }
        22 => {
            t.a = Calendar::empty();
            t.ma = MCal::default();
            "empty"
        }
        23 => {
            let m = comp(0, &l);
            t.a = Calendar::from(event(&m));
            t.ma = MCal { comps: vec![m], ..defaults() };
            "from event"
        }
        24 => {
            let m = comp(3, &l);
            t.a = Calendar::from(generic(&m));
            t.ma = MCal { comps: vec![m], ..defaults() };
            "from generic"
        }
        25 => {
            let ms = [comp(1, "25a"), comp(1, "25b"), comp(1, "25c")];
            t.a = Calendar::from([todo(&ms[0]), todo(&ms[1]), todo(&ms[2])]);
            t.ma = MCal { comps: ms.to_vec(), ..defaults() };
            "from array"
        }
        26 => {
            t.a = Calendar::from(Vec::<ip::Component>::new());
            t.ma = defaults();
            "from no parsed component"
        }
        27 => {
            t.a = std::mem::take(&mut t.a.components).into_iter().collect();
            t.ma.props = default_props();
            "collected from the own components"
        }
        28 => {
            let x = comp(2, &l);
            let mut p = ip::Component { name: "VCALENDAR".into(), properties: vec![], components: vec![raw_comp(&x)] };
            p.properties.push(raw_prop(&MProp::new("X-A", "p")));
            p.properties.push(raw_prop(&MProp::new("X-A", "q")));
            t.a = Calendar::from(vec![p]);
            t.ma = MCal { props: vec![MProp::new("X-A", "p"), MProp::new("X-A", "q")], comps: vec![x] };
            "from parsed calendar"
        }
        29 => {
            let ms: Vec<MComp> = (0..5).map(|i| comp(i, &format!("29{i}"))).collect();
            t.a = Calendar::from(ms.iter().map(raw_comp).collect::<Vec<_>>());
            t.ma = MCal { comps: ms, ..defaults() };
            "from parsed components"
        }
        30 => {
            match "BEGIN:VCALENDAR\r\nX-B:doc\r\nPRODID:p\r\nBEGIN:VTODO\r\nSUMMARY:t\r\nEND:VTODO\r\nEND:VCALENDAR\r\n".parse::<Calendar>() {
                Ok(c) => t.a = c,
                Err(e) => return fail("document rejected", e),
            }
            let mut m = MComp::new("VTODO");
            m.set(MProp::new("SUMMARY", "t"));
            t.ma = MCal { props: vec![MProp::new("X-B", "doc"), MProp::new("PRODID", "p")], comps: vec![m] };
            "from text"
        }
        31 => {
            match "BEGIN:VCALENDAR\nEND:VCALENDAR\n".parse::<Calendar>() {
                Ok(c) => t.a = c,
                Err(e) => return fail("document rejected", e),
            }
            t.ma = MCal::default();
            "from an empty document"
        }
        32 => {
            t.a.components.reverse();
            t.ma.comps.reverse();
            "reverse the field"
        }
        _ => {
            t.a.properties.pop();
            t.a.components.pop();
            t.ma.props.pop();
            t.ma.comps.pop();
            "pop from the fields"
        }
    })
}
fn step(t: &Two, op: usize, st: &mut Stats, max: usize) -> Result<Option<Two>, Fail> {
    if t.ma.comps.len() + t.mb.comps.len() > max {
        return Ok(None);
    }
    let mut n = t.clone();
    let what = apply(&mut n, op)?;
    st.note(|| format!("{what}: {:?} / {:?}", n.ma, n.mb));
    check(&n.a, &n.ma, what, st)?;
    check(&n.b, &n.mb, what, st)?;
    Ok(Some(n))
}
fn init() -> Two {
    Two { a: Calendar::new(), b: Calendar::empty(), ma: defaults(), mb: MCal::default() }
}
fn canon(t: &Two) -> u128 {
    h128(&(&t.ma, &t.mb))
}

pub fn run(run: &Run) {
    let depth = run.q(4, 5);
    run.bfs(
        "two calendars",
        &format!("all sequences of <= {depth} of {OPS} calls on two calendars of <= 24 components"),
        OPS,
        depth,
        init,
        |t, op, st| step(t, op, st, 24),
        canon,
    );
    let few = [0, 1, 9, 11, 12, 13, 14, 15, 16, 17, 27];
    let depth = run.q(7, 9);
    run.bfs(
        "two calendars, deep",
        &format!("all sequences of <= {depth} of {} calls on two calendars of <= 12 components", few.len()),
        few.len(),
        depth,
        init,
        |t, op, st| step(t, few[op], st, 12),
        canon,
    );
    // written output of what is reachable: components and properties in order
    let k = run.q(3, 4);
    run.cases("written", &format!("all sequences of <= {k} calls, written and read again"), words_upto(OPS, k), |i, st| {
        let mut t = init();
        for op in word(i, OPS) {
            apply(&mut t, op)?;
        }
        st.state(&(&t.ma, &t.mb));
        for (c, m) in [(&t.a, &t.ma), (&t.b, &t.mb)] {
            let out = c.to_string();
            let mut gen = vec![];
            check_written_cal(m, &out, &mut gen)?;
            match out.parse::<Calendar>() {
                Ok(r) => {
                    let got = mcal(&r)?;
                    let mut it = gen.iter();
                    let exp = MCal { props: m.props.clone(), comps: m.comps.iter().map(|c| with_generated(c, &mut it)).collect() };
                    check(&r, &exp, "read again", st)?;
                    same!("read again", out, exp, got);
                }
                Err(e) => return fail("written calendar rejected", format!("{e}\n{out:?}")),
            }
        }
        Ok(())
    });
    // conversions of arrays, and iterators that tell little about their length
    run.cases("arrays", "arrays of 0..=4 components of 3 types and of mixed ones", 5 * 4, |i, st| {
        let (n, k) = (i / 4, i % 4);
        let ms: Vec<MComp> = (0..n).map(|j| comp(if k < 3 { k } else { j % 4 }, &format!("{j}"))).collect();
        macro_rules! arr {
            ($f:expr) => {
                match n {
                    0 => Calendar::from([(); 0].map(|_| $f(&ms[0]))),
                    1 => Calendar::from([$f(&ms[0])]),
                    2 => Calendar::from([$f(&ms[0]), $f(&ms[1])]),
                    3 => Calendar::from([$f(&ms[0]), $f(&ms[1]), $f(&ms[2])]),
                    _ => Calendar::from([$f(&ms[0]), $f(&ms[1]), $f(&ms[2]), $f(&ms[3])]),
                }
            };
        }
        let c = match k {
            0 => arr!(event),
            1 => arr!(todo),
            2 => arr!(venue),
            _ => arr!(any_component),
        };
        st.state(&(n, k));
        check(&c, &MCal { comps: ms.clone(), ..defaults() }, "from an array", st)?;
        // collected by the standard library's ways
        let c: Calendar = ms.iter().map(any_component).collect();
        check(&c, &MCal { comps: ms, ..defaults() }, "collected", st)
    });
    run.cases("large arrays", "arrays of 5, 8, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097 events, to-dos and mixed components", 20 * 3, |i, st| {
        fn of<const N: usize>(k: usize, st: &mut Stats) -> R {
            let ms: Vec<MComp> = (0..N).map(|j| comp(if k < 2 { k } else { j % 4 }, &format!("{j}"))).collect();
            let c = match k {
                0 => Calendar::from(std::array::from_fn::<Event, N, _>(|j| event(&ms[j]))),
                1 => Calendar::from(std::array::from_fn::<Todo, N, _>(|j| todo(&ms[j]))),
                _ => Calendar::from(std::array::from_fn::<CalendarComponent, N, _>(|j| any_component(&ms[j]))),
            };
            st.state(&(N, k));
            check(&c, &MCal { comps: ms, ..defaults() }, "from an array", st)
        }
        let f = [of::<5>, of::<8>, of::<15>, of::<16>, of::<17>, of::<31>, of::<32>, of::<33>, of::<64>, of::<65>, of::<100>, of::<127>, of::<128>, of::<129>, of::<255>, of::<256>, of::<257>, of::<1000>, of::<1025>, of::<4097>];
        f[i / 3](i % 3, st)
    });
    let many = [4095usize, 4096, 4097, 8192, 10000, 32768, 65535, 65536, 65537, 100_000, 131_073];
    run.cases("very many components", &format!("{many:?} components, collected, pushed and appended"), many.len() * 3, |i, st| {
        let n = many[i / 3];
        let ms: Vec<MComp> = (0..n).map(|j| {
            let mut m = MComp::new(["VEVENT", "VTODO"][j % 2]);
            m.set(MProp::new("UID", &j.to_string()));
            m
        }).collect();
        let mut c = Calendar::new();
        match i % 3 {
            0 => c = ms.iter().map(any_component).collect(),
            1 => ms.iter().for_each(|m| { c.push(any_component(m)); }),
            _ => {
                let mut d = Calendar::empty();
                c.extend(ms[..n / 2].iter().map(any_component));
                d.extend(ms[n / 2..].iter().map(any_component));
                c.append(&mut d);
            }
        }
        st.state(&i);
        check(&c, &MCal { comps: ms, ..defaults() }, "very many", st)
    });
    let counts = sizes(20, run.q(300, 4200));
    run.cases("iterators", &format!("{} numbers of components up to {} x 8 kinds of iterators, extending and collecting", counts.len(), counts[counts.len() - 1]), counts.len() * 8, |i, st| {
        let (n, kind) = (counts[i / 8], i % 8);
        let ms: Vec<MComp> = (0..n).map(|j| comp(j % 4, &format!("{j}"))).collect();
        let iter = || -> Box<dyn Iterator<Item = CalendarComponent> + '_> {
            let all = ms.iter().map(any_component);
            match kind {
                0 => Box::new(all),
                1 => Box::new(all.filter(|_| true)),
                2 => Box::new(ms.iter().flat_map(|m| vec![any_component(m)])),
                3 => {
                    let mut it = ms.iter();
                    Box::new(std::iter::from_fn(move || it.next().map(any_component)))
                }
                4 => Box::new(all.take_while(|_| true)),
                5 => Box::new(all.chain(std::iter::empty())),
                6 => Box::new(ms[..n / 2].iter().map(any_component).chain(ms[n / 2..].iter().filter(|_| true).map(any_component))),
                // promises nothing at all
                _ => Box::new(all.skip(0).scan((), |_, x| Some(x))),
            }
        };
        st.state(&(n, kind));
        let c: Calendar = iter().collect();
        check(&c, &MCal { comps: ms.clone(), ..defaults() }, "collected", st)?;
        let mut c = Calendar::new();
        c.push(event(&comp(0, "first")));
        c.extend(iter());
        c.extend(iter());
        let mut all = vec![comp(0, "first")];
        all.extend(ms.clone());
        all.extend(ms.clone());
        check(&c, &MCal { comps: all, ..defaults() }, "extended twice", st)?;
        let mut e = Calendar::empty();
        e.extend(ms.iter().filter(|m| m.kind == "VEVENT").map(event));
        check(&e, &MCal { props: vec![], comps: ms.iter().filter(|m| m.kind == "VEVENT").cloned().collect() }, "extended by events", st)
    });
    // sizes
    let sizes = [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 100, 255, 256, 257, 1000];
    let n = run.q(sizes.len() - 1, sizes.len());
    run.cases("sizes", &format!("{n} sizes up to {} x {n} x 6 ways to combine", sizes[n - 1]), n * n * 6, |i, st| {
        let mut d = Dec(i);
        let way = d.n(6);
        let (x, y) = (sizes[d.n(n)], sizes[d.0]);
        let mk = |from: usize, n: usize| (from..from + n).map(|j| comp(j % 4, &format!("{j}"))).collect::<Vec<_>>();
        let (mx, my) = (mk(0, x), mk(x, y));
        let mut a: Calendar = mx.iter().map(any_component).collect();
        let mut ma = MCal { comps: mx, ..defaults() };
        let mut b = Calendar::empty();
        for m in &my {
            b.push(any_component(m));
        }
        let mut mb = MCal { props: vec![], comps: my };
        match way {
            0 => {
                a.append(&mut b);
                ma.comps.append(&mut mb.comps);
            }
            1 => {
                a.extend(b.components.clone());
                ma.comps.extend(mb.comps.clone());
            }
            2 => {
                for c in b.components.clone() {
                    a.push(c);
                }
                ma.comps.extend(mb.comps.clone());
            }
            3 => {
                b.append(&mut a);
                mb.comps.append(&mut ma.comps);
            }
            4 => {
                a = a.components.clone().into_iter().chain(b.components.clone()).collect();
                ma.comps.extend(mb.comps.clone());
            }
            _ => {
                let f = a.done();
                check(&a, &MCal::default(), "finished", st)?;
                a = f;
            }
        }
        st.state(&(x, y, way));
        check(&a, &ma, "combined", st)?;
        check(&b, &mb, "other", st)
    });
}
