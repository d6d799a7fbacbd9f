//! C14: calendar metadata is written under both names and read with fallback.
use super::c10::rfc_duration;
use super::c13::{check, copy};
use super::*;
use chrono::Duration;

type TextPair = (&'static str, &'static str, fn(&mut Calendar, &str), fn(&Calendar) -> Option<&str>);
const PAIRS: [TextPair; 3] = [
    ("NAME", "X-WR-CALNAME", |c, v| { c.name(v); }, |c| c.get_name()),
    ("DESCRIPTION", "X-WR-CALDESC", |c, v| { c.description(v); }, |c| c.get_description()),
    ("TIMEZONE-ID", "X-WR-TIMEZONE", |c, v| { c.timezone(v); }, |c| c.get_timezone()),
];
fn reread(c: &Calendar) -> Result<Calendar, Fail> {
    let out = c.to_string();
    match out.parse::<Calendar>() {
        Ok(c) => Ok(c),
        Err(e) => fail("written calendar rejected", format!("{e}\n{out:?}")),
    }
}
/// what the getters have to say about calendar properties
fn expect(props: &[MProp]) -> (Vec<Option<String>>, Option<i64>) {
    let first = |k: &str| props.iter().find(|p| p.key == k).map(|p| p.val.clone());
    let texts = PAIRS.iter().map(|(s, v, ..)| first(s).or(first(v))).collect();
    let secs = |k: &str| first(k).and_then(|t| rfc_duration(&t)).map(|n| n as i64);
    (texts, secs("REFRESH-INTERVAL").or(secs("X-PUBLISHED-TTL")))
}
fn getters(c: &Calendar) -> (Vec<Option<String>>, Option<i64>) {
    let texts = PAIRS.iter().map(|(_, _, _, g)| g(c).map(|s| s.to_string())).collect();
    (texts, c.get_ttl().map(|d| d.num_seconds()))
}
/// properties and getters, before and after a write and read
fn verify(c: &Calendar, m: &MCal, what: &str, st: &mut Stats) -> R {
    same!("properties", what, m.props, c.properties.iter().map(mprop).collect::<Vec<_>>());
    let exp = expect(&m.props);
    same!("getters", format!("{what} {:?}", m.props), exp, getters(c));
    let mut gen = vec![];
    check_written_cal(m, &c.to_string(), &mut gen)?;
    let back = reread(c)?;
    same!("properties read again", what, m.props, back.properties.iter().map(mprop).collect::<Vec<_>>());
    same!("getters after write and read", format!("{what} {:?}", m.props), exp, getters(&back));
    // the whole seconds are all there is
    for x in [c, &back] {
        if let (Some(d), Some(n)) = (x.get_ttl(), exp.1) {
            same!("time to live", what, Duration::seconds(n), d);
        }
    }
    st.steps(2);
    Ok(())
}
/// the text a duration has to be stored as: any RFC 5545 spelling of it
fn ttl_props(c: &Calendar, secs: i64) -> Result<Vec<MProp>, Fail> {
    let n = c.properties.len();
    ensure!(n >= 2, "properties of a time to live", format!("{:?}", c.properties));
    let t = c.properties[n - 2].value().to_string();
    same!("duration text", t, Some(secs as i128), rfc_duration(&t));
    Ok(vec![MProp::new("REFRESH-INTERVAL", &t).with("VALUE", "DURATION"), MProp::new("X-PUBLISHED-TTL", &t)])
}
fn set_ttl(c: &mut Calendar, m: &mut MCal, secs: i64) -> R {
    c.ttl(&Duration::seconds(secs));
    m.props.extend(ttl_props(c, secs)?);
    Ok(())
}
fn set_text(c: &mut Calendar, m: &mut MCal, which: usize, v: &str) {
    let (s, x, f, _) = &PAIRS[which];
    f(c, v);
    m.props.push(MProp::new(s, v));
    m.props.push(MProp::new(x, v));
}
fn texts(v: &str, st: &mut Stats) -> R {
    for w in 0..3 {
        for full in [false, true] {
            let mut c = if full { Calendar::new() } else { Calendar::empty() };
            let mut m = MCal { props: if full { default_props() } else { vec![] }, comps: vec![] };
            set_text(&mut c, &mut m, w, v);
            st.state(&m);
            verify(&c, &m, "set", st)?;
            check(&c, &m, "set", st)?;
            // later values do not matter
            set_text(&mut c, &mut m, w, "later");
            same!("first value counts", v, Some(v), PAIRS[w].3(&c));
        }
        // only one of the names, or both with different texts
        let (s, x) = (PAIRS[w].0, PAIRS[w].1);
        for (a, b) in [(s, x), (x, s)] {
            for (first, second) in [(v, "other"), ("other", v)] {
                let m = MCal { props: vec![MProp::new(a, first), MProp::new("X-BETWEEN", "b"), MProp::new(b, second)], comps: vec![] };
                verify(&calendar(&m), &m, "both names", st)?;
            }
            let m = MCal { props: vec![MProp::new(a, v)], comps: vec![] };
            verify(&calendar(&m), &m, "one name", st)?;
        }
    }
    st.note(|| format!("{v:?}"));
    Ok(())
}
fn ttl(secs: i64, st: &mut Stats) -> R {
    let mut c = Calendar::empty();
    let mut m = MCal::default();
    set_ttl(&mut c, &mut m, secs)?;
    st.state(&secs);
    verify(&c, &m, "ttl", st)
}
pub struct S {
    c: Calendar,
    m: MCal,
}
impl Clone for S {
    fn clone(&self) -> S {
        S { c: copy(&self.c), m: self.m.clone() }
    }
}
/// calls and single properties, as they are found in documents
fn ops() -> Vec<(String, Vec<MProp>)> {
    let mut v: Vec<(String, Vec<MProp>)> = vec![];
    for (s, x, ..) in PAIRS {
        for n in [s, x] {
            v.push((n.into(), vec![MProp::new(n, "a,b")]));
            v.push((n.into(), vec![MProp::new(n, "")]));
        }
    }
    for t in ["PT1H", "P1DT2H3M4S", "garbage", "", "P2W"] {
        v.push(("refresh".into(), vec![MProp::new("REFRESH-INTERVAL", t).with("VALUE", "DURATION")]));
        v.push(("ttl".into(), vec![MProp::new("X-PUBLISHED-TTL", t)]));
    }
    v.push(("refresh".into(), vec![MProp::new("REFRESH-INTERVAL", "PT7S")]));
    v.push(("other".into(), vec![MProp::new("SUMMARY", "s")]));
    // names that only look alike
    v.push(("lower".into(), vec![MProp::new("name", "lower"), MProp::new("refresh-interval", "PT9S"), MProp::new("X-WR-CALNAME2", "x")]));
    v
}
fn apply(s: &mut S, op: usize, ops: &[(String, Vec<MProp>)]) -> R {
    match op {
        0 => set_text(&mut s.c, &mut s.m, 0, "set name"),
        1 => set_text(&mut s.c, &mut s.m, 1, "set\ndescription"),
        2 => set_text(&mut s.c, &mut s.m, 2, "Europe/Berlin"),
        3 => set_ttl(&mut s.c, &mut s.m, 5400)?,
        4 => set_ttl(&mut s.c, &mut s.m, 0)?,
        5 => {
            let f = s.c.done();
            s.c = f;
        }
        _ => {
            for p in &ops[op - 6].1 {
                s.c.append_property(p.build());
                s.m.props.push(p.clone());
            }
        }
    }
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("durations in documents are RFC 5545 ones without sign or clearly none; signed and ISO year/month durations as a time to live are left open");
    let alpha = ["a", ",", ";", "\\", "\n", "n", " ", "é", ":", "\"", "\r"];
    let k = run.q(4, 5);
    run.cases("texts", &format!("all words of length <= {k} over {} symbols x 3 setters", alpha.len()), words_upto(alpha.len(), k), |i, st| texts(&spell(i, &alpha), st));
    let lens = run.q(300, 2000);
    run.cases("long texts", &format!("lengths 0..{lens} x 4 characters"), lens * 4, |i, st| texts(&["a", "é", ";", " b"][i % 4].repeat(i / 4), st));
    let top = run.q(0x2400, SCALARS);
    run.cases("every character", &format!("the first {top} Unicode scalar values in each text"), top / 64 + 1, |i, st| {
        for j in i * 64..((i + 1) * 64).min(top) {
            texts(&format!("{}", scalar(j)), st)?;
        }
        Ok(())
    });
    let sp: Vec<&str> = big::special().into_iter().chain(chrono_tz::TZ_VARIANTS.iter().map(|t| t.name())).collect();
    run.cases("special texts", &format!("{} texts, among them all zone names", sp.len()), sp.len(), |i, st| texts(sp[i], st));
    let mut other = gen::names_in_use();
    other.retain(|n| !["BEGIN", "END", ""].contains(&n.to_uppercase().as_str()));
    run.cases("other names", &format!("{} names in use as a property of the calendar, alone and before and after each of the eight names", other.len()), other.len(), |i, st| {
        let n = &other[i];
        for v in ["Europe/Berlin", "PT3H", ""] {
            let p = MProp::new(n, v);
            let mut all = vec![vec![p.clone()], vec![p.clone(), p.clone().with("VALUE", "DURATION")]];
            for k in ["NAME", "X-WR-CALNAME", "DESCRIPTION", "X-WR-CALDESC", "TIMEZONE-ID", "X-WR-TIMEZONE", "REFRESH-INTERVAL", "X-PUBLISHED-TTL"] {
                let q = MProp::new(k, "PT5H");
                all.push(vec![p.clone(), q.clone()]);
                all.push(vec![q, p.clone()]);
            }
            for props in all {
                let m = MCal { props, comps: vec![] };
                let c = calendar(&m);
                same!("getters", format!("{:?}", m.props), expect(&m.props), getters(&c));
                st.step();
                st.state(&m);
            }
        }
        Ok(())
    });
    let top = run.q(1_000_000, 40_000_000);
    run.cases("time to live", &format!("every second from 0 to {top}"), top / 256, |i, st| {
        for s in i * 256..(i + 1) * 256 {
            ttl(s as i64, st)?;
        }
        Ok(())
    });
    let mut far: Vec<i64> = vec![];
    for b in 0..=32u32 {
        for d in -3i64..=3 {
            far.push(((1i64 << b) + d).clamp(0, u32::MAX as i64));
        }
    }
    for n in 0..run.q(1_000_000u64, 20_000_000) {
        far.push((n.wrapping_mul(2654435761) % (1 << 32)) as i64);
    }
    run.cases("large time to live", "powers of 2 and neighbours, and a lattice of all 32-bit values", far.len(), |i, st| ttl(far[i], st));
    let t = ops();
    let n = t.len() + 6;
    let depth = run.q(4, 5);
    run.bfs(
        "histories",
        &format!("all sequences of <= {depth} of {n} setter calls and single properties, getters before and after write and read"),
        n,
        depth,
        || S { c: Calendar::empty(), m: MCal::default() },
        |s, op, st| {
            let mut x = s.clone();
            apply(&mut x, op, &t)?;
            st.note(|| format!("{:?}", x.m.props));
            verify(&x.c, &x.m, "history", st)?;
            Ok(Some(x))
        },
        |s| h128(&s.m),
    );
    // durations as documents spell them, under both names
    let units = ["P", "T", "W", "D", "H", "M", "S", "0", "1", "25", "100000"];
    let k = run.q(6, 7);
    let nums: Vec<Option<u32>> = [0u32, 1, 2, 9, 10, 23, 24, 59, 60, 61, 99, 100, 3600, 10000].iter().map(|n| Some(*n)).chain([None]).collect();
    let b = nums.len();
    run.cases("duration fields", &format!("{b}^4 combinations of days, hours, minutes and seconds and the same weeks, under each name"), b * b * b * b + b, |i, st| {
        let mut d = Dec(i);
        let f = [d.n(b), d.n(b), d.n(b), d.n(b)].map(|x| nums[x]);
        let text = if d.0 > 0 {
            // (only the first fields vary then)
            match f[0] {
                Some(n) => format!("P{n}W"),
                None => return Ok(()),
            }
        } else {
            let mut t = "P".to_string();
            if let Some(n) = f[0] {
                t += &format!("{n}D");
            }
            if f[1..].iter().any(|x| x.is_some()) {
                t.push('T');
            }
            for (n, u) in f[1..].iter().zip(['H', 'M', 'S']) {
                if let Some(n) = n {
                    t += &format!("{n}{u}");
                }
            }
            t
        };
        let Some(n) = rfc_duration(&text) else { return Ok(()) };
        st.state(&text);
        let exp = Some(Duration::seconds(n as i64));
        for key in ["REFRESH-INTERVAL", "X-PUBLISHED-TTL"] {
            let c = calendar(&MCal { props: vec![MProp::new(key, &text)], comps: vec![] });
            same!("time to live", text, exp, c.get_ttl());
            st.step();
        }
        Ok(())
    });
    run.cases("duration texts", &format!("all words of length <= {k} over {} tokens under each name, with a readable or no other", units.len()), words_upto(units.len(), k), |i, st| {
        let text = spell(i, &units);
        let Some(n) = rfc_duration(&text) else {
            // everything else may be an ISO 8601 duration; only clear garbage is decided
            if text.starts_with('P') {
                return Ok(());
            }
            let m = MCal { props: vec![MProp::new("REFRESH-INTERVAL", &text), MProp::new("X-PUBLISHED-TTL", "PT5S")], comps: vec![] };
            let c = calendar(&m);
            same!("unreadable interval", text, Some(Duration::seconds(5)), c.get_ttl());
            let m = MCal { props: vec![MProp::new("X-PUBLISHED-TTL", &text)], comps: vec![] };
            same!("unreadable time to live", text, None, calendar(&m).get_ttl());
            st.step();
            return Ok(());
        };
        // (numbers that do not fit in 32 bits are not decided)
        if text.split(|c: char| !c.is_ascii_digit()).any(|d| d.parse::<u32>().is_err() && !d.is_empty()) || n > u32::MAX as i128 {
            return Ok(());
        }
        st.state(&text);
        let exp = Some(Duration::seconds(n as i64));
        let d = |k: &str, v: &str| MProp::new(k, v);
        for props in [
            vec![d("REFRESH-INTERVAL", &text)],
            vec![d("X-PUBLISHED-TTL", &text)],
            vec![d("X-PUBLISHED-TTL", "PT999S"), d("REFRESH-INTERVAL", &text)],
            vec![d("REFRESH-INTERVAL", &text), d("REFRESH-INTERVAL", "PT998S"), d("X-PUBLISHED-TTL", "PT999S")],
            vec![d("REFRESH-INTERVAL", "never"), d("REFRESH-INTERVAL", "PT998S"), d("X-PUBLISHED-TTL", &text)],
        ] {
            let m = MCal { props, comps: vec![] };
            let c = calendar(&m);
            same!("time to live", format!("{:?}", m.props), exp, c.get_ttl());
            same!("time to live read again", format!("{:?}", m.props), exp, reread(&c)?.get_ttl());
            st.steps(2);
        }
        Ok(())
    });
}
