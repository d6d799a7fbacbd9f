//! C16: fault injection into the destination: every write of every serialization fails once.
use super::c04::{components_catalogue, stamped};
use super::gen::*;
use super::*;
use std::fmt;

#[derive(Clone, Copy, Debug)]
pub enum Fault {
    None,
    /// the n-th write fails and all later ones
    From(usize),
    /// only the n-th write fails
    Only(usize),
    /// room for k octets: a write that does not fit is refused as a whole
    Room(usize),
    /// room for k octets: what fits of the write that does not is taken, later ones are refused
    Torn(usize),
    /// room for k octets: what does not fit is refused, but smaller writes may still fit
    Tight(usize),
}
pub struct Sink {
    fault: Fault,
    pub got: String,
    pub writes: usize,
    pub failed: bool,
    /// what it had received when it failed first
    pub before: usize,
}
impl Sink {
    pub fn new(fault: Fault) -> Sink {
        Sink { fault, got: String::new(), writes: 0, failed: false, before: 0 }
    }
    fn take(&mut self, s: &str) -> bool {
        let n = self.writes;
        self.writes += 1;
        let left = |k: usize, got: &str| k.saturating_sub(got.len());
        let ok = match self.fault {
            Fault::None => true,
            Fault::From(f) => n < f,
            Fault::Only(f) => n != f,
            Fault::Room(k) => !self.failed && s.len() <= left(k, &self.got),
            Fault::Tight(k) => s.len() <= left(k, &self.got),
            Fault::Torn(k) => {
                let mut fit = if self.failed { 0 } else { left(k, &self.got).min(s.len()) };
                while !s.is_char_boundary(fit) {
                    fit -= 1
                }
                if fit < s.len() && !self.failed {
                    self.got.push_str(&s[..fit]);
                }
                fit == s.len() && !self.failed
            }
        };
        if ok {
            self.got.push_str(s);
        } else if !self.failed {
            self.failed = true;
            self.before = self.got.len();
        }
        ok
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.take(s) {
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }
}
struct IoSink(Sink);
impl std::io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let s = std::str::from_utf8(b).map_err(|_| std::io::Error::other("not UTF-8"))?;
        if self.0.take(s) {
            Ok(b.len())
        } else {
            Err(std::io::Error::other("full"))
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// positions of generated values
fn mask(text: &str) -> Vec<bool> {
    let mut m = vec![false; text.len()];
    let mut at = 0;
    for l in text.split_inclusive("\r\n") {
        let body = l.trim_end_matches("\r\n");
        for (p, ok) in [("UID:", is_uuid4 as fn(&str) -> bool), ("DTSTAMP:", is_utc_stamp)] {
            if let Some(v) = body.strip_prefix(p) {
                if ok(v) {
                    m[at + p.len()..at + body.len()].fill(true);
                }
            }
        }
        at += l.len();
    }
    m
}
fn prefix(full: &str, mask: &[bool], got: &str) -> bool {
    got.len() <= full.len() && got.bytes().zip(full.bytes()).zip(mask).all(|((a, b), m)| a == b || *m)
}

/// a way of writing one object
pub type Way<'a> = Box<dyn Fn(&mut dyn fmt::Write) -> fmt::Result + 'a>;

/// runs one way of writing with every fault; `every`: also every capacity, not only every write
pub fn faults(what: &str, way: &Way, st: &mut Stats) -> R {
    let mut s = Sink::new(Fault::None);
    ensure!(way(&mut s).is_ok(), "error without a failing write", what.to_string());
    let full = s.got;
    let m = mask(&full);
    let writes = s.writes;
    // the same again
    let mut s = Sink::new(Fault::None);
    ensure!(way(&mut s).is_ok(), "error without a failing write", what.to_string());
    ensure!(
        s.got.len() == full.len() && prefix(&full, &m, &s.got),
        "an undisturbed run does not receive the complete output",
        format!("{what}: {:?} and {:?}", clip(&full), clip(&s.got))
    );
    let mut list: Vec<Fault> = vec![];
    for n in 0..writes {
        list.push(Fault::From(n));
        list.push(Fault::Only(n));
    }
    for k in 0..=full.len() {
        list.push(Fault::Room(k));
        list.push(Fault::Torn(k));
        list.push(Fault::Tight(k));
    }
    for f in list {
        let mut s = Sink::new(f);
        let r = way(&mut s);
        st.step();
        let d = || format!("{what}\nfault: {f:?}\nreceived: {:?}\ncomplete: {:?}", clip(&s.got), clip(&full));
        if s.failed {
            ensure!(r.is_err(), "a failing destination is reported as success", d());
            ensure!(prefix(&full, &m, &s.got[..s.before]), "what was received before the failure is no prefix", d());
            st.state(&(full.len(), s.before, s.writes));
        } else {
            ensure!(r.is_ok(), "error without a failing write", d());
            ensure!(s.got.len() == full.len() && prefix(&full, &m, &s.got), "incomplete output", d());
        }
    }
    // the object is unharmed
    let mut s = Sink::new(Fault::None);
    ensure!(way(&mut s).is_ok(), "error without a failing write", what.to_string());
    ensure!(
        s.got.len() == full.len() && prefix(&full, &m, &s.got),
        "output differs after a failure",
        format!("{what}: {:?} and {:?}", clip(&full), clip(&s.got))
    );
    st.note(|| format!("{what}: {writes} writes, {} octets", full.len()));
    Ok(())
}
/// the same through std::io (every write and every capacity)
fn io_faults<T: fmt::Display>(what: &str, x: &T, full: usize, st: &mut Stats) -> R {
    use std::io::Write;
    for k in 0..=full {
        for torn in [false, true] {
            let mut s = IoSink(Sink::new(if torn { Fault::Tight(k) } else { Fault::Room(k) }));
            let r = write!(s, "{x}");
            st.step();
            ensure!(r.is_err() == s.0.failed, "the error of an io destination is not reported as such", format!("{what} room {k}"));
        }
    }
    Ok(())
}

fn display<T: fmt::Display>(x: &T) -> Way<'_> {
    Box::new(move |w| write!(w, "{x}"))
}
fn writing<C: Component>(c: &C) -> Way<'_> {
    Box::new(move |mut w| c.fmt_write(&mut w))
}
fn one_component(m: &MComp, st: &mut Stats) -> R {
    let what = format!("{m:?}");
    match m.kind.as_str() {
        "VEVENT" => {
            let c = event(m);
            faults(&what, &writing(&c), st)?;
        }
        "VTODO" => {
            let c = todo(m);
            faults(&what, &writing(&c), st)?;
        }
        "VVENUE" => {
            let c = venue(m);
            faults(&what, &writing(&c), st)?;
        }
        "VALARM" if m.props.contains_key("ACTION") => {
            let c = alarm(m);
            faults(&what, &writing(&c), st)?;
        }
        _ => {
            if let CalendarComponent::Other(mut o) = empty_generic(&m.kind) {
                fill(&mut o, m);
                faults(&what, &writing(&o), st)?;
            }
        }
    }
    Ok(())
}
fn one_calendar(m: &MCal, st: &mut Stats) -> R {
    let what = format!("{m:?}");
    let c = calendar(m);
    let before = c13::copy(&c);
    faults(&what, &display(&c), st)?;
    io_faults(&what, &c, c.to_string().len(), st)?;
    ensure!(c == before, "the calendar was changed by writing it", what);
    Ok(())
}
fn one_tree(t: &[Tree], st: &mut Stats) -> R {
    let c = ip::Calendar { properties: vec![], components: t.iter().map(raw_tree).collect() };
    let what = format!("parsed {t:?}");
    let before = c.clone();
    faults(&what, &display(&c), st)?;
    io_faults(&what, &c, c.to_string().len(), st)?;
    ensure!(tree_of_cal(&c) == tree_of_cal(&before), "the tree was changed by writing it", what);
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("destinations fail by returning an error from a write (permanently, once, or for lack of room); generated DTSTAMP and UID values are masked when outputs are compared");
    // components and calendars through the builder
    let mut comps = components_catalogue();
    for c in components_catalogue() {
        for k in &c.kids {
            comps.push(k.clone());
        }
        let mut d = MComp::new("X-OUTER");
        d.kids.push(c);
        comps.push(d);
    }
    run.cases(
        "components",
        "every component of the catalogue x every write failing (for good, once) and every capacity (3 ways of refusing)",
        comps.len(),
        |i, st| one_component(&comps[i], st),
    );
    let cprops: [Vec<MProp>; 3] = [
        vec![],
        default_props(),
        vec![MProp::new("NAME", "a, b\n"), MProp::new("X-L", &"long ".repeat(40)).with("P", "x:y"), MProp::new("NAME", "b")],
    ];
    run.cases(
        "calendars",
        "every component of the catalogue in a calendar with each of 3 sets of properties x all faults",
        (comps.len() + 1) * 3,
        |i, st| {
            let m = MCal {
                props: cprops[i % 3].clone(),
                comps: match i / 3 {
                    0 => vec![],
                    j if comps[j - 1].kind == "VALARM" => vec![],
                    j => vec![comps[j - 1].clone(), MComp::new("VTODO")],
                },
            };
            one_calendar(&m, st)
        },
    );
    // shapes of nesting
    let n = run.q(4, 5);
    let mut shapes = vec![];
    for k in 1..=n {
        for f in forests(k) {
            for lab in 0..(3usize.pow(k as u32)) {
                shapes.push((f.clone(), lab));
            }
        }
    }
    run.cases(
        "nesting",
        &format!("all forests of <= {n} components with 3 labels (as builder objects and as parsed trees) x all faults"),
        shapes.len(),
        |i, st| {
            let (f, lab) = &shapes[i];
            let label = |i: usize| lab / 3usize.pow(i as u32) % 3;
            let roots = forest(
                f,
                |i, _| match label(i) {
                    0 => MComp::new("VEVENT"),
                    1 => {
                        let mut c = stamped("VTODO");
                        c.add_multi(MProp::new("COMMENT", "é,").with("P", "v;"));
                        c
                    }
                    _ => {
                        let mut c = stamped("X-G");
                        c.set(MProp::new("X-N", "").with("A", ""));
                        c
                    }
                },
                |p, c| p.kids.push(c),
            );
            let m = MCal { props: vec![MProp::new("VERSION", "2.0")], comps: roots };
            one_calendar(&m, st)?;
            let trees = forest(
                f,
                |i, _| Tree {
                    name: ["VEVENT", "VTODO", "X-G"][label(i)].into(),
                    props: match label(i) {
                        0 => vec![],
                        1 => vec![tp("SUMMARY", &[("K", None), ("L", Some("a:b"))], "é,\n")],
                        _ => vec![tp("X", &[], ""), tp("Y", &[("A", Some("x"))], "v")],
                    },
                    kids: vec![],
                },
                |p, c| p.kids.push(c),
            );
            one_tree(&trees, st)
        },
    );
    // single properties: everything in the catalogue
    let cat = catalogue();
    run.cases("parsed properties", "every property of the catalogue, alone and in a tree x all faults", cat.len(), |i, st| {
        let p = raw_tprop(&cat[i]);
        let what = format!("{:?}", cat[i]);
        faults(&what, &display(&p), st)?;
        io_faults(&what, &p, p.to_string().len(), st)?;
        let c = ip::Calendar { properties: vec![p.clone(), p.clone()], components: vec![] };
        faults(&what, &display(&c), st)?;
        one_tree(&[Tree { name: "VEVENT".into(), props: vec![cat[i].clone()], kids: vec![] }], st)
    });
    // long lines: folding
    let max = run.q(240, 700);
    let chars = ['x', 'é', '€', '😀', ' ', '\\', '\n'];
    run.cases(
        "long lines",
        &format!("lines of 0..{max} characters of 7 sorts, as value, parameter and name x all faults"),
        max * chars.len(),
        |i, st| {
            let (len, ch) = (i / chars.len(), chars[i % chars.len()]);
            let s: String = std::iter::repeat_n(ch, len).collect();
            let mut c = stamped("VEVENT");
            c.set(MProp::new("SUMMARY", &s));
            one_component(&c, st)?;
            let mut t = Tree { name: "X".into(), props: vec![tp("SUMMARY", &[], &s)], kids: vec![] };
            if ch != '\n' && ch != '\\' && ch != ' ' {
                t.props.push(tp(&s.replace('€', "e"), &[("K", Some(&s))], ""));
                t.name = format!("X{s}");
                let mut m = stamped(&t.name);
                m.set(MProp::new("X", "").with("P", &s));
                one_component(&m, st)?;
            }
            one_tree(&[t], st)
        },
    );
    // documents
    let a = Alphabet::new(
        &["VCALENDAR", "VEVENT"],
        vec![tp("SUMMARY", &[("K", None)], "a,b\n"), tp("X-R", &[("K", Some("a:b"))], ""), tp("UID", &[], "u")],
    );
    let n = run.q(6, 7);
    let words = a.words(n);
    run.cases(
        "documents",
        &format!("all documents of <= {n} lines over 2 names and 3 properties, read and written again x all faults"),
        words.len(),
        |i, st| {
            let (lines, trees) = a.render(&words[i]);
            let text = join(&lines, "\r\n");
            let cal = match ip::read_calendar(&text) {
                Ok(c) => c,
                Err(e) => return fail("well-formed document rejected", e),
            };
            faults(&text, &display(&cal), st)?;
            let typed = Calendar::from(cal);
            faults(&text, &display(&typed), st)?;
            one_tree(&trees, st)
        },
    );
    // large objects, where every octet is too much: faults after 2^k octets and near the end
    big::stage(run, true, 2, |t, st| {
        let m = big::big_cal(t);
        let c = calendar(&m);
        let raw = ip::Calendar { properties: t.props.iter().map(raw_tprop).collect(), components: t.kids.iter().map(raw_tree).collect() };
        for (what, way) in [("built", display(&c)), ("parsed", display(&raw))] {
            let mut s = Sink::new(Fault::None);
            ensure!(way(&mut s).is_ok(), "error without a failing write", what);
            let (full, writes) = (s.got, s.writes);
            let mut list = vec![];
            for n in sizes(0, writes).into_iter().chain(writes.saturating_sub(3)..writes).filter(|n| *n < writes) {
                list.push(Fault::From(n));
                list.push(Fault::Only(n));
            }
            for k in sizes(0, full.len()).into_iter().chain(full.len().saturating_sub(3)..full.len()) {
                list.push(Fault::Room(k));
                list.push(Fault::Torn(k));
            }
            for f in list {
                let mut s = Sink::new(f);
                let r = way(&mut s);
                st.step();
                if s.failed {
                    ensure!(r.is_err(), "a failing destination is reported as success", format!("{what} {f:?} of {} octets", full.len()));
                    ensure!(full.starts_with(&s.got[..s.before]), "what was received before the failure is no prefix", format!("{what} {f:?}"));
                } else {
                    ensure!(r.is_ok() && s.got == full, "incomplete output", format!("{what} {f:?}"));
                }
            }
            st.state(&full);
        }
        Ok(())
    });
}
