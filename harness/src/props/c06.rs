//! C06: ill-nested or truncated documents are rejected by every document reader.
use super::gen::*;
use super::*;

/// what the model says about a sequence of lines
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Verdict {
    /// no component at all and nothing else
    Blank,
    Trees(Vec<Tree>),
    Reject,
    /// something other than a component comes first: documented finding
    JunkFirst,
}
pub enum L {
    Begin(String),
    End(String),
    Prop(TProp),
    Blank,
}
/// a pushdown automaton over lines
pub fn judge(lines: &[L]) -> Verdict {
    let mut stack: Vec<Tree> = vec![];
    let mut roots = vec![];
    let mut any = false;
    for l in lines {
        let first = !any && stack.is_empty();
        match l {
            L::Blank => continue,
            L::Begin(n) => stack.push(Tree { name: n.clone(), props: vec![], kids: vec![] }),
            L::End(n) => match stack.pop() {
                Some(c) if c.name == *n => match stack.last_mut() {
                    Some(p) => p.kids.push(c),
                    None => roots.push(c),
                },
                Some(_) => return Verdict::Reject,
                None if first => return Verdict::JunkFirst,
                None => return Verdict::Reject,
            },
            L::Prop(p) => match stack.last_mut() {
                Some(c) => c.props.push(p.clone()),
                None if first => return Verdict::JunkFirst,
                None => return Verdict::Reject,
            },
        }
        any = true;
    }
    if !stack.is_empty() {
        return Verdict::Reject;
    }
    if roots.is_empty() {
        Verdict::Blank
    } else {
        Verdict::Trees(roots)
    }
}
/// all document readers on one text: None rejected, else the roots
pub fn readers(text: &str) -> Vec<(&'static str, Option<Vec<Tree>>)> {
    let unf = ip::unfold(text);
    vec![
        ("read_components", ip::read_components(&unf).ok().map(|c| c.iter().map(tree).collect())),
        ("read_calendar_simple", ip::read_calendar_simple(&unf).ok().map(|c| c.iter().map(tree).collect())),
        (
            "read_calendar",
            ip::read_calendar(&unf).ok().map(|c| {
                let mut v = vec![];
                if !c.properties.is_empty() || !c.components.is_empty() {
                    v.push(tree_of_cal(&c))
                }
                v
            }),
        ),
        ("str::parse", text.parse::<Calendar>().ok().map(|_| vec![])),
    ]
}
/// compares every reader with the verdict
pub fn check(text: &str, v: &Verdict, st: &mut Stats) -> R {
    st.state(v);
    let rs = readers(text);
    for (who, r) in &rs {
        st.step();
        let exact = *who == "read_components" || *who == "read_calendar_simple";
        match (v, r) {
            (Verdict::Reject, None) => {}
            (Verdict::Blank, Some(t)) if t.is_empty() => {}
            (Verdict::Trees(_), Some(_)) if !exact => {}
            (Verdict::Trees(e), Some(t)) if e == t => {}
            (Verdict::JunkFirst, None) => {}
            (Verdict::JunkFirst, Some(t)) if t.is_empty() && rs.iter().all(|(_, r)| r.as_ref().is_some_and(|t| t.is_empty())) => {
                return known("KF-ROOT-JUNK", "a document whose first line opens no component is read as an empty calendar", format!("{who}: {:?}", clip(text)))
            }
            (Verdict::Reject | Verdict::JunkFirst, Some(t)) => {
                return fail("ill-nested document accepted", format!("{who}: {:?} read as {t:?}", clip(text)))
            }
            _ => return fail("wrong result for a document", format!("{who}: {:?}\nexpected {v:?}\ngot {r:?}", clip(text))),
        }
    }
    st.note(|| format!("{text:?} -> {v:?}"));
    Ok(())
}
fn render(ls: &[L], nl: &str) -> String {
    let mut s = String::new();
    for l in ls {
        match l {
            L::Begin(n) => s.push_str(&format!("BEGIN:{n}")),
            L::End(n) => s.push_str(&format!("END:{n}")),
            L::Prop(p) => s.push_str(&spell_prop(p)),
            L::Blank => {}
        }
        // "": LF and CRLF in turns
        match nl {
            "" => s.push_str(["\n", "\r\n"][s.len() % 2]),
            nl => s.push_str(nl),
        }
    }
    s
}

pub fn run(run: &Run) {
    run.assume("a document starting with something else than BEGIN:<name> is a known finding");
    let names = ["A", "AB", "B"];
    let tok = |t: usize| match t {
        0..=2 => L::Begin(names[t].into()),
        3..=5 => L::End(names[t - 3].into()),
        6 => L::Prop(tp("P", &[], "v")),
        _ => L::Blank,
    };
    let k = run.q(6, 7);
    run.cases(
        "line sequences",
        &format!("all sequences of <= {k} lines over BEGIN and END of A, AB, B, a property and a blank line, LF, CRLF and both mixed, with and without final line ending"),
        words_upto(8, k) * 4,
        |i, st| {
            let mut d = Dec(i);
            let shape = d.n(4);
            let ls: Vec<L> = word(d.0, 8).into_iter().map(tok).collect();
            let v = judge(&ls);
            let mut text = render(&ls, ["\n", "\r\n", "\n", ""][shape]);
            if shape == 2 {
                text.pop();
            }
            check(&text, &v, st)
        },
    );
    // end names: prefixes, extensions, case, white space
    let base = ["VEVENT", "A", "X-AB", "a1"];
    let var: Vec<Box<dyn Fn(&str) -> String + Sync>> = vec![
        Box::new(|n| n.to_string()),
        Box::new(|n| n[..n.len() - 1].to_string()),
        Box::new(|n| format!("{n}X")),
        Box::new(|n| format!("{n}-")),
        Box::new(|n| format!("{n}{n}")),
        Box::new(|n| format!("X{n}")),
        Box::new(|n| n[1..].to_string()),
        Box::new(|_| String::new()),
        Box::new(|_| "VCALENDAR".to_string()),
        Box::new(|n| format!("{n}é")),
        Box::new(|n| format!("{n}.{n}")),
        Box::new(|n| format!("{n}_")),
        Box::new(|n| format!("{n}/1")),
        Box::new(|n| format!("{n},")),
        // white space in front belongs to the name, if it is read at all
        Box::new(|n| format!(" {n}")),
        Box::new(|n| format!("\t{n}")),
        Box::new(|n| format!("\"{n}\"")),
        // a name in another case is another name
        Box::new(|n| n.to_lowercase()),
        Box::new(|n| n.to_uppercase()),
        Box::new(|n| n[..1].to_lowercase() + &n[1..].to_uppercase()),
        Box::new(|n| format!("{}{}", &n[..n.len() - 1], n[n.len() - 1..].to_lowercase())),
    ];
    let vn = var.len();
    run.cases("END names", "4 names x 21 variants in BEGIN x 21 in END (prefixes, extensions, other case) x 3 enclosing levels x content after", 4 * vn * vn * 3 * 2, |i, st| {
        let mut d = Dec(i);
        let after = d.bool();
        let lev = d.n(3);
        let n = base[d.n(4)];
        let (b, e) = (var[d.n(vn)](n), var[d.n(vn)](n));
        if b.is_empty() || b.starts_with([' ', '\t', '"']) {
            return Ok(()); // a BEGIN without a name opens no component
        }
        let mut ls = vec![];
        for _ in 0..lev {
            ls.push(L::Begin("OUTER".into()));
        }
        ls.push(L::Begin(b));
        ls.push(L::Prop(tp("P", &[], "v")));
        ls.push(L::End(e));
        if after {
            ls.push(L::Begin("Z".into()));
            ls.push(L::End("Z".into()));
        }
        for _ in 0..lev {
            ls.push(L::End("OUTER".into()));
        }
        check(&render(&ls, "\n"), &judge(&ls), st)
    });
    // every cut and every deletion, duplication and swap of lines of whole documents
    let docs: Vec<Vec<String>> = sample_docs();
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for (n, d) in docs.iter().enumerate() {
        for i in 0..=d.len() {
            for op in 0..4 {
                jobs.push((n, op, i));
            }
        }
        for i in 0..d.len() * d.len() {
            jobs.push((n, 4, i));
            jobs.push((n, 5, i));
        }
    }
    run.cases(
        "edited documents",
        &format!("{} documents: cut after, deleted, doubled, inserted END at each line; each pair of lines deleted or swapped; LF and CRLF", docs.len()),
        jobs.len() * 2,
        |i, st| {
            let (n, op, at) = jobs[i / 2];
            let nl = ["\n", "\r\n"][i % 2];
            let mut l = docs[n].clone();
            let m = l.len();
            match op {
                0 => l.truncate(at),
                1 if at < m => {
                    l.remove(at);
                }
                2 if at < m => l.insert(at, l[at].clone()),
                3 => l.insert(at, "END:VEVENT".into()),
                4 if at / m < at % m => {
                    l.remove(at % m);
                    l.remove(at / m);
                }
                5 if at / m < at % m => l.swap(at / m, at % m),
                _ => return Ok(()),
            }
            let ls: Vec<L> = l.iter().map(|s| lex(s)).collect();
            check(&join(&l, nl), &judge(&ls), st)
        },
    );
    // cuts at every character
    let mut cuts = vec![];
    for (n, d) in docs.iter().enumerate() {
        for nl in ["\n", "\r\n"] {
            let t = join(d, nl);
            for (p, _) in t.char_indices() {
                cuts.push((n, nl, p));
            }
        }
    }
    run.cases("cut at every character", &format!("{} documents, LF and CRLF", docs.len()), cuts.len(), |i, st| {
        let (n, nl, p) = cuts[i];
        let t = join(&docs[n], nl);
        let text = &t[..p];
        // with a single root, complete only if the whole last END line is there
        let end = format!("END:{}", docs[n][0].strip_prefix("BEGIN:").unwrap());
        let complete = text.trim_end() == t.trim_end();
        ensure!(t.trim_end().ends_with(&end), "harness", "sample documents have one root");
        for (who, r) in readers(text) {
            st.step();
            if complete {
                ensure!(r.is_some(), "complete document rejected", format!("{who}: {text:?}"));
            } else if let Some(t) = r {
                if text.trim().is_empty() {
                    ensure!(t.is_empty(), "blank text read as something", format!("{text:?}"));
                } else if !text.contains(['\n', '\r']) && (!text.starts_with("BEGIN:") || text == "BEGIN:") {
                    // the beginning of the first line opens no component
                    ensure!(t.is_empty(), "wrong result", format!("{text:?}"));
                    return known("KF-ROOT-JUNK", "a document whose first line opens no component is read as an empty calendar", format!("{text:?}"));
                } else {
                    return fail("truncated document accepted", format!("{who}: {text:?} read as {t:?}"));
                }
            }
        }
        st.state(&(complete, p));
        Ok(())
    });
    // truncation of deep and wide documents
    run.cases("truncated deep and wide documents", "depths and widths 1..=150 and 300, 700: each number of missing ENDs (up to 150) and one excess END", 152 * 152 * 2, |i, st| {
        let mut d = Dec(i);
        let wide = d.bool();
        let n = [150, 300, 700].get(d.n(152).wrapping_sub(149)).copied().unwrap_or(d.0 % 149 + 1);
        let missing = i / 2 / 152 % 152;
        let mut ls: Vec<L> = vec![];
        if wide {
            ls.push(L::Begin("W".into()));
            for _ in 0..n {
                ls.push(L::Begin("A".into()));
                ls.push(L::Prop(tp("P", &[], "v")));
                ls.push(L::End("A".into()));
            }
            ls.push(L::End("W".into()));
        } else {
            (0..n).for_each(|_| ls.push(L::Begin("A".into())));
            (0..n).for_each(|_| ls.push(L::End("A".into())));
        }
        if missing == 151 {
            ls.push(L::End("A".into()))
        } else {
            ls.truncate(ls.len().saturating_sub(missing).max(1))
        }
        check(&render(&ls, "\n"), &judge(&ls), st)
    });
    // text after the last root
    let junk = ["garbage", "P:v", "END:A", "END:B", "BEGIN:", "BEGIN", "END:", ":", ";", "é", "-", "\u{feff}", "BEGIN:A\nEND:B", "BEGIN:A", "x\nBEGIN:A\nEND:A", "\"", "\\", "BEGIN:A\nP:v"];
    let lead = ["", "\n", "\n\n", " ", "\t", "\n \n"];
    run.cases("content after the last root", "18 texts x 6 separators x 1..=3 roots x with and without final line ending x LF/CRLF", 18 * 6 * 3 * 2 * 2, |i, st| {
        let mut d = Dec(i);
        let j = d.of(&junk);
        let l = d.of(&lead);
        let roots = d.n(3) + 1;
        let mut text = format!("{}{l}{j}{}", "BEGIN:A\nQ:1\nEND:A\n".repeat(roots), ["", "\n"][d.n(2)]);
        if d.n(2) == 1 {
            text = text.replace('\n', "\r\n");
        }
        for (who, r) in readers_raw(&text) {
            st.step();
            ensure!(r.is_none(), "content after the last root was ignored", format!("{who}: {text:?} read as {r:?}"));
        }
        st.state(&text);
        Ok(())
    });
    // a first line that opens no component
    run.cases("junk before the first root", "18 texts x with and without a component following", 18 * 2, |i, st| {
        let j = junk[i / 2];
        if j.starts_with("BEGIN:A") {
            return Ok(());
        }
        let text = format!("{j}\n{}", ["", "BEGIN:A\nQ:1\nEND:A\n"][i % 2]);
        st.state(&text);
        let rs = readers_raw(&text);
        st.steps(rs.len() as u64);
        if rs.iter().all(|r| r.1.is_none()) {
            return Ok(());
        }
        if rs.iter().all(|r| r.1.as_ref().is_some_and(|t| t.is_empty())) {
            return known("KF-ROOT-JUNK", "a document whose first line opens no component is read as an empty calendar", text);
        }
        fail("document with junk before the first root", format!("{text:?}: {rs:?}"))
    });
}
/// without unfolding (the text may start lines with white space)
fn readers_raw(text: &str) -> Vec<(&'static str, Option<Vec<Tree>>)> {
    vec![
        ("read_components", ip::read_components(text).ok().map(|c| c.iter().map(tree).collect())),
        ("read_calendar_simple", ip::read_calendar_simple(text).ok().map(|c| c.iter().map(tree).collect())),
        (
            "read_calendar",
            ip::read_calendar(text).ok().map(|c| {
                let t = tree_of_cal(&c);
                if t.props.is_empty() && t.kids.is_empty() {
                    vec![]
                } else {
                    vec![t]
                }
            }),
        ),
    ]
}
pub fn lex(s: &str) -> L {
    if let Some(n) = s.strip_prefix("BEGIN:") {
        L::Begin(n.into())
    } else if let Some(n) = s.strip_prefix("END:") {
        L::End(n.into())
    } else if s.is_empty() {
        L::Blank
    } else {
        let l = read_line(s).expect("sample line");
        let vt = l.params.iter().find(|p| p.0 == "VALUE").map(|p| p.1.clone());
        let val = if type_of(&l.name, vt.as_deref()) == Some("TEXT") { unesc(&l.raw) } else { l.raw };
        L::Prop(TProp { name: l.name, params: l.params.into_iter().map(|(k, v)| (k, Some(v))).collect(), val })
    }
}
pub fn sample_docs() -> Vec<Vec<String>> {
    let t = |s: &str| s.split('|').map(|x| x.to_string()).collect::<Vec<_>>();
    vec![
        t("BEGIN:VCALENDAR|VERSION:2.0|PRODID:-//x//y|BEGIN:VEVENT|UID:1|SUMMARY:END:VEVENT|ATTENDEE;CN=\"BEGIN:A\":mailto:x|BEGIN:VALARM|ACTION:AUDIO|TRIGGER:-PT1H|END:VALARM|END:VEVENT|BEGIN:VTODO|UID:2|END:VTODO|END:VCALENDAR"),
        t("BEGIN:VCALENDAR|BEGIN:VTIMEZONE|TZID:A|BEGIN:STANDARD|TZOFFSETTO:+0100|END:STANDARD|BEGIN:DAYLIGHT|TZOFFSETTO:+0200|END:DAYLIGHT|END:VTIMEZONE|BEGIN:VEVENT|END:VEVENT|BEGIN:VEVENT|END:VEVENT|X-LATE:1|END:VCALENDAR"),
        t("BEGIN:VEVENT|BEGIN:VEVENT|BEGIN:VEVENT|END:VEVENT|ENDTIME:1|END:VEVENT|BEGINTIME:2|END:VEVENT"),
        t("BEGIN:A|BEGIN:AB|BEGIN:ABC|P:v|END:ABC|END:AB|BEGIN:AB|END:AB|END:A"),
        t("BEGIN:X"). into_iter().chain((0..12).flat_map(|k| vec![format!("BEGIN:L{k}"), format!("N:{k}")])).chain((0..12).rev().map(|k| format!("END:L{k}"))).chain(["END:X".to_string()]).collect(),
    ]
}
