//! C23: all reading entry points agree on the same text.
use super::c06::sample_docs;
use super::gen::*;
use super::*;

fn trees(c: &[ip::Component]) -> Vec<Tree> {
    c.iter().map(tree).collect()
}
/// everything that reads documents, on one text as it is
fn raw(text: &str, st: &mut Stats) -> Result<Option<Vec<Tree>>, Fail> {
    let all = ip::read_components(text).ok();
    let roots = all.as_ref().map(|c| trees(c));
    let simple = ip::read_calendar_simple(text).ok().map(|c| trees(&c));
    same!("read_calendar_simple and read_components", clip(text), roots, simple);
    // the calendar reader
    let cal = ip::read_calendar(text).ok();
    same!("acceptance by read_calendar and read_components", clip(text), roots.is_some(), cal.is_some());
    if let (Some(roots), Some(cal)) = (&roots, &cal) {
        let want = match roots.first() {
            Some(r) if r.name == "VCALENDAR" => r.clone(),
            _ => Tree { name: "VCALENDAR".into(), props: vec![], kids: roots.clone() },
        };
        same!("read_calendar and read_components", clip(text), want, tree_of_cal(cal));
    }
    // the component reader stops behind the first component
    let first = ip::Component::try_from(text).ok().map(|c| tree(&c));
    match (&roots, &first) {
        (Some(r), f) => same!("first component", clip(text), r.first(), f.as_ref()),
        (None, Some(f)) => {
            // what follows the first component is to blame: it is accepted alone
            let alone = spelled(f);
            same!("first component alone", format!("{} | {alone:?}", clip(text)), Some(vec![f.clone()]), ip::read_components(&alone).ok().map(|c| trees(&c)));
        }
        (None, None) => {}
    }
    st.steps(4);
    Ok(roots)
}
fn spelled(t: &Tree) -> String {
    raw_tree(t).pipe(|c| ip::Calendar { properties: vec![], components: vec![c] }.to_string()).pipe(|s| {
        // (unfolded, without the lines of the calendar around it)
        let s = ip::unfold(&s);
        s.strip_prefix("BEGIN:VCALENDAR\r\n").and_then(|s| s.strip_suffix("END:VCALENDAR\r\n")).unwrap_or("").to_string()
    })
}
trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}

/// typed and untyped readers, on the text and on the unfolded text
pub fn agree(text: &str, st: &mut Stats) -> R {
    let unf = ip::unfold(text);
    if unf != text {
        raw(text, st)?;
    }
    let roots = raw(&unf, st)?;
    // a typed calendar
    let parsed = text.parse::<Calendar>().ok();
    same!("acceptance by str::parse and the readers", clip(text), roots.is_some(), parsed.is_some());
    if let (Some(c), Some(roots)) = (&parsed, &roots) {
        let conv: Calendar = match ip::read_calendar(&unf) {
            Ok(r) => r.into(),
            Err(e) => return fail("unstable", e),
        };
        ensure!(*c == conv, "str::parse differs from unfolding, reading and converting", clip(text));
        let m = mcal(c)?;
        let (props, kids): (&[TProp], &[Tree]) = match roots.first() {
            Some(r) if r.name == "VCALENDAR" => (&r.props, &r.kids),
            _ => (&[], roots),
        };
        same!("properties of the parsed calendar", clip(text), props.iter().map(typed_prop).collect::<Vec<_>>(), m.props);
        same!("components of the parsed calendar", clip(text), kids.iter().map(typed).collect::<Vec<_>>(), m.comps);
        if let Ok(list) = ip::read_components(&unf) {
            let of_list = Calendar::from(list);
            if roots.first().is_some_and(|r| r.name == "VCALENDAR") {
                ensure!(*c == of_list, "converting a list of roots differs from str::parse", clip(text));
            } else {
                // (without a calendar to take them from, the properties are those of no roots at all)
                let l = mcal(&of_list)?;
                same!("components of a converted list of roots", clip(text), m.comps, l.comps);
                same!("properties of a converted list of roots", clip(text), mcal(&Calendar::from(Vec::<ip::Component>::new()))?.props, l.props);
            }
        }
    }
    // a typed component
    let typed_c = text.parse::<CalendarComponent>().ok();
    let conv = ip::Component::try_from(unf.as_str()).ok().map(CalendarComponent::from);
    ensure!(typed_c == conv, "a component parsed differs from unfolding, reading and converting", format!("{:?}\n{typed_c:?}\n{conv:?}", clip(text)));
    if let Some(roots) = &roots {
        same!("first component, typed", clip(text), roots.first().map(typed), typed_c.map(|c| mcomp_cc(&c).1));
    }
    st.steps(3);
    st.state(&roots);
    st.note(|| format!("{text:?} -> {}", if roots.is_some() { "read" } else { "rejected" }));
    Ok(())
}
/// a property line alone and in documents; `well_formed`: no way out
fn property(line: &str, well_formed: bool, st: &mut Stats) -> R {
    let alone = ip::Property::try_from(line).ok().map(|p| tprop(&p));
    let typed_alone = line.parse::<Property>().ok().map(|p| mprop(&p));
    same!("typed and untyped property", line, alone.as_ref().map(typed_prop), typed_alone);
    if well_formed {
        ensure!(alone.is_some(), "well-formed property rejected", line);
    }
    for nl in ["\n", "\r\n"] {
        let ended = ip::Property::try_from(format!("{line}{nl}").as_str()).ok().map(|p| tprop(&p));
        if well_formed {
            same!("property with its line ending", line, alone, ended);
        }
        for (n, doc, nth) in [
            (0, format!("BEGIN:A{nl}{line}{nl}END:A{nl}"), 0),
            (1, format!("BEGIN:VCALENDAR{nl}X:1{nl}{line}{nl}BEGIN:A{nl}END:A{nl}END:VCALENDAR{nl}"), 1),
            (2, format!("BEGIN:A{nl}BEGIN:B{nl}END:B{nl}{line}{nl}END:A"), 0),
        ] {
            let got = ip::read_components(&doc).ok();
            match (&alone, got.as_ref().map(|c| c[0].properties.get(nth).map(tprop))) {
                (Some(p), Some(Some(q))) => same!("property alone and in a document", format!("{line:?} in document {n}"), *p, q),
                (Some(_), _) if well_formed => return fail("well-formed property not in the document", doc),
                (None, Some(Some(q))) => return fail("property rejected alone, but read in a document", format!("{line:?} in document {n}: {q:?}")),
                _ => {}
            }
            if well_formed {
                let cal = doc.parse::<Calendar>().ok();
                let got = match n {
                    1 => cal.and_then(|c| c.properties.get(1).map(mprop)),
                    _ => cal.and_then(|c| {
                        let (_, m) = mcomp_cc(&c.components[0]);
                        m.props.values().chain(m.multi.values().flatten()).next().cloned()
                    }),
                };
                same!("typed property alone and in a document", doc, typed_alone_of(line), got);
                same!("number of properties", doc, nth + 1, tree(&ip::read_components(&doc).unwrap()[0]).props.len());
            }
            st.step();
        }
    }
    st.state(&alone);
    st.note(|| format!("{line:?} -> {alone:?}"));
    Ok(())
}
fn typed_alone_of(line: &str) -> Option<MProp> {
    line.parse::<Property>().ok().map(|p| mprop(&p))
}
/// a parameter alone and in property lines
fn parameter(text: &str, well_formed: bool, st: &mut Stats) -> R {
    let show = |p: &ip::Parameter| (p.key.as_str().to_string(), p.val.as_ref().map(|v| v.as_str().to_string()));
    let alone = ip::Parameter::try_from(text).ok().map(|p| show(&p));
    if well_formed {
        ensure!(alone.is_some(), "well-formed parameter rejected", text);
    }
    for (n, before, after) in [(0, "X", ":v"), (1, "SUMMARY;A=1", ":v"), (2, "ATTENDEE", ";B=2:v:w"), (3, "X-Y;Q=\"a:b\"", ";R:v")] {
        let line = format!("{before}{text}{after}");
        let nth = before.matches(';').count();
        let got = ip::Property::try_from(line.as_str()).ok().map(|p| p.params.get(nth).map(show));
        match (&alone, got) {
            (Some(p), Some(Some(q))) => same!("parameter alone and in a property", line, *p, q),
            (Some(_), _) if well_formed => return fail("well-formed parameter not in the property", line),
            // the next parameter may have taken its place
            (None, Some(Some(q))) => ensure!(n >= 2, "parameter rejected alone, but read in a property", format!("{line:?}: {q:?}")),
            _ => {}
        }
        st.step();
    }
    st.state(&alone);
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("a component read on its own is the first one of the text; what follows it is not looked at");
    // texts
    let toks = [
        "BEGIN:", "END:", "VCALENDAR", "A", "\n", "\r\n", ":", ";", "=", "\"", " ", "P:1\n", "BEGIN:A\n", "END:A\n", "BEGIN:VCALENDAR\n", "END:VCALENDAR\n",
    ];
    let k = run.q(5, 6);
    run.cases("texts", &format!("all texts of <= {k} of {} tokens", toks.len()), words_upto(toks.len(), k), |i, st| agree(&spell(i, &toks), st));
    // lines
    let lines = ["BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:VEVENT", "END:VEVENT", "begin:X", "End:X", "ATTENDEE;K:a", "SUMMARY:s\\n", " c", ""];
    let k = run.q(5, 7);
    run.cases("lines", &format!("all sequences of <= {k} of 10 lines, LF, CRLF and mixed"), words_upto(10, k) * 3, |i, st| {
        let ls: Vec<String> = word(i / 3, 10).into_iter().map(|x| lines[x].to_string()).collect();
        agree(&join(&ls, ["\n", "\r\n", ""][i % 3]), st)
    });
    // properly nested documents and all roots
    let a = Alphabet::new(&["VCALENDAR", "VEVENT", "X"], vec![tp("COMMENT", &[("K", None)], "a,\nb"), tp("URL", &[], "x\\n")]);
    let words = a.words(run.q(8, 10));
    run.cases("nested documents", &format!("all {} properly nested documents of <= {} lines over 3 names and 2 properties", words.len(), run.q(8, 10)), words.len(), |i, st| {
        let (ls, want) = a.render(&words[i]);
        let text = join(&ls, ["\n", "\r\n", ""][i % 3]);
        same!("trees", text, want, trees_of(&text)?);
        agree(&text, st)
    });
    // which first roots are calendars
    let mut roots: Vec<String> = c12::edits("VCALENDAR", &['X', '-', 'V', 'S', '.', '0', 'é']);
    roots.extend(gen::VOCABULARY.iter().map(|s| s.to_string()));
    roots.extend(["ICALENDAR", "X-VCALENDAR", "VCALENDAR-X", "XCALENDAR", "Vcalendar", "vCALENDAR", "VCAL", "AVCALENDAR", "VCALENDARVCALENDAR", "V", "R"].map(String::from));
    roots.sort();
    roots.dedup();
    roots.retain(|r| !r.is_empty());
    run.cases("names of the first root", &format!("{} names near VCALENDAR and in use for the first root, alone, with one more and before VCALENDAR, with and without content", roots.len()), roots.len() * 6, |i, st| {
        let mut d = Dec(i);
        let more = ["", "BEGIN:VEVENT\nEND:VEVENT\n", "BEGIN:VCALENDAR\nX:1\nBEGIN:A\nEND:A\nEND:VCALENDAR\n"][d.n(3)];
        let content = if d.bool() { "X-A:1\nBEGIN:VTODO\nSUMMARY:s\nEND:VTODO\n" } else { "" };
        let n = &roots[d.0];
        agree(&format!("BEGIN:{n}\n{content}END:{n}\n{more}"), st)
    });
    let vocab = gen::names_in_use();
    run.cases("names in use", &format!("{} names, each as the name of components, properties and parameters with and without value; the lines of that document swapped pairwise", vocab.len()), vocab.len(), |i, st| {
        let t = gen::in_use(&vocab[i]);
        let mut lines = vec![];
        spell_tree(&t, &mut lines);
        agree(&join(&lines, ["\n", "\r\n", ""][i % 3]), st)?;
        for k in 1..lines.len() {
            let mut l = lines.clone();
            l.swap(k - 1, k);
            agree(&join(&l, "\n"), st)?;
        }
        Ok(())
    });
    // edited documents
    let docs: Vec<String> = sample_docs().iter().flat_map(|d| [join(d, "\n"), join(d, "\r\n")]).collect();
    let ins = ["", "\n", "\r\n", "\r", " ", "\n ", ":", ";", "\"", "\\", "BEGIN:A\n", "END:A\n", "é", "\u{0}", "=", "\t"];
    let offs: Vec<usize> = docs
        .iter()
        .scan(0, |a, d| {
            *a += d.chars().count() + 1;
            Some(*a)
        })
        .collect();
    run.cases("edited documents", &format!("{} documents: at every position cut, a character deleted or replaced by one of 16 texts, or one inserted", docs.len()), offs.last().unwrap() * 33, |i, st| {
        let mut d = Dec(i);
        let e = d.n(33);
        let n = offs.iter().position(|o| d.0 < *o).unwrap();
        let at = d.0 - if n > 0 { offs[n - 1] } else { 0 };
        let cs: Vec<char> = docs[n].chars().collect();
        let head: String = cs[..at].iter().collect();
        let text = match e {
            0 => head,
            1..=16 => head + ins[e - 1] + &cs[at..].iter().collect::<String>(),
            _ => head + ins[e - 17] + &cs[(at + 1).min(cs.len())..].iter().collect::<String>(),
        };
        agree(&text, st)
    });
    // characters that are easily taken for nothing
    let mut odd: Vec<String> = big::special().iter().map(|s| s.to_string()).collect();
    let top = run.q(0x100, SCALARS);
    odd.extend((0..top).map(|c| scalar(c).to_string()));
    odd.extend(["\u{feff}", "\u{200b}", "\u{2028}", "\u{3000}", "\u{2060}", "\u{180e}"].map(String::from));
    let spots = ["^BEGIN:A\nP:1\nEND:A\n", "BEGIN:A\n^P:1\nEND:A\n", "BEGIN:A\nP:1\n^END:A\n", "BEGIN:A\nP:1\nEND:A^\n", "BEGIN:A\nP:1\nEND:A\n^", "BEGIN:A\nP:1\nEND:A\n^BEGIN:B\nEND:B\n", "BEGIN:A^\nP:1\nEND:A^\n", "BEGIN:^A\nP:1\nEND:^A\n"];
    run.cases("odd characters", &format!("{} special texts and the first {top} Unicode scalar values at {} places of a document, LF and CRLF", odd.len() - top, spots.len()), odd.len() * spots.len() * 2, |i, st| {
        let mut d = Dec(i);
        let (nl, spot) = (d.of(&["\n", "\r\n"]), d.of(&spots));
        agree(&spot.replace('\n', nl).replace('^', &odd[d.0]), st)
    });
    // properties
    let cat = catalogue();
    run.cases("well-formed properties", &format!("{} property lines alone and in 3 documents, LF and CRLF", cat.len()), cat.len(), |i, st| property(&spell_prop(&cat[i]), true, st));
    let ptoks = ["X", "SUMMARY", ";", "K", "=", "\"", ":", "v", ",", " ", "\\", "VALUE=DATE", "END", "BEGIN", "é", "\t"];
    let k = run.q(5, 6);
    run.cases("property lines", &format!("all lines of <= {k} of 16 tokens alone and in 3 documents"), words_upto(16, k), |i, st| {
        let l = spell(i, &ptoks);
        // blank lines and lines that open or close components are no properties
        let up = l.to_uppercase();
        if l.trim().is_empty() || up.starts_with("BEGIN:") || up.starts_with("END:") || l.starts_with([' ', '\t']) {
            return Ok(());
        }
        property(&l, false, st)
    });
    // parameters
    let keys = ["K", "VALUE", "TZID", "X-LONG-NAME", "k.1"];
    let vals: Vec<String> = ["", "v", "a b", "a=b", "é😀", "x/y@z", "'", "a\\nb"].iter().map(|s| format!("={s}")).chain(["=\"\"", "=\"a:b;c,d\"", "=\"v\"", ""].iter().map(|s| s.to_string())).collect();
    run.cases("well-formed parameters", "5 names x 12 spellings of values, alone and in 4 properties", 60, |i, st| parameter(&format!(";{}{}", keys[i % 5], vals[i / 5]), true, st));
    let qtoks = [";", "K", "=", "\"", "v", ":", ",", " ", "é", "\\"];
    let k = run.q(6, 7);
    run.cases("parameter texts", &format!("all texts of ; and <= {k} of 10 tokens, alone and in 4 properties"), words_upto(10, k), |i, st| parameter(&format!(";{}", spell(i, &qtoks)), false, st));
    big::stage(run, false, 2, |t, st| {
        let lf = big::text(t, "\n");
        agree(&lf, st)?;
        agree(&big::text(t, "\r\n"), st)?;
        // and without its last line
        agree(lf.strip_suffix("END:VCALENDAR\n").unwrap_or(&lf), st)
    });
}
