//! C20: layout does not matter: folding, line endings, blank lines, keyword case.
use super::gen::*;
use super::*;

/// every document reader on a text in any layout, against the roots the document spells
pub fn check(text: &str, roots: &[Tree], st: &mut Stats) -> R {
    let unf = ip::unfold(text);
    let bad = |who: &str, e: String| -> R { fail(format!("{who} rejects the layout"), format!("{:?}\n{e}", clip(text))) };
    let what = || format!("{:?}", clip(text));
    match ip::read_components(&unf) {
        Ok(c) => same!("read_components", what(), roots, &c.iter().map(tree).collect::<Vec<_>>()[..]),
        Err(e) => return bad("read_components", e),
    }
    match ip::read_calendar_simple(&unf) {
        Ok(c) => same!("read_calendar_simple", what(), roots, &c.iter().map(tree).collect::<Vec<_>>()[..]),
        Err(e) => return bad("read_calendar_simple", e.to_string()),
    }
    let (props, comps) = match roots.first() {
        Some(r) if r.name == "VCALENDAR" => (&r.props[..], &r.kids[..]),
        _ => (&[][..], roots),
    };
    match ip::read_calendar(&unf) {
        Ok(c) => same!("read_calendar", what(), (props, comps), { let t = tree_of_cal(&c); (&t.props.clone()[..], &t.kids.clone()[..]) }),
        Err(e) => return bad("read_calendar", e),
    }
    match text.parse::<Calendar>() {
        Ok(c) => {
            let m = mcal(&c)?;
            same!("parse: properties", what(), props.iter().map(typed_prop).collect::<Vec<_>>(), m.props);
            same!("parse: components", what(), comps.iter().map(typed).collect::<Vec<_>>(), m.comps);
        }
        Err(e) => return bad("str::parse", e),
    }
    if let [one] = roots {
        match text.parse::<CalendarComponent>() {
            Ok(c) => same!("parse a component", what(), typed(one), mcomp_cc(&c).1),
            Err(e) => return bad("parse a component", e),
        }
    }
    st.steps(5);
    st.state(&text);
    Ok(())
}
struct Doc {
    lines: Vec<String>,
    roots: Vec<Tree>,
}
fn doc(roots: Vec<Tree>) -> Doc {
    let mut lines = vec![];
    roots.iter().for_each(|t| spell_tree(t, &mut lines));
    Doc { lines, roots }
}
fn docs() -> Vec<Doc> {
    let t = |name: &str, props: Vec<TProp>, kids: Vec<Tree>| Tree { name: name.into(), props, kids };
    let alarm = t("VALARM", vec![tp("TRIGGER", &[("RELATED", Some("END"))], "-PT15M"), tp("ACTION", &[], "DISPLAY"), tp("DESCRIPTION", &[], "x\ny")], vec![]);
    vec![
        doc(vec![t(
            "VCALENDAR",
            vec![tp("VERSION", &[], "2.0"), tp("X-E", &[], "")],
            vec![
                t(
                    "VEVENT",
                    vec![
                        tp("SUMMARY", &[("LANGUAGE", Some("en")), ("X", None)], "a\\, b;\n\\n  é😀\u{301} "),
                        tp("ATTENDEE", &[("CN", Some("A: B;C")), ("E", Some(" "))], "mailto:x@y"),
                        tp("X-RAW", &[], "\\\\ \\, \t\t end "),
                    ],
                    vec![alarm.clone()],
                ),
                t("VTODO", vec![], vec![]),
            ],
        )]),
        doc(vec![
            t("VEVENT", vec![tp("ENDPOINT", &[], "END:VEVENT"), tp("BEGINX", &[("BEGIN", Some("END:X"))], "BEGIN:X")], vec![]),
            t("X-Y", vec![tp("DESCRIPTION", &[], &"long text, ".repeat(12)), tp("K", &[("P", Some("\t v\t"))], "")], vec![alarm]),
        ]),
    ]
}
const BREAKS: [&str; 4] = ["\r\n ", "\n ", "\r\n\t", "\n\t"];

pub fn run(run: &Run) {
    run.assume("white space at the beginning of a line continues the line before, so blank lines are empty ones");
    let alpha = ["a", " ", "\t", "\r", "\n", "\\", "é"];
    let n = run.q(7, 9);
    run.cases("unfolding", &format!("all texts of <= {n} of 7 characters"), words_upto(7, n), |i, st| {
        let s = spell(i, &alpha);
        let u = ip::unfold(&s);
        same!("unfolded", format!("{s:?}"), unfold_ref(&s), u);
        st.step();
        st.state(&u);
        Ok(())
    });
    run.cases("unfolding every character", "every Unicode scalar value before, after and instead of the white space of a fold", SCALARS, |i, st| {
        let c = scalar(i);
        for s in [format!("{c}\r\n {c}"), format!("a\n\t{c}"), format!("a\r\n{c}b\n{c}"), format!("{c}\n {c}\r\n\t{c}\n"), format!("\n {c} \r\n"), format!("a\r{c}\n b")] {
            same!("unfolded", format!("{s:?}"), unfold_ref(&s), ip::unfold(&s));
            st.step();
        }
        Ok(())
    });
    let docs = docs();
    // one fold, two folds, everywhere
    let text = |d: &Doc, nl: &str| join(&d.lines, nl);
    let mut single = vec![];
    for (k, d) in docs.iter().enumerate() {
        for nl in ["\r\n", "\n"] {
            let t = text(d, nl);
            let cuts: Vec<usize> = t.char_indices().map(|c| c.0).filter(|p| !t[..*p].ends_with('\r')).collect();
            for p in cuts {
                for b in 0..4 {
                    single.push((k, nl, p, b));
                }
            }
        }
    }
    run.cases("one fold", "2 documents in CRLF and LF: 4 kinds of fold at every position, once and twice in place", single.len(), |i, st| {
        let (k, nl, p, b) = single[i];
        let t = text(&docs[k], nl);
        check(&format!("{}{}{}", &t[..p], BREAKS[b], &t[p..]), &docs[k].roots, st)?;
        check(&format!("{}{}{}{}", &t[..p], BREAKS[b], BREAKS[i % 4], &t[p..]), &docs[k].roots, st)
    });
    let mut pairs = vec![];
    for (k, d) in docs.iter().enumerate() {
        let t = text(d, "\r\n");
        let cuts: Vec<usize> = t.char_indices().map(|c| c.0).filter(|p| !t[..*p].ends_with('\r')).collect();
        for (a, p) in cuts.iter().enumerate() {
            for (z, q) in cuts[a..].iter().enumerate() {
                // quick: pairs up to 40 characters apart, thorough: all pairs
                if z <= run.q(40, usize::MAX) {
                    pairs.push((k, *p, *q));
                }
            }
        }
    }
    run.cases("two folds", &format!("2 documents: folds at every pair of positions ({})", run.q("up to 40 characters apart", "all pairs")), pairs.len(), |i, st| {
        let (k, p, q) = pairs[i];
        let t = text(&docs[k], "\r\n");
        let (b, c) = (BREAKS[i % 4], BREAKS[i / 4 % 4]);
        check(&format!("{}{b}{}{c}{}", &t[..p], &t[p..q], &t[q..]), &docs[k].roots, st)
    });
    // refolded at a fixed width, in characters
    run.cases("fixed widths", "2 documents x widths 1..=80 x 4 kinds of fold x CRLF, LF, mixed x with and without final line ending", 2 * 80 * 4 * 3 * 2, |i, st| {
        let mut d = Dec(i);
        let k = d.n(2);
        let b = d.n(4);
        let nl = d.of(&["\r\n", "\n", ""]);
        let fin = d.bool();
        let w = d.0 + 1;
        let lines: Vec<String> = docs[k]
            .lines
            .iter()
            .map(|l| {
                let mut o = String::new();
                for (j, c) in l.chars().enumerate() {
                    if j > 0 && j % w == 0 {
                        o.push_str(BREAKS[if nl.is_empty() { (b + j) % 4 } else { b }]);
                    }
                    o.push(c);
                }
                o
            })
            .collect();
        let mut t = join(&lines, nl);
        if fin {
            t.truncate(t.trim_end().len());
        }
        check(&t, &docs[k].roots, st)
    });
    // line endings and blank lines around every line
    let small = Alphabet::new(&["VCALENDAR", "A"], vec![tp("P", &[], "v"), tp("SUMMARY", &[("K", None)], "")]);
    let n = run.q(5, 6);
    let words = small.words(n);
    let fills: [&str; 6] = ["\n", "\r\n", "\n\n", "\r\n\r\n", "\n\r\n", "\r\n\n"];
    let mut jobs = vec![];
    for (k, w) in words.iter().enumerate() {
        for c in 0..6usize.pow(w.len() as u32) {
            jobs.push((k as u32, c as u32));
        }
    }
    run.cases(
        "line endings and blank lines",
        &format!("all documents of <= {n} lines over 2 names and 2 properties x each line ended by one of 6 mixtures of line endings and blank lines"),
        jobs.len(),
        |i, st| {
            let (k, c) = jobs[i];
            let (lines, roots) = small.render(&words[k as usize]);
            let mut d = Dec(c as usize);
            let mut t = ["", "\n", "\r\n", "\r\n\n"][i % 4].to_string();
            for l in &lines {
                t.push_str(l);
                t.push_str(d.of(&fills));
            }
            check(&t, &roots, st)
        },
    );
    run.cases("many blank lines", "0..=300 blank lines of each kind before, between and after all lines", 301 * 3, |i, st| {
        let blank = ["\n", "\r\n", "\n\r\n"][i % 3].repeat(i / 3);
        for d in &docs {
            for nl in ["\n", "\r\n"] {
                let mut t = blank.clone();
                for l in &d.lines {
                    t.push_str(l);
                    t.push_str(nl);
                    t.push_str(&blank);
                }
                check(&t, &d.roots, st)?;
            }
        }
        Ok(())
    });
    // more of them
    let counts: Vec<usize> = sizes(0, run.q(70_000, 300_000)).into_iter().filter(|n| *n > 300).collect();
    let spots = docs[0].lines.len() + 1;
    run.cases("very many blank lines", &format!("{} numbers of blank lines up to {} at each of {spots} places", counts.len(), counts[counts.len() - 1]), counts.len() * 2 * spots, |i, st| {
        let mut d = Dec(i);
        let (spot, nl) = (d.n(spots), d.of(&["\n", "\r\n"]));
        let mut t = String::new();
        for (j, l) in docs[0].lines.iter().chain([&String::new()]).enumerate() {
            if j == spot {
                t.push_str(&nl.repeat(counts[d.0]));
            }
            if j < docs[0].lines.len() {
                t.push_str(l);
                t.push_str(nl);
            }
        }
        check(&t, &docs[0].roots, st)
    });
    // more folds than anyone writes, of one kind or of all of them, in one line or in many
    let counts = sizes(1, run.q(5_000, 70_000));
    run.cases("very many folds", &format!("{} numbers of folds up to {} x 4 kinds of fold and all of them x in one line, one in each line, with nothing between", counts.len(), counts[counts.len() - 1]), counts.len() * 5 * 3, |i, st| {
        let mut d = Dec(i);
        let (b, way) = (d.n(5), d.n(3));
        let n = counts[d.0];
        let fold = |j: usize| BREAKS[if b == 4 { j % 4 } else { b }];
        let mut lines = vec!["BEGIN:VEVENT".to_string()];
        let mut props = vec![];
        match way {
            0 => {
                lines.push("X:".to_string() + &(0..n).map(|j| format!("{}v", fold(j))).collect::<String>());
                props.push(tp("X", &[], &"v".repeat(n)));
            }
            1 => {
                for j in 0..n.min(20_000) {
                    lines.push(format!("X:v{}w", fold(j)));
                    props.push(tp("X", &[], "vw"));
                }
            }
            _ => {
                lines.push("X:v".to_string() + &(0..n).map(fold).collect::<String>());
                props.push(tp("X", &[], "v"));
            }
        }
        lines.push("END:VEVENT".into());
        let roots = [Tree { name: "VEVENT".into(), props, kids: vec![] }];
        for nl in ["\n", "\r\n"] {
            check(&join(&lines, nl), &roots, st)?;
        }
        Ok(())
    });
    // keyword case
    let cased = |w: &str, bits: usize| -> String {
        w.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect()
    };
    run.cases("keyword case", "all 32 x 8 spellings of BEGIN and END in documents with several levels, LF and CRLF", 32 * 8 * 2, |i, st| {
        let mut d = Dec(i);
        let (b, e, nl) = (d.n(32), d.n(8), d.of(&["\n", "\r\n"]));
        for doc in &docs {
            for alternate in [false, true] {
                let lines: Vec<String> = doc
                    .lines
                    .iter()
                    .enumerate()
                    .map(|(j, l)| {
                        let flip = alternate && j % 2 == 1;
                        match (l.strip_prefix("BEGIN:"), l.strip_prefix("END:")) {
                            (Some(r), _) => format!("{}:{r}", cased("BEGIN", if flip { !b & 31 } else { b })),
                            (_, Some(r)) => format!("{}:{r}", cased("END", if flip { !e & 7 } else { e })),
                            _ => l.clone(),
                        }
                    })
                    .collect();
                check(&join(&lines, nl), &doc.roots, st)?;
            }
        }
        Ok(())
    });
    // all at once
    let cat = catalogue();
    run.cases("layouts of the catalogue", "every property of the catalogue x folds at every position x 3 line endings x 2 keyword cases", cat.len(), |i, st| {
        let roots = vec![Tree { name: "VEVENT".into(), props: vec![cat[i].clone(), tp("X", &[], "next")], kids: vec![] }];
        let d = doc(roots);
        for nl in ["\r\n", "\n", ""] {
            for kw in ["BEGIN", "begin"] {
                let mut l = d.lines.clone();
                l[0] = l[0].replace("BEGIN", kw);
                let line = l[1].clone();
                for (p, _) in line.char_indices().chain([(line.len(), ' ')]) {
                    for b in BREAKS {
                        l[1] = format!("{}{b}{}", &line[..p], &line[p..]);
                        check(&join(&l, nl), &d.roots, st)?;
                    }
                }
            }
        }
        Ok(())
    });
    let vocab = names_in_use();
    run.cases("names in use", &format!("{} names, each as the name of components, properties and parameters: 4 kinds of fold around and inside every name, LF and CRLF", vocab.len()), vocab.len() * 8, |i, st| {
        let mut d = Dec(i);
        let (b, nl) = (d.n(4), d.of(&["\n", "\r\n"]));
        let n = &vocab[d.0];
        let t = in_use(n);
        let mut lines = vec![];
        spell_tree(&t, &mut lines);
        let text = join(&lines, nl);
        let roots = [t];
        let cut = n.char_indices().nth(n.chars().count() / 2).map_or(0, |c| c.0);
        for m in [format!("{}{n}", BREAKS[b]), format!("{n}{}", BREAKS[b]), format!("{}{}{}", &n[..cut], BREAKS[b], &n[cut..])] {
            if n.chars().count() > 1 {
                check(&text.replace(n.as_str(), &m), &roots, st)?;
            }
        }
        check(&text, &roots, st)
    });
    // large documents, folded at the usual width or at every character
    big::stage(run, false, 2, |t, st| {
        let roots = std::slice::from_ref(t);
        for nl in ["\n", "\r\n", ""] {
            check(&big::text(t, nl), roots, st)?;
        }
        let lines = {
            let mut l = vec![];
            spell_tree(t, &mut l);
            l
        };
        for (width, b) in [(74, BREAKS[0]), (72, BREAKS[3]), (1, BREAKS[2]), (1, BREAKS[1])] {
            // (a CR before a bare LF would belong to the line break)
            if b.starts_with('\n') && lines.iter().any(|l| l.contains('\r')) {
                continue;
            }
            let mut text = String::new();
            for l in &lines {
                for (i, c) in l.chars().enumerate() {
                    if i > 0 && i % width == 0 {
                        text.push_str(b);
                    }
                    text.push(c);
                }
                text.push_str(if b.starts_with('\r') { "\r\n" } else { "\n" });
            }
            check(&text, roots, st)?;
        }
        Ok(())
    });
}
