//! C05: well-formed documents yield exactly the tree they spell.
use super::gen::*;
use super::*;

pub fn check_doc(lines: &[String], exp: &[Tree], nl: &str, st: &mut Stats) -> R {
    let text = join(lines, nl);
    let got = trees_of(&text)?;
    st.step();
    if got != exp {
        return fail("parsed tree differs from the document", format!("document {:?}\nexpected {:?}\ngot      {:?}", clip(&text), exp, got));
    }
    st.state(exp);
    st.note(|| text.clone());
    Ok(())
}

/// looking a property up by name
fn check_find(lines: &[String], exp: &[Tree], names: &[&str], st: &mut Stats) -> R {
    fn walk(c: &ip::Component, t: &Tree, names: &[&str]) -> R {
        for n in names.iter().copied().chain(t.props.iter().map(|p| p.name.as_str())) {
            let want = t.props.iter().find(|p| p.name == n);
            same!("find_prop", n, want, c.find_prop(n).map(tprop).as_ref());
            same!("find_prop", n, want, c.find_prop(n.to_string()).map(tprop).as_ref());
        }
        c.components.iter().zip(&t.kids).try_for_each(|(c, t)| walk(c, t, names))
    }
    let text = join(lines, "\n");
    let comps = parsed_all(&text)?;
    st.steps(names.len() as u64);
    comps.iter().zip(exp).try_for_each(|(c, t)| walk(c, t, names))
}

pub fn run(run: &Run) {
    run.assume("documents are already unfolded");
    let structure = Alphabet::new(
        &["VEVENT", "ENDX", "END"],
        vec![tp("P", &[], "v"), tp("ENDX", &[], "END:VEVENT"), tp("BEGINNING", &[("K", Some("a:b"))], "BEGIN:ENDX")],
    );
    let k = run.q(9, 11);
    let words = structure.words(k);
    run.cases(
        "line structures",
        &format!("all well-nested documents of <= {k} lines over 3 component names and 3 properties, LF, CRLF and both mixed"),
        words.len() * 3,
        |i, st| {
            let (l, t) = structure.render(&words[i / 3]);
            check_doc(&l, &t, ["\n", "\r\n", ""][i % 3], st)
        },
    );
    drop(words);
    let find = Alphabet::new(
        &["VEVENT", "P"],
        vec![tp("P", &[], "1"), tp("P", &[("K", None)], "2"), tp("p", &[], "3"), tp("PP", &[], "4"), tp("UID", &[("P", Some("P"))], "P")],
    );
    let k = run.q(6, 8);
    let words = find.words(k);
    run.cases("looked up by name", &format!("all documents of <= {k} lines over 2 component names and 5 properties of 4 names, every name looked up in every component"), words.len(), |i, st| {
        let (l, t) = find.render(&words[i]);
        check_find(&l, &t, &["P", "p", "PP", "UID", "VEVENT", "", "X", "K"], st)?;
        check_doc(&l, &t, "\n", st)
    });
    drop(words);
    // names of all sorts, deeper
    let names = Alphabet::new(&["A", "AB", "VCALENDAR", "x-y.z", "1"], vec![]);
    let k = run.q(10, 12);
    let words = names.words(k);
    run.cases("component names", &format!("all nestings of <= {} components with 5 names (prefixes of each other)", k / 2), words.len(), |i, st| {
        let (l, t) = names.render(&words[i]);
        check_doc(&l, &t, "\n", st)
    });
    drop(words);
    // content: all pairs and triples of catalogue lines, before and after a child
    let cat = catalogue();
    let spelled: Vec<String> = cat.iter().map(spell_prop).collect();
    let m = run.q(2, 3);
    run.cases(
        "content lines",
        &format!("sequences of <= {m} of {} content lines x 3 placements around a child x LF/CRLF", cat.len()),
        words_upto(cat.len(), m) * 6,
        |i, st| {
            let mut d = Dec(i);
            let nl = d.of(&["\n", "\r\n"]);
            let place = d.n(3);
            let w = word(d.0, cat.len());
            let mut lines = vec!["BEGIN:VEVENT".to_string()];
            let kid = |lines: &mut Vec<String>| {
                lines.push("BEGIN:VALARM".into());
                lines.push(spelled[i % cat.len()].clone());
                lines.push("END:VALARM".into());
            };
            if place == 1 {
                kid(&mut lines)
            }
            for (n, p) in w.iter().enumerate() {
                lines.push(spelled[*p].clone());
                if place == 2 && n == 0 {
                    kid(&mut lines)
                }
            }
            lines.push("END:VEVENT".into());
            let k = Tree { name: "VALARM".into(), props: vec![cat[i % cat.len()].clone()], kids: vec![] };
            let t = Tree {
                name: "VEVENT".into(),
                props: w.iter().map(|p| cat[*p].clone()).collect(),
                kids: if place == 1 || (place == 2 && !w.is_empty()) { vec![k] } else { vec![] },
            };
            check_doc(&lines, &[t], nl, st)
        },
    );
    big::stage(run, false, 1, |t, st| {
        let mut lines = vec![];
        spell_tree(t, &mut lines);
        for nl in ["\n", "\r\n"] {
            check_doc(&lines, std::slice::from_ref(t), nl, st)?;
        }
        Ok(())
    });
    // property names made of the letters of the reserved words
    let letters = &["B", "E", "G", "I", "N", "D", "-", "e"];
    let k = run.q(6, 7);
    run.cases("names of reserved letters", &format!("property and component names of 1..={k} letters of B E G I N D - e"), words_upto(8, k) - 1, |i, st| {
        let n = spell(i + 1, letters);
        let up = n.to_uppercase();
        let mut lines = vec![format!("BEGIN:{n}")];
        let mut t = Tree { name: n.clone(), props: vec![], kids: vec![] };
        if up != "BEGIN" && up != "END" {
            lines.push(format!("{n}:1"));
            lines.push(format!("{n};K={n}:2"));
            t.props = vec![tp(&n, &[], "1"), tp(&n, &[("K", Some(&n))], "2")];
        }
        lines.push(format!("END:{n}"));
        check_doc(&lines, &[t], "\n", st)
    });
    // names in use
    let vocab = gen::names_in_use();
    run.cases("names in use", &format!("{} names, each as the name of components, properties and parameters with and without value, LF and CRLF", vocab.len()), vocab.len() * 2, |i, st| {
        let t = gen::in_use(&vocab[i / 2]);
        let mut lines = vec![];
        spell_tree(&t, &mut lines);
        check_doc(&lines, &[t], ["\n", "\r\n"][i % 2], st)
    });
    // values: all words over delimiters
    let vs = &[":", ";", "\"", "=", ",", "\\", " ", "n", "E", "é", "\t"];
    let k = run.q(5, 6);
    run.cases("values", &format!("all words of <= {k} of 11 symbols as untyped, TEXT and URI value, twice in a component"), words_upto(11, k), |i, st| {
        let w = spell(i, vs);
        let lines: Vec<String> = ["BEGIN:VTODO".into(), format!("X:{w}"), format!("SUMMARY:{w}"), format!("URL;A=\"b:c\":{w}"), format!("X:{w}"), "END:VTODO".into()].to_vec();
        let t = Tree {
            name: "VTODO".into(),
            props: vec![tp("X", &[], &w), tp("SUMMARY", &[], &unesc(&w)), tp("URL", &[("A", Some("b:c"))], &w), tp("X", &[], &w)],
            kids: vec![],
        };
        check_doc(&lines, &[t], "\n", st)
    });
    run.cases("every scalar", "all scalar values but CR and LF in a value and, if alphanumeric, in names", SCALARS, |i, st| {
        let c = scalar(i);
        if c == '\n' || c == '\r' {
            return Ok(());
        }
        let name = if c.is_alphanumeric() { format!("X{c}") } else { "X".into() };
        let v = format!("{c}x{c}");
        let t = Tree { name: name.clone(), props: vec![tp(&name, &[], &v), tp("SUMMARY", &[(&name, Some("1"))], &unesc(&v))], kids: vec![] };
        let lines = [format!("BEGIN:{name}"), format!("{name}:{v}"), format!("SUMMARY;{name}=1:{v}"), format!("END:{name}")];
        check_doc(&lines, &[t], ["\n", "\r\n"][i % 2], st)
    });
    // sizes
    let sizes: Vec<usize> = (0..=run.q(120, 400)).chain([127, 128, 200, 255, 256, 300, 400, 500, 511, 512, 800, 1000, 1023, 1024, 1500, 4000]).collect();
    run.cases("sizes", "0..=120 and selected sizes up to 4000 (levels: up to 800): levels, siblings, roots, properties, parameters, value length, name length, levels with properties after children, empty siblings", sizes.len() * 9, |i, st| {
        let mut d = Dec(i);
        let what = d.n(9);
        let n = sizes[d.0];
        let leaf = |k: usize| Tree { name: ["A", "B"][k % 2].into(), props: vec![tp("N", &[], &k.to_string())], kids: vec![] };
        let mut root = Tree { name: "VCALENDAR".into(), props: vec![tp("P", &[], "v")], kids: vec![] };
        match what {
            0 | 7 => {
                let n = n.min(800);
                let mut t = leaf(0);
                for k in 1..=n {
                    t = Tree { name: format!("L{}", k % 10), props: vec![tp("N", &[], &k.to_string())], kids: vec![t] };
                }
                if what == 7 {
                    // properties after the children on every level
                    fn rev(t: &Tree, lines: &mut Vec<String>) {
                        lines.push(format!("BEGIN:{}", t.name));
                        t.kids.iter().for_each(|k| rev(k, lines));
                        t.props.iter().for_each(|p| lines.push(spell_prop(p)));
                        lines.push(format!("END:{}", t.name));
                    }
                    let mut lines = vec![];
                    rev(&t, &mut lines);
                    return check_doc(&lines, &[t], "\n", st);
                }
                root.kids.push(t)
            }
            1 => root.kids = (0..n).map(leaf).collect(),
            8 => root.kids = (0..n).map(|k| Tree { name: ["A", "B"][k % 2].into(), props: vec![], kids: vec![] }).collect(),
            2 => {
                let trees: Vec<Tree> = (0..=n).map(leaf).collect();
                let mut lines = vec![];
                trees.iter().for_each(|t| spell_tree(t, &mut lines));
                return check_doc(&lines, &trees, "\r\n", st);
            }
            3 => root.props = (0..n).map(|k| tp(["P", "Q"][k % 2], &[], &k.to_string())).collect(),
            4 => {
                let ks: Vec<String> = (0..n).map(|k| format!("K{}", k / 2)).collect();
                let ps: Vec<(&str, Option<&str>)> = ks.iter().map(|k| (k.as_str(), Some("v:w"))).collect();
                root.props = vec![tp("P", &ps, "x")]
            }
            5 => root.props = vec![tp("SUMMARY", &[("K", Some(&format!("k{}", "é:".repeat(n))))], &"a,\n".repeat(n)), tp("X", &[], &" ;".repeat(n))],
            _ => {
                let name = "N".repeat(n + 1);
                root.kids = vec![Tree { name: name.clone(), props: vec![tp(&name, &[(&name, Some("1"))], "v")], kids: vec![] }]
            }
        }
        let mut lines = vec![];
        spell_tree(&root, &mut lines);
        check_doc(&lines, &[root], "\n", st)
    });
    // the same through the reader of calendars
    let cal = Alphabet::new(&["VEVENT", "VALARM"], vec![tp("SUMMARY", &[], "a,b"), tp("PRODID", &[("X", None)], "x")]);
    let k = run.q(9, 11);
    let words = cal.words(k);
    run.cases("inside a calendar", &format!("all well-nested documents of <= {k} lines inside VCALENDAR through read_calendar"), words.len(), |i, st| {
        let (l, t) = cal.render(&words[i]);
        let mut lines = vec!["BEGIN:VCALENDAR".to_string(), "VERSION:2.0".into()];
        lines.extend(l);
        lines.push("X-LATE:1".into());
        lines.push("END:VCALENDAR".into());
        let text = join(&lines, "\r\n");
        st.step();
        let exp = Tree { name: "VCALENDAR".into(), props: vec![tp("VERSION", &[], "2.0"), tp("X-LATE", &[], "1")], kids: t };
        match ip::read_calendar(&text) {
            Ok(c) => same!("calendar read", text, exp, tree_of_cal(&c)),
            Err(e) => return fail("calendar rejected", e),
        }
        st.state(&exp);
        Ok(())
    });
}
