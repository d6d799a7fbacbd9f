//! C18: formatting a parsed document and parsing the result gives the same tree.
use super::c04::{components_catalogue, stamped, values_for};
use super::c06::sample_docs;
use super::gen::*;
use super::*;

/// commas and semicolons separate the parts of these values; how they are spelled is left open
const LISTS: &[&str] = &["CATEGORIES", "RESOURCES", "REQUEST-STATUS"];

/// reads, writes and reads again, if the text is accepted at all
fn rewrite(text: &str, st: &mut Stats) -> Result<bool, Fail> {
    let Ok(cal) = ip::read_calendar(text) else {
        st.state(&"rejected");
        return Ok(false);
    };
    let want = tree_of_cal(&cal);
    let out = cal.to_string();
    let lines = logical(&out)?;
    // nothing added, nothing lost: as many lines as the tree has properties and BEGIN/END
    fn count(t: &Tree) -> usize {
        2 + t.props.len() + t.kids.iter().map(count).sum::<usize>()
    }
    same!("number of lines written", format!("{text:?} written as {out:?}"), count(&want), lines.len());
    let unf = ip::unfold(&out);
    let again = match ip::read_calendar(&unf) {
        Ok(c) => c,
        Err(e) => return fail("reserialized document is not readable", format!("{text:?}\nwritten: {out:?}\n{e}")),
    };
    same!("tree changed by writing and reading", format!("{text:?} written as {out:?}"), want, tree_of_cal(&again));
    // now it is in the form the library writes
    same!("second output", format!("{text:?}"), out, again.to_string());
    st.steps(2);
    // the list of components, one by one
    if let Ok(list) = ip::read_components(text) {
        for c in list {
            let want = tree(&c);
            let out = ip::Calendar { properties: vec![], components: vec![c] }.to_string();
            let unf = ip::unfold(&out);
            let Ok(b) = ip::read_calendar(&unf) else {
                return fail("reserialized component is not readable", format!("{text:?}\nwritten: {out:?}"));
            };
            same!("component changed by writing and reading", format!("{text:?} written as {out:?}"), vec![want], tree_of_cal(&b).kids);
            st.step();
        }
    }
    st.state(&want);
    st.note(|| format!("{text:?} -> {out:?}"));
    Ok(true)
}
fn must(text: &str, st: &mut Stats) -> R {
    ensure!(rewrite(text, st)?, "well-formed document rejected", format!("{:?}", clip(text)));
    Ok(())
}
/// the spelling the library uses: quotes only where needed
fn canonical_line(p: &TProp) -> String {
    let mut s = p.name.clone();
    for (k, v) in &p.params {
        match v {
            Some(v) if v.contains([':', ';']) => s.push_str(&format!(";{k}=\"{v}\"")),
            Some(v) => s.push_str(&format!(";{k}={v}")),
            None => s.push_str(&format!(";{k}")),
        }
    }
    let vt = p.params.iter().find(|q| q.0 == "VALUE").and_then(|q| q.1.as_deref());
    s.push(':');
    if type_of(&p.name, vt) != Some("TEXT") {
        s.push_str(&p.val)
    } else if LISTS.contains(&p.name.as_str()) {
        s.push_str(&p.val.replace('\\', "\\\\").replace('\n', "\\n"))
    } else {
        s.push_str(&esc(&p.val))
    }
    s
}
/// a document in the form the library writes comes out as it is
fn canonical(text: &str, st: &mut Stats) -> R {
    let unf = ip::unfold(text);
    let cal = match ip::read_calendar(&unf) {
        Ok(c) => c,
        Err(e) => return fail("well-formed document rejected", format!("{text:?} {e}")),
    };
    let out = cal.to_string();
    st.step();
    same!("document in canonical form", "reserialized", norm_nl_escape(text), norm_nl_escape(&out));
    st.state(&out);
    Ok(())
}
fn doc(lines: &[String]) -> String {
    format!("BEGIN:VCALENDAR\r\n{}END:VCALENDAR\r\n", join(lines, "\r\n"))
}

pub fn run(run: &Run) {
    run.assume("the separators within CATEGORIES, RESOURCES and REQUEST-STATUS are written without backslashes; the line feed escape may be spelled \\n or \\N; a parameter with an empty value may lose its equals sign");
    // whatever is accepted: single lines, character by character
    let alpha = ["a", ":", ";", "=", "\"", ",", "\\", "n", " ", "é", "\r", "-"];
    let n = run.q(5, 6);
    let heads = ["", "SUMMARY:", "X:", "SUMMARY;", "X;K=", "CATEGORIES:", "X;VALUE=TEXT;K=\"", "SUMMARY;VALUE="];
    run.cases(
        "lines",
        &format!("{} beginnings of a line followed by all words of <= {n} of 12 characters, LF and CRLF", heads.len()),
        words_upto(alpha.len(), n) * heads.len(),
        |i, st| {
            let (h, w) = (heads[i % heads.len()], spell(i / heads.len(), &alpha));
            for nl in ["\n", "\r\n"] {
                if nl == "\r\n" && w.ends_with('\r') {
                    continue;
                }
                let tail = if h.ends_with('=') || h.ends_with('"') { ":v" } else { "" };
                rewrite(&format!("BEGIN:A{nl}{h}{w}{tail}{nl}END:A{nl}"), st)?;
                if h.ends_with('"') {
                    rewrite(&format!("BEGIN:A{nl}{h}{w}\":v{nl}END:A{nl}"), st)?;
                }
            }
            Ok(())
        },
    );
    // every scalar value in every position
    run.cases("every character", "every Unicode scalar value in values (TEXT or not, escaped or not), parameters, names", SCALARS, |i, st| {
        let c = scalar(i);
        if matches!(c, '\n' | '\r') {
            return Ok(());
        }
        rewrite(
            &format!("BEGIN:A\nSUMMARY:a{c}b\\{c}\nX:{c}{c}\nLOCATION;VALUE=URI:\\{c}{c}\nEND:A\n"),
            st,
        )?;
        rewrite(&format!("BEGIN:A\nX;K=a{c}b:v\nEND:A\n"), st)?;
        if c != '"' {
            rewrite(&format!("BEGIN:A\nX;K=\"{c}\";L=\"a{c}:b\":v\nEND:A\n"), st)?;
        }
        rewrite(&format!("BEGIN:A\nX{c}X;K{c}K=1:v\nEND:A\nBEGIN:B{c}\nEND:B{c}\n"), st)?;
        Ok(())
    });
    // token sequences of whole documents
    let tok = ["BEGIN:A\n", "END:A\n", "BEGIN:VCALENDAR\n", "END:VCALENDAR\n", "P:v\n", "SUMMARY;K:a\\,b\\n\n", "\r\n", "begin:calendar\n", "end:calendar\n", "X;L=\"a:b\"", ":", ";", "\n"];
    let n = run.q(5, 6);
    run.cases("documents of tokens", &format!("all sequences of <= {n} of {} tokens", tok.len()), words_upto(tok.len(), n), |i, st| {
        rewrite(&spell(i, &tok), st)?;
        Ok(())
    });
    // well-formed documents
    let cat = catalogue();
    run.cases("catalogue", "all pairs of the properties of the catalogue, in a calendar and in an event", cat.len() * cat.len(), |i, st| {
        let (a, b) = (&cat[i / cat.len()], &cat[i % cat.len()]);
        let l = |p: &TProp| canonical_line(p);
        let lines = vec![l(a), "BEGIN:VEVENT".into(), l(a), l(b), "END:VEVENT".into()];
        must(&doc(&lines), st)?;
        if lines.iter().all(|l| l.len() <= 75) {
            canonical(&doc(&lines), st)?;
        }
        must(&doc(&[spell_prop(a), spell_prop(b)]), st)
    });
    let a = Alphabet::new(
        &["VEVENT", "CALENDAR", "Calendar", "vcalendar"],
        vec![tp("SUMMARY", &[("K", Some("a:b"))], "a,b\n\\"), tp("X", &[("K", None)], ""), tp("CATEGORIES", &[], "a,b")],
    );
    let n = run.q(6, 7);
    let words = a.words(n);
    run.cases("documents", &format!("all documents of <= {n} lines over 4 names and 3 properties"), words.len(), |i, st| {
        let (lines, trees) = a.render(&words[i]);
        must(&join(&lines, "\n"), st)?;
        let lines: Vec<String> = lines.iter().map(|l| if l.starts_with("CATEGORIES") { "CATEGORIES:a".into() } else { l.clone() }).collect();
        // properties have to come before the children in the form the library writes
        fn written(t: &Tree, out: &mut Vec<String>) {
            out.push(format!("BEGIN:{}", t.name));
            out.extend(t.props.iter().map(|p| if p.name == "CATEGORIES" { "CATEGORIES:a".into() } else { canonical_line(p) }));
            t.kids.iter().for_each(|k| written(k, out));
            out.push(format!("END:{}", t.name));
        }
        let mut w = vec![];
        trees.iter().for_each(|t| written(t, &mut w));
        canonical(&doc(&w), st)?;
        let unf = doc(&lines);
        let cal = match ip::read_calendar(&unf) {
            Ok(c) => c,
            Err(e) => return fail("well-formed document rejected", e),
        };
        same!("written form", unf, norm_nl_escape(&doc(&w)), norm_nl_escape(&cal.to_string()));
        Ok(())
    });
    let vocab = names_in_use();
    run.cases("names in use", &format!("{} names, each as the name of components, properties and parameters with and without value", vocab.len()), vocab.len() * 2, |i, st| {
        let t = in_use(&vocab[i / 2]);
        let mut lines = vec![];
        spell_tree(&t, &mut lines);
        must(&join(&lines, ["\n", "\r\n"][i % 2]), st)?;
        must(&doc(&lines), st)
    });
    // long lines, folded in the written form
    let max = run.q(330, 900);
    let chars = ['x', 'é', '€', '😀', ' ', '\\', ',', '\n', '\t', '\u{301}'];
    run.cases("long lines", &format!("0..{max} characters of 10 sorts x 4 offsets as text, untyped value, parameter, name"), max * chars.len() * 4, |i, st| {
        let mut d = Dec(i);
        let ch = chars[d.n(chars.len())];
        let off = d.n(4);
        let s: String = "a".repeat(off) + &std::iter::repeat_n(ch, d.0).collect::<String>();
        let mut lines = vec![format!("SUMMARY:{}", esc(&s))];
        if ch != '\n' {
            lines.push(format!("X:{s}"));
            lines.push(format!("X;K=\"{s}:\";L=\"{s}\":{s}"));
        }
        if ch.is_alphanumeric() {
            lines.push(format!("X{s};K{s}=1:v"));
            lines.push(format!("BEGIN:{s}X"));
            lines.push(format!("END:{s}X"));
        }
        let text = doc(&lines);
        must(&text, st)?;
        // what comes out is canonical
        let Ok(cal) = ip::read_calendar(&text) else { return fail("rejected", text) };
        canonical(&cal.to_string(), st)
    });
    // what the builder writes is in the form the library writes
    // (an empty parameter value, which reading takes for no value, is written without its =)
    fn no_empty(c: &mut MComp) {
        let ps = c.props.values_mut().chain(c.multi.values_mut().flatten());
        ps.flat_map(|p| p.params.values_mut()).filter(|v| v.is_empty()).for_each(|v| v.push('e'));
        c.kids.iter_mut().for_each(no_empty);
    }
    let mut comps = components_catalogue();
    comps.iter_mut().for_each(no_empty);
    run.cases("built calendars", "pairs of the components of the catalogue, as the builder writes them", comps.len() * comps.len(), |i, st| {
        let m = MCal { props: default_props(), comps: vec![comps[i / comps.len()].clone(), comps[i % comps.len()].clone()] };
        let out = calendar(&m).to_string();
        must(&ip::unfold(&out), st)?;
        canonical(&out, st)
    });
    let names: Vec<&str> = TEXT_NAMES.iter().copied().chain(OTHER_TYPES.iter().map(|t| t.0)).chain(["X-A", "COLOR"]).collect();
    let types: Vec<Option<&str>> = std::iter::once(None).chain(TYPE_NAMES.iter().map(|t| Some(*t))).collect();
    run.cases("built properties", &format!("{} names x 15 VALUE parameters x values of that type", names.len()), names.len() * types.len(), |i, st| {
        let (n, t) = (names[i / types.len()], types[i % types.len()]);
        for v in values_for(n, t) {
            // in the untyped ones there is no line feed
            let mut p = MProp::new(n, &v).with("P", "x;y");
            if let Some(t) = t {
                p = p.with("VALUE", t);
            }
            let mut m = stamped("VEVENT");
            m.props.remove(n);
            m.set(p.clone());
            let cal = calendar(&MCal { props: vec![p.clone()], comps: vec![m] });
            let out = cal.to_string();
            must(&ip::unfold(&out), st)?;
            if !(LISTS.contains(&n) && v.contains([',', ';'])) {
                canonical(&out, st)?;
            }
            // a property alone
            let raw = raw_prop(&p);
            let line = raw.to_string();
            let unf = ip::unfold(&line);
            same!("property alone", line, tprop(&raw), read_prop(&unf)?);
            let body = unf.trim_end_matches(['\r', '\n']);
            if v.ends_with('\r') {
                continue;
            }
            same!("property alone, without line ending", line, tprop(&raw), read_prop(body)?);
        }
        Ok(())
    });
    let docs = sample_docs();
    run.cases("sample documents", "5 documents: all rotations and doublings of their properties", docs.len() * 20, |i, st| {
        let d = &docs[i % docs.len()];
        let mut l = d.clone();
        let k = i / docs.len();
        let props: Vec<usize> = (0..l.len()).filter(|j| !l[*j].starts_with("BEGIN:") && !l[*j].starts_with("END:")).collect();
        if let Some(p) = props.get(k % props.len().max(1)) {
            let x = l[*p].clone();
            for _ in 0..k {
                l.insert(*p, x.clone());
            }
        }
        must(&join(&l, "\n"), st)
    });
    // depth and width
    run.cases("deep and wide", "chains and rows of up to 400 components, properties and parameters", 41, |i, st| {
        let n = i * 10;
        let deep = "BEGIN:A\nP:1\n".repeat(n) + &"END:A\n".repeat(n);
        if n > 0 {
            must(&deep, st)?;
            canonical(&doc(&deep.lines().map(|s| s.to_string()).collect::<Vec<_>>()), st)?;
        }
        let wide = format!("BEGIN:A\n{}{}END:A\n", "P:1\n".repeat(n), "BEGIN:B\nEND:B\n".repeat(n)) + &"BEGIN:C\nEND:C\n".repeat(n);
        must(&wide, st)?;
        let params: String = (0..n).map(|k| format!(";K{}=\"v:{k}\"", k / 2)).collect();
        must(&format!("BEGIN:A\nX{params}:v\nEND:A\n"), st)
    });
    big::stage(run, false, 1, |t, st| {
        let text = big::text(t, "\n");
        must(&text, st)?;
        let Ok(cal) = ip::read_calendar(&text) else { return fail("well-formed document rejected", "") };
        canonical(&cal.to_string(), st)
    });
}
