//! C03: parameters.
use super::*;
use std::collections::BTreeMap;

const SYMS: &[&str] = &["a", "B", ":", ";", ",", "=", " ", "é", "\\", "-", "\t"];

/// typed parameters through writing and reading
fn trip(m: &MProp, st: &mut Stats) -> R {
    let built = m.build();
    same!("parameters stored", format!("{m:?}"), *m, mprop(&built));
    for (k, v) in &m.params {
        same!("parameter looked up", k, Some(v.clone()), built.get_param_as(k, |s| Some(s.to_string())));
    }
    let out = prop_string(built)?;
    st.step();
    let l = logical(&out)?;
    ensure!(l.len() == 1, "not one line", clip(&out));
    // the written form, judged by the strict reference reader
    let line = read_line(&l[0])?;
    let got: BTreeMap<_, _> = line.params.iter().cloned().collect();
    ensure!(
        got == m.params && line.params.len() == m.params.len() && line.name == m.key && line.raw == m.written(),
        "parameters not written as specified",
        format!("{m:?}\nwritten {:?}", l[0])
    );
    for (k, v) in param_spellings(&l[0]) {
        let val = &m.params[&k];
        let exp = if val.contains([':', ';']) { format!("\"{val}\"") } else { val.clone() };
        same!("quoting of a parameter value", format!("{m:?}"), exp, v);
    }
    // read back by the library, raw and typed, alone and followed by another line
    for text in [format!("{}\r\n", l[0]), l[0].clone(), format!("{}\r\nNEXT:1\r\n", l[0])] {
        st.step();
        let t = read_prop(&text)?;
        let mut exp: Vec<(String, Option<String>)> =
            line.params.iter().map(|(k, v)| (k.clone(), (!v.is_empty()).then(|| v.clone()))).collect();
        same!("parameters read back (in order)", text, exp, t.params);
        same!("value after parameters", text, m.val, t.val);
        same!("name before parameters", text, m.key, t.name);
        exp.sort();
    }
    let t: Property = match out.parse::<Property>() {
        Ok(p) => p,
        Err(e) => return fail("written property does not parse", format!("{m:?}: {e}")),
    };
    if l[0].len() <= 75 {
        same!("typed property read back", out, *m, mprop(&t));
    }
    st.state(&l[0]);
    st.note(|| l[0].clone());
    Ok(())
}

/// one spelled parameter and what it has to be read as
fn spelled(key: &str, shape: usize, val: &str) -> Option<(String, (String, Option<String>))> {
    let some = |v: &str| if v.is_empty() { None } else { Some(v.to_string()) };
    let plain_ok = !val.contains([':', ';', '"']);
    Some(match shape {
        0 => (format!(";{key}=\"{val}\""), (key.to_string(), some(val))),
        1 if plain_ok => (format!(";{key}={val}"), (key.to_string(), some(val))),
        2 if val.is_empty() => (format!(";{key}"), (key.to_string(), None)),
        3 => (format!("; {key}=\"{val}\""), (key.to_string(), some(val))),
        4 if plain_ok => (format!(";  {key}={val}"), (key.to_string(), some(val))),
        _ => return None,
    })
}

pub fn run(run: &Run) {
    run.assume("parameter values contain no double quote, control character or line break (RFC 5545 cannot spell them)");
    let k = run.q(4, 5);
    run.cases(
        "one parameter, all values",
        &format!("words of <= {k} over a B : ; , = space é \\ - tab x 3 property values"),
        words_upto(SYMS.len(), k) * 3,
        |i, st| {
            let mut d = Dec(i);
            let v = d.of(&["v", "", ";X=\"y\":z"]);
            trip(&MProp::new("X-P", v).with("CN", &spell(d.0, SYMS)), st)
        },
    );
    run.cases(
        "two parameters",
        "pairs of words of <= 2 over 11 symbols",
        words_upto(SYMS.len(), 2).pow(2),
        |i, st| {
            let n = words_upto(SYMS.len(), 2);
            trip(&MProp::new("X-P", "a:b;c=\"d\"").with("A", &spell(i % n, SYMS)).with("B-C", &spell(i / n, SYMS)), st)
        },
    );
    run.cases("every scalar in a value", "all scalars except control characters and the double quote", SCALARS, |i, st| {
        let c = scalar(i);
        if c == '"' || c.is_control() && c != '\t' {
            return Ok(());
        }
        trip(&MProp::new("X-P", "v").with("P", &format!("{c}x{c}")), st)
    });
    let sp: Vec<String> = big::special().iter().map(|s| s.chars().filter(|c| *c != '"' && !c.is_control()).collect()).collect();
    run.cases("special texts", &format!("all ordered pairs of {} special texts as values of two parameters, the property value being one of them", sp.len()), sp.len() * sp.len(), |i, st| {
        let (a, b) = (&sp[i / sp.len()], &sp[i % sp.len()]);
        trip(&MProp::new("X-P", a).with("A", a).with("B", b), st)?;
        trip(&MProp::new("ATTENDEE", b).with("CN", &format!("{a}{b}")).with("DIR", &format!("{a}:{b}")), st)
    });
    run.cases("property values after parameters", "words of <= 5 over : ; = quote a comma space x quoted or not", words_upto(7, 5) * 2, |i, st| {
        let mut d = Dec(i);
        let pv = d.of(&["plain", "quo:ted;"]);
        let v = spell(d.0, &[":", ";", "=", "\"", "a", ",", " "]);
        trip(&MProp::new("X-P", &v).with("K", pv), st)
    });
    let names = [
        "ALTREP", "CN", "CUTYPE", "DELEGATED-FROM", "DELEGATED-TO", "DIR", "ENCODING", "FMTTYPE", "FBTYPE", "LANGUAGE", "MEMBER",
        "PARTSTAT", "RANGE", "RELATED", "RELTYPE", "ROLE", "RSVP", "SENT-BY", "TZID", "VVENUE", "X-P", "x-lower", "A.B", "a/b_c,d", "ENDX", "BEGIN", "END", "Ünïcode", "1",
    ];
    let pnames = ["X-P", "ATTENDEE", "DTSTART", "TRIGGER", "DESCRIPTION", "LOCATION", "RRULE", "x-lower", "ENDPOINT"];
    let vals = ["", "v", "a:b", ";", "mailto:x@example.com", "Europe/Berlin", "two words", "x,y", "=", "  lead", "trail ", "DATE"];
    run.cases(
        "names",
        "29 parameter names x 12 values x 9 property names",
        names.len() * vals.len() * pnames.len(),
        |i, st| {
            let mut d = Dec(i);
            let (n, v, p) = (d.of(&names), d.of(&vals), d.of(&pnames));
            trip(&MProp::new(p, "value, with; all: \"of\" them").with(n, v), st)
        },
    );
    let mut vocab: Vec<String> = gen::VOCABULARY.iter().map(|s| s.to_string()).collect();
    for x in [".", ",", "/", "_", "-", "0", "é", "日"] {
        vocab.extend([x.to_string(), format!("{x}{x}"), format!("A{x}"), format!("{x}A"), format!("A{x}B"), format!("VALUE{x}"), format!("TZID{x}"), format!("{x}TZID")]);
    }
    vocab.extend(vocab.clone().iter().map(|n| n.to_lowercase()));
    vocab.sort();
    vocab.dedup();
    let vv = ["", "TRUE", "a:b", "é, =", "TEXT"];
    run.cases("names in use", &format!("all {} parameter names alone and all pairs with 12 of them x {} values", vocab.len(), vv.len()), vocab.len() * 13 * vv.len(), |i, st| {
        let mut d = Dec(i);
        let v = d.of(&vv);
        let k = d.n(13);
        let n = &vocab[d.0];
        // (a type named by VALUE transforms the property's value: C15)
        let m = MProp::new("X-P", "v w").with(n, v);
        trip(&if k == 12 { m } else { m.with(["CN", "cn", "VALUE.", "A", "a", "A.", "TZID", "tzid", "RSVP", "X-", "-", "K0"][k], "x") }, st)
    });
    run.cases("many parameters", "0..=64 parameters x 12 values, and value lengths 0..=300", 65 * 12 + 301, |i, st| {
        let mut m = MProp::new("X-P", "v:w");
        if i < 65 * 12 {
            let mut d = Dec(i);
            let v = d.of(&vals);
            for k in 0..d.0 {
                m = m.with(&format!("K{k}"), &format!("{v}{}", k));
            }
        } else {
            m = m.with("LONG", &"é:x ".repeat(i - 65 * 12));
        }
        trip(&m, st)
    });
    let far = run.q(200, 700);
    run.cases(
        "a special character far into a long value",
        &format!("values of 1..={far} a or é, with one of : ; , = space tab backslash at the last or the first place, as the first, the last and the only parameter"),
        far * 2 * 7 * 2 * 3,
        |i, st| {
            let mut d = Dec(i);
            let c = d.of(&[":", ";", ",", "=", " ", "\t", "\\"]);
            let f = d.of(&["a", "é"]).repeat(1 + d.n(far));
            let v = if d.bool() { format!("{f}{c}") } else { format!("{c}{f}") };
            let m = MProp::new("X-P", "v:w").with("M", &v);
            trip(&match d.0 { 0 => m, 1 => m.with("A", "x"), _ => m.with("Z", "y:z") }, st)
        },
    );
    // sizes
    let counts = sizes(0, run.q(1100, 4200));
    run.cases("very many parameters", &format!("{} numbers of parameters up to {} x 4 kinds of values", counts.len(), counts[counts.len() - 1]), counts.len() * 4, |i, st| {
        let mut m = MProp::new("X-P", "v:w");
        for k in 0..counts[i / 4] {
            m = m.with(&format!("K{}", (k * 7919) % 100_000), &match i % 4 { 0 => format!("{k}"), 1 => format!("a:{k}"), 2 => String::new(), _ => format!("{};é,{k}", k % 2) });
        }
        trip(&m, st)
    });
    let lens: Vec<usize> = sizes(0, run.q(20_000, 140_000)).into_iter().filter(|n| *n > far).collect();
    run.cases("very long values", &format!("{} lengths up to {} of parameter values, with each of : ; , = space tab backslash first, last and in the middle", lens.len(), lens[lens.len() - 1]), lens.len() * 7 * 3 * 2, |i, st| {
        let mut d = Dec(i);
        let c = d.of(&[":", ";", ",", "=", " ", "\t", "\\"]);
        let f = d.of(&["a", "é"]);
        let at = d.n(3);
        let n = lens[d.0] - 1;
        let (x, y) = match at { 0 => (0, n), 1 => (n, 0), _ => (n / 2, n - n / 2) };
        let cut = |k: usize| if f == "é" { f.repeat(k / 2) + &"b".repeat(k % 2) } else { f.repeat(k) };
        trip(&MProp::new("X-P", "v:w").with("M", &format!("{}{c}{}", cut(x), cut(y))).with("Z", "y"), st)
    });
    // reader: spellings
    let svals = ["", "v", "a:b;c", "x y", "q=r", "DQ,s", " s", "é"];
    let shapes = 5 * svals.len();
    let kk = run.q(3, 4);
    run.cases(
        "spellings read alike",
        &format!("lists of <= {kk} parameters, each in 5 spellings x 8 values; in order; names repeat"),
        words_upto(shapes, kk),
        |i, st| {
            let w = word(i, shapes);
            let mut text = String::from("X-P");
            let mut exp = vec![];
            for (n, s) in w.iter().enumerate() {
                let key = ["K", "LANGUAGE", "K", "X-Q"][n];
                let Some((t, e)) = spelled(key, s % 5, svals[s / 5]) else { return Ok(()) };
                text.push_str(&t);
                exp.push(e);
            }
            let sp = text.clone();
            text.push_str(":v;w=\"x:y\"\n");
            st.step();
            let p = read_prop(&text)?;
            same!("parameters as spelled", text, exp, p.params);
            same!("value after spelled parameters", text, "v;w=\"x:y\"", p.val);
            same!("name", text, "X-P", p.name);
            // a parameter on its own
            if w.len() == 1 {
                st.step();
                match ip::Parameter::try_from(&sp[3..]) {
                    Ok(q) => same!("single parameter", sp, exp[0], (q.key.as_str().to_string(), q.val.as_ref().map(|v| v.as_str().to_string()))),
                    Err(e) => return fail("single parameter unreadable", format!("{sp}: {e}")),
                }
            }
            // typed side: last of a name wins, no value becomes an empty one
            st.step();
            let t: Property = text.parse().map_err(|e| Fail { known: None, what: "unreadable".into(), detail: e })?;
            let m = typed_prop(&TProp { name: "X-P".into(), params: exp.clone(), val: "v;w=\"x:y\"".into() });
            same!("typed parameters", text, m, mprop(&t));
            st.state(&exp);
            st.note(|| text.clone());
            Ok(())
        },
    );
    // parameters do not cross lines
    let frag = ["X-P;K=v", "X-P;K=\"v", "X-P;K", "X-P;K=", "X-P; K=v;L=\"a:b\"", "X-P"];
    run.cases("parameters stay on their line", "6 lines without colon x 3 following lines x 2 line ends", 6 * 3 * 2, |i, st| {
        let mut d = Dec(i);
        let f = d.of(&frag);
        let nx = d.of(&["NEXT:1", "NEXT;P=\"q\":1", "SUMMARY:say \"hi\": x"]);
        let nl = d.of(&["\n", "\r\n"]);
        let text = format!("BEGIN:A{nl}{f}{nl}{nx}{nl}END:A{nl}");
        st.step();
        match ip::read_components(&text) {
            Err(_) => Ok(()), // rejected: nothing was swallowed
            Ok(c) => {
                let t = tree(&c[0]);
                st.state(&t);
                let next = nx.split([';', ':']).next().unwrap();
                ensure!(
                    t.props.len() == 2 && t.props[1].name == next && t.props[0].val.is_empty(),
                    "a parameter swallowed text of the next line",
                    format!("{text:?} read as {t:?}")
                );
                Ok(())
            }
        }
    });
    // lists of quoted values (RFC 5545 3.2.4, 3.2.5, 3.2.11): all lists of <= 3 quoted or plain values
    run.cases("lists of quoted values", "lists of 1..=3 values, each quoted or plain", 2 + 4 + 8, |i, st| {
        let w = word(i + 1, 2);
        let list = w.iter().enumerate().map(|(n, q)| if *q == 0 { format!("p{n}") } else { format!("\"mailto:{n}\"") }).collect::<Vec<_>>().join(",");
        let text = format!("ATTENDEE;MEMBER={list}:mailto:x\n");
        st.step();
        st.state(&list);
        let plain = w.iter().all(|q| *q == 0);
        match ip::Property::try_from(text.as_str()).map(|p| tprop(&p)) {
            Ok(p) if p.val == "mailto:x" => Ok(()),
            other => {
                let doc = format!("BEGIN:A\n{text}END:A\n");
                let rejected = ip::read_components(&doc).is_err();
                if !plain && w.len() > 1 && w[0] == 1 && rejected {
                    known("KF-PARAM-QUOTED-LIST", "a parameter holding a list of quoted values makes the reader reject the document", doc)
                } else if !plain && w.len() > 1 && w[0] == 0 && !rejected {
                    known("KF-PARAM-LIST-MIXED", "a quoted value after a plain one in a parameter list is cut at its colon", doc)
                } else {
                    fail("list of parameter values", format!("{text:?} -> {other:?}"))
                }
            }
        }
    });
}
