//! C02: TEXT escaping and unescaping.
use super::*;

const SYMS: &[&str] = &["a", "\\", ",", ";", "\n", "n", "N", ":", "\r", "\"", " "];

/// writes a TEXT value and reads it back along all paths
fn trip(m: &MProp, st: &mut Stats) -> R {
    let out = prop_string(m.build())?;
    st.step();
    let l = logical(&out)?;
    ensure!(l.len() == 1, "TEXT value not on one logical line", format!("{m:?} {:?}", clip(&out)));
    let w = read_line(&l[0])?;
    // written form: exactly the four characters escaped
    ensure!(
        norm_nl_escape(&w.raw) == norm_nl_escape(&esc(&m.val)),
        "TEXT value not escaped as specified",
        format!("value {:?}\nexpected {:?}\nwritten  {:?}", clip(&m.val), clip(&esc(&m.val)), clip(&w.raw))
    );
    let back = read_prop(&format!("{}\r\n", l[0]))?;
    st.step();
    same!("TEXT value changed by writing and reading", format!("{m:?}"), m.val, back.val);
    // the reserializer writes what was parsed
    let r = ip::Property::try_from(l[0].as_str()).map_err(|e| Fail { known: None, what: "unreadable".into(), detail: e })?;
    let again = logical(&r.to_string())?;
    st.step();
    ensure!(again.len() == 1, "reserialized TEXT value not on one line", format!("{again:?}"));
    let back = read_prop(&format!("{}\r\n", again[0]))?;
    same!("TEXT value changed by reserializing and reading", format!("{m:?}"), m.val, back.val);
    // and parsed into the typed property
    let t: Property = match format!("{}\r\n", l[0]).parse() {
        Ok(p) => p,
        Err(e) => return fail("written property does not parse", format!("{m:?} {e}")),
    };
    same!("TEXT value changed on the typed side", format!("{m:?}"), m.val, t.value());
    st.state(&m.val);
    st.note(|| format!("{:?} written {:?}", m.val, l[0]));
    Ok(())
}

pub fn run(run: &Run) {
    let k = run.q(5, 6);
    run.cases(
        "words",
        &format!("words of <= {k} over backslash , ; LF n N : CR quote space a"),
        words_upto(SYMS.len(), k),
        |i, st| trip(&MProp::new("DESCRIPTION", &spell(i, SYMS)), st),
    );
    run.cases("every scalar value", "1112064 scalars alone and after a backslash", SCALARS, |i, st| {
        let c = scalar(i);
        trip(&MProp::new("SUMMARY", &format!("{c}\\{c}x{c}")), st)
    });
    run.cases(
        "every TEXT property",
        "31 TEXT names and VALUE=TEXT on 4 other names x words of <= 3, single and repeatable, inside a calendar",
        35 * words_upto(SYMS.len(), 3),
        |i, st| {
            let mut d = Dec(i);
            let n = d.n(35);
            let v = spell(d.0, SYMS);
            let m = if n < 31 {
                MProp::new(TEXT_NAMES[n], &v)
            } else {
                MProp::new(["X-FOO", "DTSTART", "URL", "x-lower"][n - 31], &v).with("VALUE", "TEXT")
            };
            trip(&m, st)?;
            // inside a document
            let mut e = MComp::new("VEVENT");
            e.set(MProp::new("UID", "1"));
            e.set(MProp::new("DTSTAMP", "20200101T000000Z"));
            let multi = MULTI.contains(&m.key.as_str());
            if multi {
                e.add_multi(m.clone());
            } else {
                e.set(m.clone());
            }
            let out = Calendar::from(event(&e)).push(venue(&e)).append_property(m.build()).to_string();
            st.step();
            let cal: Calendar = match out.parse() {
                Ok(c) => c,
                Err(e) => return fail("calendar with TEXT value does not parse", format!("{m:?} {e}")),
            };
            same!("TEXT value in calendar property", format!("{m:?}"), cal.properties.iter().map(mprop).collect::<Vec<_>>().last(), Some(&m));
            for c in &cal.components {
                let c = mcomp_cc(c).1;
                let got = if multi { c.multi.get(&m.key).and_then(|v| v.first()) } else { c.props.get(&m.key) };
                same!("TEXT value in component", format!("{m:?}"), got, Some(&m));
            }
            Ok(())
        },
    );
    let raw = &["a", "\\", ",", ";", ":", "n", "N", "é", "r"];
    let k = run.q(6, 7);
    run.cases("decoding raw text", &format!("words of <= {k} over a \\ , ; : n N é r"), words_upto(raw.len(), k), |i, st| {
        let w = spell(i, raw);
        let exp = unesc(&w);
        st.step();
        let got = ip::ParseString::from(w.as_str()).unescape_text();
        same!("decoded text", format!("{w:?}"), exp, got.as_str());
        if i % 16 == 0 || w.len() <= 4 {
            st.step();
            let p = read_prop(&format!("LOCATION:{w}\n"))?;
            same!("decoded TEXT value", format!("{w:?}"), exp, p.val);
            let p = read_prop(&format!("X-LOC:{w}\n"))?;
            same!("value of unknown type is not decoded", format!("{w:?}"), w, p.val);
        }
        st.state(&exp);
        Ok(())
    });
    run.cases("decoding every escaped scalar", "backslash followed by each of 1112064 scalars", SCALARS, |i, st| {
        let c = scalar(i);
        let w = format!("\\{c}\\\\{c}");
        st.step();
        same!("decoded text", format!("{w:?}"), unesc(&w), ip::ParseString::from(w.as_str()).unescape_text().as_str());
        st.state(&unesc(&w));
        Ok(())
    });
    let kk = run.q(2, 3);
    run.cases(
        "escapes across fold boundaries",
        &format!("words of <= {kk} at fillers 50..=80 and 124..=154, as ASCII or two-octet text"),
        words_upto(SYMS.len(), kk) * 62 * 2,
        |i, st| {
            let mut d = Dec(i);
            let f = d.of(&["x", "é"]);
            let n = d.n(62);
            let n = if n < 31 { 50 + n } else { 124 + n - 31 } / f.len();
            let w = spell(d.0, SYMS);
            trip(&MProp::new("DESCRIPTION", &format!("{}{w}{}", f.repeat(n), "tail, of; the\\value\n".repeat(5))), st)
        },
    );
    let sp = big::special();
    run.cases("special texts", &format!("all ordered pairs of {} special texts, joined directly and by a line break", sp.len()), sp.len() * sp.len(), |i, st| {
        let (a, b) = (sp[i / sp.len()], sp[i % sp.len()]);
        trip(&MProp::new("DESCRIPTION", &format!("{a}{b}")), st)?;
        trip(&MProp::new("SUMMARY", &format!("{a}\n{b}")).with("K", "v"), st)
    });
    run.cases(
        "long texts",
        "each symbol and each pair of symbols repeated to 1..=4096 (powers of two +-1)",
        11 * 12 * 37,
        |i, st| {
            let mut d = Dec(i);
            let a = d.of(SYMS);
            let b = d.n(12);
            let b = if b == 11 { "" } else { SYMS[b] };
            let e = d.0;
            let n = ((1usize << (e / 3)) + e % 3).saturating_sub(1).min(run.q(600, 5000));
            trip(&MProp::new("COMMENT", &format!("{a}{b}").repeat(n)), st)
        },
    );
    let lens = sizes(0, run.q(70_000, 300_000));
    run.cases(
        "very long texts",
        &format!("{} lengths up to {} with each of 6 symbols first, last, in the middle, everywhere or nowhere", lens.len(), lens[lens.len() - 1]),
        lens.len() * 6 * 5,
        |i, st| {
            let mut d = Dec(i);
            let c = d.of(&["\\", ",", ";", "\n", "\\n", "\r\n"]);
            let at = d.n(5);
            let n = lens[d.0];
            let (x, y) = (n / 2, n - n / 2);
            let v = match at {
                0 => format!("{c}{}", "a".repeat(n)),
                1 => format!("{}{c}", "a".repeat(n)),
                2 => format!("{}{c}{}", "a".repeat(x), "b".repeat(y)),
                3 => format!("ab{c}").repeat(n / (2 + c.len()) + 1),
                _ => "é".repeat(x) + &"c".repeat(y),
            };
            trip(&MProp::new(["SUMMARY", "COMMENT", "X-WR-CALDESC"][n % 3], &v), st)
        },
    );
}
