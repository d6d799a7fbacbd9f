//! C15: value types follow VALUE, then the name, and only TEXT is transformed.
use super::c12::edits;
use super::gen::VOCABULARY;
use super::*;
use std::str::FromStr;

/// commas and semicolons separate the parts of these values
const LISTS: &[&str] = &["CATEGORIES", "RESOURCES", "REQUEST-STATUS"];

fn names() -> Vec<String> {
    let mut v: Vec<String> = TEXT_NAMES.iter().map(|s| s.to_string()).collect();
    v.extend(OTHER_TYPES.iter().map(|t| t.0.to_string()));
    v.sort();
    v.dedup();
    v
}
/// names that are none of the known ones
fn strangers() -> Vec<String> {
    let known = names();
    let mut v: Vec<String> = vec![];
    for n in &known {
        v.extend(edits(n, &['A', 'X', 'S', '-', '1', '.', '_']));
        v.push(format!("X-{n}"));
        v.push(format!("{n}-X"));
        v.push(format!("{n}{n}"));
        for (i, _) in n.match_indices('-') {
            v.push(n[..i].to_string());
            v.push(n[i + 1..].to_string());
        }
    }
    for n in gen::VOCABULARY.iter().copied().chain(["X-PUBLISHED-TTL", "ÄÖ", "IANA-PROP", "X-PROP"]) {
        v.push(n.into());
    }
    v.sort();
    v.dedup();
    // names in small letters and reserved ones are not decided here
    v.retain(|n| !n.is_empty() && !known.contains(&n.to_uppercase()) && !["BEGIN", "END"].contains(&n.to_uppercase().as_str()));
    v
}
fn quote(v: &str) -> String {
    if v.contains([':', ';']) { format!("\"{v}\"") } else { v.to_string() }
}
/// one property with one value: type, written form, reading
fn check(name: &str, value: Option<&str>, quoted: bool, text: &str, st: &mut Stats) -> R {
    check_as(name, value, quoted, text, type_of(name, value), st)
}
/// the same with the given type
fn check_as(name: &str, value: Option<&str>, quoted: bool, text: &str, exp: Option<&'static str>, st: &mut Stats) -> R {
    let mut p = MProp::new(name, text);
    if let Some(v) = value {
        p = p.with("VALUE", v);
    }
    let what = format!("{name};VALUE={value:?}:{text:?}");
    let built = p.build();
    same!("value type", what, exp, built.value_type().map(vt_name));
    st.state(&(name, value, text));
    // as a parameter the type is written and read back
    let param = match value {
        Some(v) if quoted || v.contains([':', ';', ',']) => format!(";VALUE=\"{v}\""),
        Some(v) => format!(";VALUE={v}"),
        None => String::new(),
    };
    // reading: whatever stands there
    if !text.contains('\n') && !value.is_some_and(|v| v.is_empty()) {
        let line = format!("{name}{param}:{text}");
        let got = read_prop(&line)?;
        let val = if exp == Some("TEXT") { unesc(text) } else { text.to_string() };
        same!("value read", line, val, got.val);
        let doc = format!("BEGIN:VEVENT\r\n{line}\r\nEND:VEVENT\r\n");
        let c = gen::parsed_all(&doc)?;
        same!("value read in a document", doc, val, c[0].properties[0].val.as_str());
        let typed = Property::from(c[0].properties[0].clone());
        same!("value converted", doc, val, typed.value());
        same!("value type converted", doc, exp, typed.value_type().map(vt_name));
        st.steps(3);
    }
    // writing: typed and parsed properties
    if exp == Some("TEXT") || !text.contains('\n') {
        let body = if exp == Some("TEXT") { esc(text) } else { text.to_string() };
        let out = prop_string(built)?;
        let lines = logical(&out)?;
        ensure!(lines.len() == 1, "one line per property", format!("{what}: {out:?}"));
        let l = read_line(&lines[0])?;
        same!("name written", what, name, l.name);
        same!("value written", what, norm_nl_escape(&body), norm_nl_escape(&l.raw));
        let raw = raw_prop(&p).to_string();
        let lines = logical(&raw)?;
        ensure!(lines.len() == 1, "one line per property", format!("{what}: {raw:?}"));
        let l = read_line(&lines[0])?;
        if exp == Some("TEXT") && LISTS.contains(&name) {
            // the separators of these may be kept as they are
            same!("value formatted", what, text, unesc(&l.raw));
        } else {
            same!("value formatted", what, norm_nl_escape(&body), norm_nl_escape(&l.raw));
        }
        let back = read_prop(&ip::unfold(raw.trim_end_matches("\r\n")))?;
        same!("value read again", what, text, back.val);
        st.steps(3);
    } else if !text.contains("\n ") {
        // a line break in another type breaks the line, but is not transformed either (C01)
        for out in [prop_string(built)?, raw_prop(&p).to_string()] {
            same!("value written", what, format!("{name}{}:{text}\r\n", value.map(|v| format!(";VALUE={}", quote(v))).unwrap_or_default()), out.replace("\r\n ", ""));
            st.step();
        }
    }
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("names are matched in capitals, the VALUE parameter occurs at most once; small letters in type names are left open");
    // the types and their names
    let all = vt_all();
    run.cases("type names", "all 14 types and names in both directions", all.len(), |i, st| {
        let t = all[i];
        let n = vt_name(t);
        same!("from text", n, Ok(t), ValueType::from_str(n).map_err(|_| ()));
        let p = Parameter::from(t);
        same!("as parameter", n, ("VALUE", n), (p.key(), p.value()));
        same!("from parameter", n, Ok(t), ValueType::try_from(p).map_err(|_| ()));
        for key in ["value", "VALUES", "VALU", "TYPE", "ENCODING", ""] {
            same!("from another parameter", key, true, ValueType::try_from(Parameter::new(key, n)).is_err());
        }
        let mut q = Property::new("X-Q", "v");
        q.append_parameter(t);
        same!("appended", n, MProp::new("X-Q", "v").with("VALUE", n), mprop(&q));
        same!("value type", n, Some(t), q.value_type());
        st.state(&n);
        st.steps(5);
        Ok(())
    });
    let mut wrong: Vec<String> = vec![];
    for t in TYPE_NAMES {
        wrong.extend(edits(t, &['A', 'E', 'T', '-', ' ', '_', ',', ';', ':']));
        wrong.push(t.replace('-', ""));
        wrong.push(format!("{t}{t}"));
        for u in TYPE_NAMES {
            wrong.push(format!("{t}{u}"));
            wrong.push(format!("{t}-{u}"));
            wrong.push(format!("{t},{u}"));
        }
    }
    wrong.push(String::new());
    wrong.extend(VOCABULARY.iter().map(|w| w.to_string()));
    let others = [
        "BASE64", "8BIT", "7BIT", "QUOTED-PRINTABLE", "STRING", "STR", "NUMBER", "INT", "LONG", "DOUBLE", "DECIMAL", "NUM", "BOOL", "LOGICAL", "UTC", "DATETIME", "DATE_TIME", "TIMESTAMP", "DAY", "CALADDRESS", "ADDRESS", "MAILTO", "EMAIL",
        "UTCOFFSET", "OFFSET", "URL", "LINK", "XML-REFERENCE", "UID", "UNKNOWN", "INTERVAL", "RRULE", "RULE", "DAYS", "BLOB", "BYTES", "DATA", "CONTENT-ID", "CID", "FREEBUSY", "SPAN", "RANGE", "PHONE-NUMBER", "VCARD", "LANGUAGE-TAG", "DATE-AND-OR-TIME",
        "LIST", "ENUM", "GEO", "X-TEXT", "X-NAME", "IANA-TOKEN", "ANY", "NONE", "NULL", "DEFAULT", "HTML", "TEXT/PLAIN", "STRUCTURED",
    ];
    wrong.extend(others.iter().map(|w| w.to_string()));
    wrong.sort();
    wrong.dedup();
    wrong.retain(|w| !TYPE_NAMES.contains(&w.to_uppercase().as_str()));
    run.cases("no type names", &format!("{} words near the type names", wrong.len()), wrong.len(), |i, st| {
        let w = &wrong[i];
        same!("from text", w, true, ValueType::from_str(w).is_err());
        same!("from parameter", w, true, ValueType::try_from(Parameter::new("VALUE", w)).is_err());
        for n in ["SUMMARY", "DTSTART", "X-Q"] {
            check(n, Some(w), false, "a\\,b\\n;c", st)?;
        }
        st.steps(2);
        Ok(())
    });
    // which type another case names is left open, but whatever it is, everything follows it
    let mut cases: Vec<(String, Option<String>)> = vec![];
    let lower = |n: &str| -> Vec<String> {
        let mut t = n.to_lowercase();
        let mut v = vec![t.clone()];
        t.replace_range(..1, &n[..1]);
        v.push(t);
        let mut t = n.to_string();
        t.replace_range(n.len() - 1.., &n[n.len() - 1..].to_lowercase());
        v.push(t);
        v
    };
    for t in TYPE_NAMES {
        for v in lower(t) {
            for n in ["SUMMARY", "DTSTART", "X-Q", "ATTACH", "CATEGORIES"] {
                cases.push((n.into(), Some(v.clone())));
            }
        }
    }
    for n in names() {
        for l in lower(&n) {
            for v in [None, Some("TEXT"), Some("DATE"), Some("text"), Some("uri")] {
                cases.push((l.clone(), v.map(|s| s.to_string())));
            }
        }
    }
    run.cases("other case", &format!("{} names and types in other case x 3 values: reading and writing agree with the value type told", cases.len()), cases.len() * 3, |i, st| {
        let (n, v) = &cases[i / 3];
        let v = v.as_deref();
        let mut p = MProp::new(n, "");
        if let Some(v) = v {
            p = p.with("VALUE", v);
        }
        let told = p.build().value_type().map(vt_name);
        if LISTS.contains(&n.to_uppercase().as_str()) && told == Some("TEXT") {
            return Ok(());
        }
        check_as(n, v, false, ["a\\,b\\n;c", "x,y;\\", "plain"][i % 3], told, st)
    });
    // names x VALUE x values
    let nm = names();
    let mut vs: Vec<Option<&str>> = TYPE_NAMES.iter().map(|t| Some(*t)).collect();
    vs.extend([None, Some("X-OWN"), Some(""), Some("TEXT2"), Some("TEX")]);
    let mut values: Vec<String> = ["plain", "a\\;b\\:c\\x", "é😀", "20240101", " x "].iter().map(|s| s.to_string()).collect();
    let va = ["a", "\\", ",", ";", "n", "\n", ":"];
    let k = run.q(2, 4);
    values.extend((0..words_upto(va.len(), k)).map(|i| spell(i, &va)));
    run.cases("names and types", &format!("{} names x {} VALUE parameters x quoted or not x {} values", nm.len(), vs.len(), values.len()), nm.len() * vs.len() * 2 * values.len(), |i, st| {
        let mut d = Dec(i);
        let quoted = d.bool();
        let val = values[d.n(values.len())].as_str();
        let v = vs[d.n(vs.len())];
        st.note(|| format!("{} {v:?} {val:?}", nm[d.0]));
        check(&nm[d.0], v, quoted, val, st)
    });
    let sp = big::special();
    run.cases("special values", &format!("{} names x {} VALUE parameters x {} special texts", nm.len(), vs.len(), sp.len()), nm.len() * vs.len() * sp.len(), |i, st| {
        let mut d = Dec(i);
        let v = vs[d.n(vs.len())];
        let t = sp[d.n(sp.len())];
        check(&nm[d.0], v, false, t, st)
    });
    // the type does not depend on where VALUE stands and what the other parameters say
    let others = ["", ";X=TEXT", ";TZID=TEXT", ";ENCODING=BASE64", ";K", ";FMTTYPE=text/plain", ";VALUES=TEXT", ";XVALUE=DATE", ";K=\"VALUE=TEXT\"", ";K=\";VALUE=TEXT\"", ";A=1;B=2"];
    let m = others.len();
    run.cases("among other parameters", &format!("{} names x {} VALUE parameters x {m} parameters before and after", nm.len(), vs.len()), nm.len() * vs.len() * m * m, |i, st| {
        let mut d = Dec(i);
        let (a, b) = (others[d.n(m)], others[d.n(m)]);
        let v = vs[d.n(vs.len())];
        let name = &nm[d.0];
        let exp = type_of(name, v);
        let text = "a\\,b\\n\\\\;c,d";
        let val = if exp == Some("TEXT") { unesc(text) } else { text.to_string() };
        let p = v.map(|v| if v.is_empty() { ";VALUE".to_string() } else { format!(";VALUE={v}") }).unwrap_or_default();
        let line = format!("{name}{a}{p}{b}:{text}");
        st.state(&line);
        let got = read_prop(&line)?;
        same!("value read", line, val, got.val);
        let typed = match line.parse::<Property>() {
            Ok(p) => p,
            Err(e) => return fail("line rejected", format!("{line} {e}")),
        };
        same!("value type", line, exp, typed.value_type().map(vt_name));
        let again = read_prop(ip::unfold(&prop_string(typed)?).trim_end_matches("\r\n"))?;
        same!("value read again", line, val, again.val);
        st.steps(3);
        Ok(())
    });
    // every known parameter beside it, with values that could pass for a type
    let ps: Vec<&str> = super::gen::PARAMETERS.iter().copied().filter(|p| *p != "VALUE").collect();
    let few = ["SUMMARY", "URL", "X-Q", "DTSTART", "ATTACH", "CATEGORIES"];
    let types = [None, Some("TEXT"), Some("URI"), Some("DATE"), Some("X-OWN")];
    let pv = ["", "=v", "=TEXT", "=\"URI\"", "=BASE64", "=8BIT"];
    run.cases("beside known parameters", &format!("{} names x {} VALUE parameters x {} other parameters x {} values, before or after", few.len(), types.len(), ps.len(), pv.len()), few.len() * types.len() * ps.len() * pv.len() * 2, |i, st| {
        let mut d = Dec(i);
        let before = d.bool();
        let o = format!(";{}{}", ps[d.n(ps.len())], d.of(&pv));
        let v = types[d.n(types.len())];
        let name = d.of(&few);
        let exp = type_of(name, v);
        let text = "a\\,b\\n\\\\;c,d";
        let val = if exp == Some("TEXT") { unesc(text) } else { text.to_string() };
        let p = v.map(|v| format!(";VALUE={v}")).unwrap_or_default();
        let line = if before { format!("{name}{o}{p}:{text}") } else { format!("{name}{p}{o}:{text}") };
        st.state(&line);
        same!("value read", line, val, read_prop(&line)?.val);
        let typed = match line.parse::<Property>() {
            Ok(p) => p,
            Err(e) => return fail("line rejected", format!("{line} {e}")),
        };
        same!("value type", line, exp, typed.value_type().map(vt_name));
        same!("value read again", line, val, read_prop(ip::unfold(&prop_string(typed)?).trim_end_matches("\r\n"))?.val);
        st.steps(3);
        Ok(())
    });
    let sn = strangers();
    run.cases("other names", &format!("{} names near the known ones x 4 VALUE parameters x 3 values", sn.len()), sn.len() * 12, |i, st| {
        let mut d = Dec(i);
        let v = [None, Some("TEXT"), Some("URI"), Some("X-OWN")][d.n(4)];
        let val = ["a\\,b;\\n,c", "\\\\", "x"][d.n(3)];
        check(&sn[d.0], v, false, val, st)
    });
    // values in depth, for one name of each sort
    let alpha = ["a", "\\", ",", ";", "n", "N", ":", "\n", "\"", " "];
    let k = run.q(5, 6);
    let combos: Vec<(&str, Option<&str>)> = vec![
        ("SUMMARY", None),
        ("SUMMARY", Some("URI")),
        ("SUMMARY", Some("X-OWN")),
        ("URL", None),
        ("URL", Some("TEXT")),
        ("X-Q", None),
        ("X-Q", Some("TEXT")),
        ("X-Q", Some("DATE-TIME")),
        ("CATEGORIES", None),
        ("X-WR-CALNAME", None),
        ("STREET-ADDRESS", None),
        ("GEO", None),
        ("RRULE", None),
        ("REQUEST-STATUS", None),
    ];
    run.cases("values", &format!("all words of length <= {k} over {} symbols x {} names and types", alpha.len(), combos.len()), words_upto(alpha.len(), k) * combos.len(), |i, st| {
        let (n, v) = combos[i % combos.len()];
        check(n, v, false, &spell(i / combos.len(), &alpha), st)
    });
    let top = run.q(0x2400, SCALARS);
    run.cases("every character", &format!("the first {top} Unicode scalar values in a value x 3 types"), top / 64 + 1, |i, st| {
        for j in i * 64..((i + 1) * 64).min(top) {
            for (n, v) in [("URL", None), ("X-Q", None), ("SUMMARY", None)] {
                check(n, v, false, &format!("a{}\\{}", scalar(j), scalar(j)), st)?;
            }
        }
        Ok(())
    });
}
