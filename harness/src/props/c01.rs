//! C01: framing and folding of everything that is serialized.
use super::*;

const SYMS: &[&str] = &["a", "é", "€", "😀", " ", "\t", "\u{3000}", "\u{85}"];
const UNI: &[&str] =
    &["a", "é", "€", "😀", " ", "\t", "\u{3000}", "\u{a0}", "\u{85}", "\u{2028}", ",", ";", "\\", "\n", "\r", ":", "\u{feff}", "\u{0}"];

/// writes name:val as typed property, parsed property; compares with the logical line
fn both(name: &str, params: &[(&str, &str)], val: &str, st: &mut Stats) -> R {
    let mut m = MProp::new(name, val);
    for (k, v) in params {
        m = m.with(k, v);
    }
    let esc_val = m.written();
    let expect_params: Vec<(String, String)> = params
        .iter()
        .map(|(k, v)| (k.to_string(), if v.contains([':', ';']) { format!("\"{v}\"") } else { v.to_string() }))
        .collect();
    let rp = ip::Property {
        name: name.to_string().into(),
        val: val.to_string().into(),
        params: params
            .iter()
            .map(|(k, v)| ip::Parameter { key: k.to_string().into(), val: Some(v.to_string().into()) })
            .collect(),
    };
    for (who, out) in [("built property", prop_string(m.build())?), ("parsed property", rp.to_string())] {
        st.step();
        let l = logical(&out)?;
        ensure!(l.len() == 1, format!("{who}: not one logical line"), format!("{:?}", clip(&out)));
        // name, parameters in any order, value
        let line = &l[0];
        let ok_val = line.ends_with(&format!(":{esc_val}"))
            || norm_nl_escape(line).ends_with(&norm_nl_escape(&format!(":{esc_val}")));
        let head = &line[..line.len().saturating_sub(esc_val.len() + 1)];
        let mut exp: Vec<String> = expect_params.iter().map(|(k, v)| format!(";{k}={v}")).collect();
        exp.sort();
        let mut got: Vec<String> =
            param_spellings(&format!("{head}:")).into_iter().map(|(k, v)| format!(";{k}={v}")).collect();
        got.sort();
        ensure!(
            ok_val && head.starts_with(name) && got == exp && head.len() == name.len() + exp.iter().map(|s| s.len()).sum::<usize>(),
            format!("{who}: unfolding does not give back the logical line"),
            format!("name {name:?} params {params:?} value {:?}\nunfolded: {:?}\nraw: {:?}", clip(val), clip(line), clip(&out))
        );
        let real = ip::unfold(&out);
        ensure!(
            real == format!("{line}\r\n"),
            format!("{who}: the library does not unfold its own output"),
            format!("raw: {:?}\nunfolded by library: {:?}", clip(&out), clip(&real))
        );
        st.state(&(who, out.split("\r\n").map(|x| x.len()).collect::<Vec<_>>()));
    }
    st.note(|| format!("{name}{params:?}:{val:?}"));
    Ok(())
}

fn check_framing(out: &str) -> Result<usize, Fail> {
    Ok(logical(out)?.len())
}

pub fn run(run: &Run) {
    run.assume("values of untyped properties contain no line feed (see known finding KF-UNTYPED-LF), names and parameters are well-formed");
    // all values of one repeated symbol, all lengths, several prefix lengths
    let maxlen = run.q(420, 3000);
    let names = ["X", "X-F", "DESCRIPTION", "SUMMARY", "X-A-RATHER-LONG-PROPERTY-NAME-THAT-TAKES-ROOM", "COMMENT"];
    run.cases(
        "uniform values",
        &format!("18 symbols x lengths 0..={maxlen} x 6 names"),
        UNI.len() * (maxlen + 1) * names.len(),
        |i, st| {
            let mut d = Dec(i);
            let name = d.of(&names);
            let sym = d.of(UNI);
            let len = d.0;
            if sym == "\n" && type_of(name, None) != Some("TEXT") {
                return Ok(());
            }
            both(name, &[], &sym.repeat(len), st)
        },
    );
    let big = sizes(0, run.q(20_000, 200_000));
    let part = [("X-P", "value"), ("DESCRIPTION", "value"), ("X-P", "parameter"), ("", "name")];
    run.cases(
        "large sizes",
        &format!("values, parameter values and names of {} lengths up to {} of 8 repeated symbols, each with and without one octet in front", big.len(), big[big.len() - 1]),
        8 * big.len() * part.len() * 2,
        |i, st| {
            let mut d = Dec(i);
            let shift = d.n(2);
            let (name, what) = part[d.n(part.len())];
            let k = d.n(8);
            let n = big[d.0];
            match what {
                "value" => both(name, &[], &format!("{}{}", "x".repeat(shift), ["a", "é", "€", "😀", " ", "\u{3000}", ",", "\u{a0}€"][k].repeat(n)), st),
                "parameter" => both(name, &[("P", &format!("{}{}", "x".repeat(shift), ["a", "é", "€", "😀", " ", "\u{3000}", ":", "\u{a0}€"][k].repeat(n)))], "v", st),
                _ => both(&["A", "B", "-", "é", "Z9", "X-", "€", "😀"][k].repeat(n + 1), &[], "v", st),
            }
        },
    );
    // all pairs of symbols, periodic, shifted
    let plen = run.q(100, 400);
    run.cases(
        "periodic pairs",
        &format!("ordered pairs of 18 symbols x shifts 0..3 x lengths 30..{plen} step 5"),
        18 * 18 * 4 * ((plen - 30) / 5),
        |i, st| {
            let mut d = Dec(i);
            let (a, b, sh, n) = (d.of(UNI), d.of(UNI), d.n(4), d.0 * 5 + 30);
            both("DESCRIPTION", &[], &format!("{}{}", "x".repeat(sh), format!("{a}{b}").repeat(n)), st)
        },
    );
    // all words across each of the first fold boundaries
    let k = run.q(4, 5);
    let words = words_upto(SYMS.len(), k);
    let bounds = [75usize, 149, 223];
    let tails = [0usize, 1, 2, 72, 73, 74, 75, 150];
    let offs = 14;
    run.cases(
        "words across fold boundaries",
        &format!("words of <= {k} of 8 symbols x offsets -12..=1 at boundaries 75,149,223 x 8 tail lengths"),
        words * bounds.len() * offs * tails.len(),
        |i, st| {
            let mut d = Dec(i);
            let tail = tails[d.n(tails.len())];
            let off = d.n(offs);
            let b = bounds[d.n(bounds.len())];
            let w = spell(d.0, SYMS);
            let fill = b + 1 - "SUMMARY:".len() - off;
            both("SUMMARY", &[], &format!("{}{}{}", "x".repeat(fill), w, "y".repeat(tail)), st)
        },
    );
    // same, with the whole line made of multi-octet filler so that boundaries drift
    let words = words_upto(SYMS.len(), 3);
    run.cases(
        "words in multi-octet text",
        "words of <= 3 of 8 symbols x 6 fillers x filler lengths 0..80",
        words * 6 * 80,
        |i, st| {
            let mut d = Dec(i);
            let f = d.of(&["é", "€", "😀", " ", "€a", "\u{3000}é"]);
            let n = d.n(80);
            let w = spell(d.0, SYMS);
            both("X-P", &[], &format!("{}{}{}", f.repeat(n), w, f.repeat(100 - n)), st)
        },
    );
    // every scalar value on a boundary
    run.cases("every scalar value", "1112064 scalars, straddling the first and the second boundary", SCALARS, |i, st| {
        let c = scalar(i);
        let v = format!("{}{c}{}{c}{}", "x".repeat(60 + i % 8), "y".repeat(65 + (i / 8) % 8), "z".repeat(i % 3));
        both("COMMENT", &[], &v, st)
    });
    // long names and parameters
    run.cases(
        "long names and parameters",
        "name lengths 1..=160 x parameter value lengths 0..=160 (step 1/4) x 3 symbols x value lengths {0,1,80}",
        160 * 41 * 3 * 3,
        |i, st| {
            let mut d = Dec(i);
            let vl = [0, 1, 80][d.n(3)];
            let sym = d.of(&["p", "é", ":"]);
            let pl = d.n(41) * 4;
            let name = "N".repeat(1 + d.0);
            let pv = sym.repeat(pl);
            both(&name, &[("P", &pv)], &"v".repeat(vl), st)
        },
    );
    run.cases("several parameters", "1..=40 parameters x 4 value shapes", 40 * 4, |i, st| {
        let mut d = Dec(i);
        let shape = d.of(&["v", "a:b", "", "mailto:long-address-of-someone@example.com;x"]);
        let ks: Vec<String> = (0..d.0 + 1).map(|k| format!("K{k}")).collect();
        let ps: Vec<(&str, &str)> = ks.iter().map(|k| (k.as_str(), shape)).collect();
        both("X-MANY", &ps, "value", st)
    });
    // whole documents: long component names, nested components, all positions of long lines
    let nls: Vec<usize> = (1..=170).chain(sizes(0, 10_000).into_iter().filter(|n| *n > 170)).collect();
    run.cases(
        "documents",
        &format!("component name lengths 1..=170 and {} larger ones up to {} x nesting 1..=3 x value lengths 0,70,200; built and parsed writers", nls.len() - 170, nls[nls.len() - 1]),
        nls.len() * 3 * 3,
        |i, st| {
            let mut d = Dec(i);
            let vl = [0usize, 70, 200][d.n(3)];
            let depth = d.n(3) + 1;
            let nl = nls[d.0];
            let mut m = MComp::new(&"N".repeat(nl));
            for k in 0..depth {
                let mut o = MComp::new(if k == 0 { "X-LEAF" } else { "VEVENT" });
                if k == 0 {
                    o.kind = "N".repeat(nl)
                }
                o.set(MProp::new("SUMMARY", &"é ".repeat(vl)));
                o.set(MProp::new("UID", "u"));
                o.set(MProp::new("DTSTAMP", "20200101T000000Z"));
                o.add_multi(MProp::new("ATTENDEE", &"m".repeat(vl)).with("CN", &"c:".repeat(vl / 2)));
                if k > 0 {
                    o.kids.push(m.clone())
                }
                m = o;
            }
            let cal = MCal { props: vec![MProp::new("X-WR-CALNAME", &"\n".repeat(vl))], comps: vec![m.clone()] };
            let out = calendar(&cal).to_string();
            st.step();
            check_written_cal(&cal, &out, &mut vec![])?;
            let parsed = ip::Calendar {
                properties: cal.props.iter().map(raw_prop).collect(),
                components: cal.comps.iter().map(raw_comp).collect(),
            };
            let out2 = parsed.to_string();
            st.step();
            check_written_cal(&cal, &out2, &mut vec![])?;
            st.state(&out);
            st.note(|| out.clone());
            Ok(())
        },
    );
    big::stage(run, true, 1, |t, st| {
        let m = big::big_cal(t);
        let out = calendar(&m).to_string();
        check_written_cal(&m, &out, &mut vec![])?;
        let parsed = ip::Calendar { properties: t.props.iter().map(raw_tprop).collect(), components: t.kids.iter().map(raw_tree).collect() };
        let out = parsed.to_string();
        let n = check_framing(&out)?;
        fn count(t: &Tree) -> usize {
            2 + t.props.len() + t.kids.iter().map(count).sum::<usize>()
        }
        same!("logical lines of a parsed tree", "", count(t), n);
        st.steps(2);
        st.state(&out);
        Ok(())
    });
    // untyped properties containing line feeds
    let al = &["a", "\n", " ", "\r"];
    run.cases("line feeds in untyped values", "words of <= 5 over a, LF, space, CR", words_upto(4, 5), |i, st| {
        let w = spell(i, al);
        let m = MProp::new("X-F", &w);
        st.step();
        let out = prop_string(m.build())?;
        st.state(&out);
        if !w.contains('\n') {
            let l = logical(&out)?;
            same!("untyped value", w, l, vec![format!("X-F:{w}")]);
            return Ok(());
        }
        match logical(&out) {
            Ok(_) => Ok(()), // written in some framed way: C15/C04 judge the content
            Err(e) if out == format!("X-F:{w}\r\n") => {
                known("KF-UNTYPED-LF", "a line feed in the value of a property of unknown type is written raw and breaks the framing", e.detail)
            }
            Err(e) => Err(e),
        }
    });
}
