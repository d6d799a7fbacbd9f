//! C17: parsed trees survive a JSON round trip.
use super::gen::*;
use super::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

fn j_param((k, v): &(String, Option<String>)) -> Value {
    json!({"key": k, "val": v})
}
fn j_prop(p: &TProp) -> Value {
    json!({"name": p.name, "val": p.val, "params": p.params.iter().map(j_param).collect::<Vec<_>>()})
}
fn j_comp(t: &Tree) -> Value {
    json!({"name": t.name, "properties": t.props.iter().map(j_prop).collect::<Vec<_>>(), "components": t.kids.iter().map(j_comp).collect::<Vec<_>>()})
}
fn j_cal(t: &Tree) -> Value {
    json!({"properties": t.props.iter().map(j_prop).collect::<Vec<_>>(), "components": t.kids.iter().map(j_comp).collect::<Vec<_>>()})
}

/// one object through every way of JSON, against the expected JSON
fn trip<T: Serialize + DeserializeOwned, V: PartialEq + std::fmt::Debug>(
    what: &str,
    x: &T,
    json: &Value,
    view: impl Fn(&T) -> V,
    st: &mut Stats,
) -> R {
    let want = view(x);
    let err = |w: &str, e: String| -> R { fail(format!("{w} failed"), format!("{what}: {e}")) };
    let text = match serde_json::to_string(x) {
        Ok(t) => t,
        Err(e) => return err("serializing", e.to_string()),
    };
    match serde_json::from_str::<Value>(&text) {
        Ok(v) => same!("JSON text", what, *json, v),
        Err(e) => return err("reading the JSON as a value", e.to_string()),
    }
    match serde_json::to_value(x) {
        Ok(v) => same!("JSON value", what, *json, v),
        Err(e) => return err("serializing to a value", e.to_string()),
    }
    let pretty = serde_json::to_string_pretty(x).unwrap_or_default();
    let back: [(&str, Result<T, serde_json::Error>); 6] = [
        ("from_str", serde_json::from_str(&text)),
        ("from_slice", serde_json::from_slice(text.as_bytes())),
        ("from_reader", serde_json::from_reader(text.as_bytes())),
        ("from_value", serde_json::from_value(json.clone())),
        ("from_str of the pretty text", serde_json::from_str(&pretty)),
        ("from_str of the expected JSON", serde_json::from_str(&json.to_string())),
    ];
    for (how, r) in back {
        st.step();
        match r {
            Ok(y) => same!(format!("changed by JSON ({how})"), what, want, view(&y)),
            Err(e) => return err(how, format!("{e}\n{text}")),
        }
    }
    st.state(&text);
    st.note(|| text.clone());
    Ok(())
}
fn wrapped(c: &ip::Component<'static>) -> String {
    ip::Calendar { properties: vec![], components: vec![c.clone()] }.to_string()
}
fn check_prop(p: &TProp, st: &mut Stats) -> R {
    let what = format!("{p:?}");
    let raw = raw_tprop(p);
    for (q, m) in raw.params.iter().zip(&p.params) {
        trip(&what, q, &j_param(m), |q: &ip::Parameter<'static>| q.clone(), st)?;
    }
    trip(&what, &raw, &j_prop(p), |q: &ip::Property<'static>| (q.clone(), tprop(q), q.to_string()), st)
}
fn check_tree(t: &Tree, st: &mut Stats) -> R {
    let what = format!("{t:?}");
    let raw = raw_tree(t);
    trip(&what, &raw, &j_comp(t), |c: &ip::Component<'static>| (c.clone(), tree(c), wrapped(c)), st)?;
    let cal = ip::Calendar { properties: raw.properties.clone(), components: raw.components.clone() };
    trip(&what, &cal, &j_cal(t), |c: &ip::Calendar<'static>| (c.properties.clone(), c.components.clone(), c.to_string()), st)
}
/// borrowed trees as parsing makes them, through JSON into owned ones
fn check_doc(text: &str, trees: &[Tree], st: &mut Stats) -> R {
    let comps = parsed_all(text)?;
    let js: Value = match serde_json::to_value(&comps) {
        Ok(v) => v,
        Err(e) => return fail("serializing failed", format!("{text:?}: {e}")),
    };
    same!("JSON of the components", text, Value::Array(trees.iter().map(j_comp).collect()), js);
    let s = serde_json::to_string(&comps).unwrap_or_default();
    let back: Vec<ip::Component<'static>> = match serde_json::from_str::<Vec<ip::Component>>(&s) {
        Ok(b) => serde_json::from_value(serde_json::to_value(&b).unwrap_or_default()).unwrap_or_default(),
        Err(e) => return fail("deserializing failed", format!("{text:?}: {e}")),
    };
    ensure!(back == comps, "components changed by JSON", text.to_string());
    let cal = match ip::read_calendar(text) {
        Ok(c) => c,
        Err(e) => return fail("well-formed document rejected", e),
    };
    let s = serde_json::to_string(&cal).unwrap_or_default();
    st.steps(3);
    match serde_json::from_str::<ip::Calendar>(&s) {
        Ok(b) => {
            same!("calendar changed by JSON", text, tree_of_cal(&cal), tree_of_cal(&b));
            ensure!(b.properties == cal.properties && b.components == cal.components, "calendar changed by JSON", text.to_string());
            same!("text after JSON", text, cal.to_string(), b.to_string());
            // and the typed calendar
            ensure!(Calendar::from(b) == Calendar::from(cal), "typed calendar changed by JSON", text.to_string());
        }
        Err(e) => return fail("deserializing failed", format!("{text:?}: {e}")),
    }
    st.state(&s);
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("JSON by serde_json; the order of the fields within a JSON object is left open");
    // every scalar in every text field
    run.cases("every character", "every Unicode scalar value in each of the 5 text fields", SCALARS, |i, st| {
        let c = scalar(i);
        let s = format!("a{c}b");
        let p = TProp {
            name: s.clone(),
            params: vec![(s.clone(), Some(s.clone())), (c.to_string(), None), (s.clone(), Some(c.to_string()))],
            val: c.to_string(),
        };
        let t = Tree { name: s.clone(), props: vec![p.clone(), tp("SUMMARY", &[], &s)], kids: vec![Tree { name: c.to_string(), props: vec![], kids: vec![] }] };
        let raw = raw_tree(&t);
        let js = match serde_json::to_string(&raw) {
            Ok(j) => j,
            Err(e) => return fail("serializing failed", e.to_string()),
        };
        match serde_json::from_str::<Value>(&js) {
            Ok(v) => same!("JSON text", js, j_comp(&t), v),
            Err(e) => return fail("reading the JSON as a value", format!("{js}: {e}")),
        }
        match serde_json::from_str::<ip::Component<'static>>(&js) {
            Ok(b) => {
                same!("changed by JSON", js, t, tree(&b));
                ensure!(raw == b, "changed by JSON", js);
            }
            Err(e) => return fail("deserializing failed", format!("{js}: {e}")),
        }
        st.steps(2);
        st.state(&js);
        Ok(())
    });
    let alpha = ["a", "\"", "\\", "n", "u", "/", "\n", "\r", "\u{0}", "é", "😀", "\u{2028}", ":", ";", ",", " "];
    let n = run.q(3, 4);
    let total = words_upto(alpha.len(), n);
    run.cases("texts", &format!("all texts of <= {n} of 16 characters in every field"), total, |i, st| {
        let s = spell(i, &alpha);
        let p = TProp { name: s.clone(), params: vec![(s.clone(), Some(s.clone())), (s.clone(), None)], val: s.clone() };
        check_prop(&p, st)?;
        let mut q = p.clone();
        q.name = "SUMMARY".into();
        q.params.clear();
        check_tree(&Tree { name: s.clone(), props: vec![p, q], kids: vec![Tree { name: s, props: vec![], kids: vec![] }] }, st)
    });
    // shapes of a property
    let vals = ["", "v", "null", "a:b;c,d\n\\"];
    let pvals = [None, Some(""), Some("v"), Some("null"), Some("a:b,c;d")];
    let np = run.q(4, 5);
    let total = words_upto(pvals.len(), np) * vals.len();
    run.cases("parameter lists", &format!("all lists of <= {np} of 5 parameters x 4 values x 2 names"), total, |i, st| {
        let v = vals[i % vals.len()];
        let w = word(i / vals.len(), pvals.len());
        for name in ["SUMMARY", "X-P"] {
            for keys in [["K", "K", "K", "K", "K"], ["B", "A", "VALUE", "B", "C"]] {
                let p = TProp {
                    name: name.into(),
                    val: v.into(),
                    params: w.iter().zip(keys).map(|(x, k)| (k.to_string(), pvals[*x].map(|s| s.to_string()))).collect(),
                };
                check_prop(&p, st)?;
            }
        }
        Ok(())
    });
    // shapes of a tree
    let n = run.q(5, 6);
    let mut shapes = vec![];
    for k in 1..=n {
        for f in forests(k) {
            for lab in 0..(3usize.pow(k as u32)) {
                shapes.push((f.clone(), lab));
            }
        }
    }
    run.cases("shapes", &format!("all forests of <= {n} components with 3 labels"), shapes.len(), |i, st| {
        let (f, lab) = &shapes[i];
        let trees = forest(
            f,
            |i, _| {
                let l = lab / 3usize.pow(i as u32) % 3;
                Tree {
                    name: ["VEVENT", "name", "VEVENT"][l].into(),
                    props: match l {
                        0 => vec![],
                        1 => vec![tp("A", &[], "1"), tp("components", &[("K", None)], ""), tp("A", &[], "1")],
                        _ => vec![tp("B", &[("K", Some("")), ("K", Some("v"))], &format!("{i}"))],
                    },
                    kids: vec![],
                }
            },
            |p, c| p.kids.push(c),
        );
        for t in &trees {
            check_tree(t, st)?;
        }
        check_tree(&Tree { name: "VCALENDAR".into(), props: vec![tp("VERSION", &[], "2.0")], kids: trees }, st)
    });
    let cat = catalogue();
    run.cases("catalogue", "pairs of the properties of the catalogue", cat.len() * cat.len(), |i, st| {
        let (a, b) = (&cat[i / cat.len()], &cat[i % cat.len()]);
        if i % cat.len() == 0 {
            check_prop(a, st)?;
        }
        check_tree(&Tree { name: "VEVENT".into(), props: vec![a.clone(), b.clone()], kids: vec![] }, st)
    });
    // what parsing gives
    let a = Alphabet::new(
        &["VCALENDAR", "VEVENT", "end-x"],
        vec![tp("SUMMARY", &[("K", None)], "a,b\n"), tp("ATTENDEE", &[("K", Some("a:b")), ("K", Some("\u{7f}"))], ""), tp("X", &[], "\\,\u{1}é😀")],
    );
    let n = run.q(6, 8);
    let words = a.words(n);
    run.cases("documents", &format!("all documents of <= {n} lines over 3 names and 3 properties"), words.len(), |i, st| {
        let (lines, trees) = a.render(&words[i]);
        check_doc(&join(&lines, "\r\n"), &trees, st)
    });
    // depth and width (serde_json itself stops at 128 nested JSON values)
    let n = run.q(60, 60);
    run.cases("deep and wide", "chains of up to 60 components, rows of up to 6000 properties, parameters and children", n, |i, st| {
        let mut t = Tree { name: "X-0".into(), props: vec![tp("P", &[("K", None)], "v")], kids: vec![] };
        for k in 0..i {
            t = Tree { name: format!("X-{k}"), props: vec![], kids: vec![t] };
        }
        check_tree(&t, st)?;
        let w = i * 100;
        let row = Tree {
            name: "R".into(),
            props: (0..w).map(|k| tp(&format!("P{k}"), &[], &k.to_string())).collect(),
            kids: (0..w).map(|k| Tree { name: format!("C{k}"), props: vec![], kids: vec![] }).collect(),
        };
        check_tree(&row, st)?;
        let p = TProp { name: "P".into(), val: "x".repeat(w), params: (0..w).map(|k| (format!("K{}", k / 2), Some(k.to_string()))).collect() };
        check_prop(&p, st)
    });
    // (serde_json reads at most 128 nested arrays and objects)
    big::stage_to(run, false, 1, 60, |t, st| {
        check_tree(t, st)?;
        check_doc(&big::text(t, "\r\n"), std::slice::from_ref(t), st)
    });
}
