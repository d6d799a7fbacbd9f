//! Documents in which one dimension after another is made large.
use super::gen::*;
use super::*;

pub const DIMS: [&str; 14] = [
    "calendar properties",
    "components",
    "levels",
    "different properties of a component",
    "values of one repeatable property",
    "values of several repeatable properties",
    "parameters",
    "characters of a text",
    "characters of an untyped value",
    "characters of a parameter value",
    "characters of a property name",
    "characters of a component name",
    "children of a component",
    "components with properties and children",
];
const LENGTHS: std::ops::RangeInclusive<usize> = 7..=11;

fn comp(name: &str, props: Vec<TProp>, kids: Vec<Tree>) -> Tree {
    Tree { name: name.into(), props, kids }
}
fn mixed(n: usize, cycle: &str) -> String {
    cycle.chars().cycle().take(n).collect()
}
/// a calendar with one dimension of the given size; everything is numbered
pub fn big(dim: usize, n: usize, stamp: bool) -> Tree {
    let ids = |k: usize| if stamp { vec![tp("DTSTAMP", &[], "20240229T235959Z"), tp("UID", &[], &format!("u{k}"))] } else { vec![] };
    let with = |k: usize, mut v: Vec<TProp>| {
        v.extend(ids(k));
        v
    };
    let s = |k: usize| k.to_string();
    let mut cp = vec![tp("VERSION", &[], "2.0"), tp("X-WR-CALNAME", &[], "a,b")];
    let mut kids = vec![comp("VEVENT", with(0, vec![tp("SUMMARY", &[], "first")]), vec![])];
    match dim {
        0 => (0..n).for_each(|k| cp.push(tp(["X-C", "NAME", "METHOD"][k % 3], &[], &s(k)))),
        1 => {
            for k in 0..n {
                kids.push(comp(["VEVENT", "VTODO", "VVENUE", "VJOURNAL"][k % 4], with(k, vec![tp("SUMMARY", &[], &s(k))]), vec![]))
            }
        }
        2 => {
            let mut t = comp("VALARM", with(0, vec![tp("X-N", &[], "leaf")]), vec![]);
            for k in 1..n {
                t = comp(["VEVENT", "VTODO", "X-L"][k % 3], with(k, vec![tp("X-N", &[], &s(k))]), vec![t]);
            }
            kids.push(t);
        }
        3 => kids.push(comp("VTODO", with(1, (0..n).map(|k| tp(&format!("X-P{k}"), &[], &s(k))).collect()), vec![])),
        4 => kids.push(comp("VEVENT", with(1, (0..n).map(|k| tp("ATTENDEE", &[("CN", Some(&s(k)))], &format!("mailto:{k}"))).collect()), vec![])),
        5 => kids.push(comp(
            "VEVENT",
            with(1, (0..n).map(|k| tp(["COMMENT", "ATTACH", "EXDATE", "RELATED-TO", "CONTACT"][k * 7 % 5], &[], &s(k))).collect()),
            vec![],
        )),
        6 => {
            let ps: Vec<(String, String)> = (0..n).map(|k| (format!("K{k}"), format!("{}{k}", ["v", "a:", ";"][k % 3]))).collect();
            let ps: Vec<(&str, Option<&str>)> = ps.iter().map(|(k, v)| (k.as_str(), Some(v.as_str()))).collect();
            kids.push(comp("VEVENT", with(1, vec![tp("X-P", &ps, "v:w")]), vec![]));
        }
        7 => kids.push(comp("VEVENT", with(1, vec![tp("DESCRIPTION", &[], &mixed(n, "ab, é;\\n:\n€x\\")), tp("COMMENT", &[], &format!("{};", "a".repeat(n)))]), vec![])),
        8 => kids.push(comp("VEVENT", with(1, vec![tp("X-U", &[], &mixed(n, "ab, é;\\n:€x\\\"="))]), vec![])),
        9 => kids.push(comp(
            "VEVENT",
            with(1, vec![tp("X-U", &[("A", Some(&format!("{}x", mixed(n, "a,é =")))), ("B", Some(&format!("{}:", "b".repeat(n)))), ("C", Some("c"))], "v")]),
            vec![],
        )),
        10 => kids.push(comp("VEVENT", with(1, vec![tp(&format!("X{}", mixed(n, "-AB1")), &[], "a,b"), tp("X-NEXT", &[], "v")]), vec![])),
        11 => {
            let name = format!("X{}", mixed(n, "-AB1"));
            kids.push(comp(&name, with(1, vec![tp("X-N", &[], "v")]), vec![comp(&format!("{name}X"), with(2, vec![]), vec![])]));
        }
        12 => kids.push(comp(
            "VTODO",
            with(1, vec![tp("SUMMARY", &[], "parent")]),
            (0..n).map(|k| comp(["VALARM", "X-K"][k % 2], with(k + 2, vec![tp("X-N", &[], &s(k))]), vec![])).collect(),
        )),
        _ => {
            let m = (n as f64).sqrt() as usize;
            for k in 0..m {
                kids.push(comp(
                    ["VEVENT", "VTODO"][k % 2],
                    with(k, (0..m).flat_map(|j| [tp(&format!("X-{j}"), &[], &s(j)), tp("COMMENT", &[("N", Some("n"))], &s(j))]).collect()),
                    (0..m % 20).map(|j| comp("VALARM", with(j, vec![tp("X-N", &[], &s(j))]), vec![])).collect(),
                ))
            }
        }
    }
    kids.push(comp("VVENUE", with(9, vec![tp("NAME", &[], "last")]), vec![]));
    comp("VCALENDAR", cp, kids)
}
/// texts that mean something somewhere: to iCalendar, to its relatives, to Unicode, to programs
pub fn special() -> Vec<&'static str> {
    let mut v = vec![
        "", "true", "FALSE", "none", "null", "0", "-1", "+1", "007", "1.5", "NaN", "TEXT", "DATE", "DATE-TIME", "20240229", "20240229T235960Z", "20240229T235959", "T120000", "+0100", "-0000",
        "PT1H", "-P1W", "P0D", "FREQ=DAILY;COUNT=2;BYDAY=MO,-1SU", "48.85299;2.36885", "2.0;Success", "3.1;Invalid;a:b", "VEVENT", "BEGIN", "END", "BEGIN:VEVENT", "END:VEVENT", "END:VCALENDAR",
        "begin:valarm", "SUMMARY", "SUMMARY:x", "SUMMARY;K=v:x", "VALUE=DATE", ";VALUE=DATE:", "TZID", "UID", "DTSTAMP", "Europe/Berlin", "/mozilla.org/20050126_1/Europe/Berlin", "W. Europe Standard Time", "UTC", "Z",
        "mailto:a.b+c@example.com", "MAILTO:A@B", "http://u:p@h:80/p;q?a=b&c=d,e#f", "data:text/plain;base64,aGk=", "tel:+1-2", "CID:part3.msg@x", "C:\\new\\names\\", "\\\\server\\n\\N", "a\\", "\\", "\\\\", "\\n",
        "\\N", "\\\\n", "\\,", "\\;", "\\:", "\\ ", "\\t", "\\u00e9", "\\x41", "\\\n", "\n", "\n\n", "\n\n\n", "a\n", "\na", "a\n\nb", "\n ", "\n\t", " \n", "a\n b", "a\rb", "^n", "^'^^", "%0D%0A", "%n%s",
        "{}", "{0}", "$1", "&amp;", "<b>x</b>", "=?utf-8?q?=41?=", "''", "``", "--", "- -", "|", "*", "#", "~", "@", "_", "/", ".", "..", "!", "?", "(a)", "[a]", "a=b", "=", "==", "a;b=c", ";", ";;", ",", ",,",
        "a,b,,c,", ",a", ":", "::", "a:", ":a", "a:b:c", ":;,", ",;:", " ", "  ", " a", "a ", " a  b ", "\t", "\ta\t", "a\tb", "\u{a0}", "\u{a0}a\u{a0}", "\u{2003}x", "\u{3000}", "\u{feff}", "\u{feff}a", "a\u{feff}",
        "\u{200b}", "a\u{200d}b", "\u{2028}", "\u{2029}", "\u{85}", "a\u{85}b", "\u{b}", "\u{c}", "\u{0}", "a\u{0}b", "\u{1b}[0m", "\u{7f}", "é", "e\u{301}", "\u{301}", "ﬁ", "İ", "ı", "ß", "ẞ", "ǅ", "Å", "\u{212b}", "K",
        "\u{1112}\u{1161}\u{11ab}", "한", "日本語", "👨\u{200d}👩\u{200d}👧", "🇩🇪", "שלום", "\u{202e}abc", "ﷺ", "１２", "，", "；", "：", "＂", "＼", "\u{ff3c}n", "\u{37e}", "\u{10ffff}", "\u{e000}", "\u{fffd}", "\u{d7ff}", "\u{ffff}",
        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.,;:!?/()*+=", "CONFIRMED", "DISPLAY", "PUBLIC", "text/html",
        "http://example.com", "https://x.y/z?q#f", "file:///C:/a", "ldap://h:389/o=x?c", "urn:uuid:1-2", "geo:1,2;u=3", "12:30", "1:2", "::1", "CN=x;OU=y", "X-FOO", "TRUE", "START", "Doe, John", "\\\\\\\\",
    ];
    v.push("seventy-five characters and a bit more, so that the line has to be folded somewhere in the middle of it");
    v
}
/// a value for places where no line feed may stand
fn oneline(s: &str) -> String {
    s.replace('\n', "")
}
/// a parameter value: without quotes and controls; an empty one is none
fn pval(s: &str) -> Option<String> {
    let t: String = s.chars().filter(|c| *c != '"' && !c.is_control()).collect();
    Some(t).filter(|t| !t.is_empty())
}
/// a calendar with two texts in all positions
pub fn worded(a: &str, b: &str, stamp: bool) -> Tree {
    let ids = |k: usize| if stamp { vec![tp("DTSTAMP", &[], "20240229T235959Z"), tp("UID", &[], &format!("u{k}"))] } else { vec![] };
    let (pa, pb) = (pval(a), pval(b));
    let two = [("A", pa.as_deref()), ("B", pb.as_deref())];
    let with = |k: usize, mut v: Vec<TProp>| {
        v.extend(ids(k));
        v
    };
    let alarm = comp("VALARM", with(1, vec![tp("DESCRIPTION", &[], b), tp("X-A", &[], &oneline(a))]), vec![]);
    let other = comp("X-K", with(2, vec![tp("LOCATION", &[("LANGUAGE", pb.as_deref())], a), tp("CONTACT", &[], b), tp("CONTACT", &[], a)]), vec![alarm.clone()]);
    comp(
        "VCALENDAR",
        vec![tp("NAME", &[], a), tp("X-WR-CALNAME", &two[..1], b), tp("X-C", &two, &oneline(b))],
        vec![
            comp(
                "VEVENT",
                with(
                    3,
                    vec![
                        tp("SUMMARY", &two, a),
                        tp("DESCRIPTION", &[("VALUE", Some("TEXT"))], b),
                        tp("URL", &two[1..], &oneline(a)),
                        tp("X-V", &[], &oneline(b)),
                        tp("COMMENT", &[], a),
                        tp("COMMENT", &two[..1], b),
                        tp("ATTENDEE", &two, &oneline(a)),
                    ],
                ),
                vec![alarm],
            ),
            comp("VVENUE", with(4, vec![tp("NAME", &[], b), tp("STREET-ADDRESS", &[], a), tp("X-T", &[("VALUE", Some("TEXT"))], a)]), vec![other]),
        ],
    )
}
/// the calendar a builder would make
pub fn big_cal(t: &Tree) -> MCal {
    MCal { props: t.props.iter().map(typed_prop).collect(), comps: t.kids.iter().map(typed).collect() }
}
/// a stage over all dimensions and sizes
pub fn stage(run: &Run, stamp: bool, scale: usize, f: impl Fn(&Tree, &mut Stats) -> R + Sync) {
    stage_to(run, stamp, scale, 600, f)
}
pub fn stage_to(run: &Run, stamp: bool, scale: usize, levels: usize, f: impl Fn(&Tree, &mut Stats) -> R + Sync) {
    let sp = special();
    let n = sp.len();
    run.cases("special texts", &format!("all ordered pairs of {n} special texts in every text position of a calendar with nested components"), n * n, |i, st| {
        let (a, b) = (sp[i / n], sp[i % n]);
        st.note(|| format!("{a:?} {b:?}"));
        f(&worded(a, b, stamp), st)
    });
    let counts = sizes(0, run.q(1100, 4200) / scale);
    let lens = sizes(0, run.q(20_000, 140_000) / scale);
    let mut v = vec![];
    for d in 0..DIMS.len() {
        let ns = if LENGTHS.contains(&d) { &lens } else { &counts };
        let max = if d == 2 { levels } else { usize::MAX };
        v.extend(ns.iter().filter(|n| **n <= max).map(|n| (d, *n)));
        if d == 2 {
            v.push((d, levels))
        }
    }
    // the expensive ones first
    v.reverse();
    run.cases(
        "one dimension large",
        &format!("{} dimensions ({}): sizes around powers of 2 and 10 up to {} (counts), {} (lengths), {levels} (levels)", DIMS.len(), DIMS.join(", "), counts[counts.len() - 1], lens[lens.len() - 1]),
        v.len(),
        |i, st| {
            let (d, n) = v[i];
            st.note(|| format!("{} {}", n, DIMS[d]));
            f(&big(d, n, stamp), st)
        },
    );
    // (faults at every call of the writer take the square of that)
    if run.prop != "C16" {
        huge(run, stamp, &f)
    }
}
/// a few documents nobody writes by hand: counts beyond 16 bits, texts beyond a mebibyte
fn huge(run: &Run, stamp: bool, f: &(impl Fn(&Tree, &mut Stats) -> R + Sync)) {
    let (count, len) = (run.q(66_000, 140_000), run.q(1_100_000, 4_300_000));
    let dims: Vec<usize> = (0..DIMS.len()).filter(|d| *d != 2).collect();
    run.cases("one dimension very large", &format!("13 dimensions: {count} of them, or {len} characters"), dims.len(), |i, st| {
        let d = dims[i];
        st.note(|| DIMS[d].to_string());
        f(&big(d, if LENGTHS.contains(&d) { len } else { count }, stamp), st)
    });
}
/// the document spelled, not folded
pub fn text(t: &Tree, nl: &str) -> String {
    let mut lines = vec![];
    spell_tree(t, &mut lines);
    join(&lines, nl)
}
