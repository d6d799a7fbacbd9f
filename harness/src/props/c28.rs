//! C28: a rejected document is reported with the line of its first fault.
use super::c06::{lex, sample_docs, L};
use super::gen::*;
use super::*;

/// a place in an error message: number of the line and the line as quoted
#[derive(Debug, PartialEq)]
struct Place {
    line: usize,
    quoted: String,
}
/// the places a message names: a header with `at line N`, the line, a caret
fn places(msg: &str) -> Vec<Place> {
    let ls: Vec<&str> = msg.split('\n').collect();
    let (mut i, mut out) = (0, vec![]);
    while i < ls.len() {
        let n = ls[i].split("at line ").nth(1).map(|r| r.chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|n| n.parse().ok());
        match n {
            Some(line) => {
                out.push(Place { line, quoted: ls.get(i + 1).unwrap_or(&"").to_string() });
                // (the quoted line, the caret)
                i += 3;
            }
            None => i += 1,
        }
    }
    out
}
/// the line with the first fault, counted from 1; None: no fault, or one in front of all components (C06)
fn fault(lines: &[Option<L>]) -> Option<usize> {
    let mut open: Vec<&str> = vec![];
    let mut any = false;
    for (i, l) in lines.iter().enumerate() {
        let at = Some(i + 1).filter(|_| any);
        match l {
            None => return at,
            Some(L::Blank) => continue,
            Some(L::Begin(n)) => open.push(n),
            Some(L::End(n)) => match open.pop() {
                Some(o) if o == n => {}
                _ => return at,
            },
            Some(L::Prop(_)) if open.is_empty() => return at,
            Some(L::Prop(_)) => {}
        }
        any = true;
    }
    (!open.is_empty()).then_some(0)
}
/// what every reader says about a text whose first fault is in this line (0: at the end)
fn check(text: &str, line: usize, st: &mut Stats) -> R {
    let unf = ip::unfold(text);
    let ls: Vec<&str> = unf.split('\n').collect();
    let line = if line == 0 { ls.len() } else { line };
    let mut told: Vec<(&str, String)> = vec![];
    let mut hear = |who, r: Option<String>| told.extend(r.map(|m| (who, m)));
    hear("read_components", ip::read_components(&unf).err());
    hear("read_calendar", ip::read_calendar(&unf).err());
    hear("str::parse", text.parse::<Calendar>().err());
    for (who, m) in &told {
        st.step();
        let ps = places(m);
        ensure!(!ps.is_empty(), "an error names no line", format!("{who}: {:?}\n{m}", clip(text)));
        for p in &ps {
            let is = ls.get(p.line.wrapping_sub(1)).map(|l| l.trim_end());
            ensure!(is == Some(p.quoted.as_str()), "an error quotes another line than it names", format!("{who}: {:?}\nline {} is {is:?}\n{}", clip(text), p.line, clip(m)));
        }
        let far = ps.iter().map(|p| p.line).max();
        ensure!(far == Some(line), "an error names another line than that of the first fault", format!("{who}: {:?}\nthe fault is in line {line}\n{}", clip(text), clip(m)));
    }
    if let Err(e) = ip::read_calendar_simple(&unf) {
        st.step();
        ensure!(unf.ends_with(e.input), "the rest in an error is not the end of the document", format!("{:?}", clip(text)));
        let at = unf[..unf.len() - e.input.len()].matches('\n').count() + 1;
        // (reading may stop behind the line ending of the line before)
        ensure!(at == line, "an error stops in another line than that of the first fault", format!("read_calendar_simple: {:?}\nthe fault is in line {line}, the rest is {:?}", clip(text), clip(e.input)));
    }
    st.state(&(line, told.len()));
    st.note(|| format!("{text:?} -> line {line}"));
    Ok(())
}
const BAD: [&str; 20] = [
    "x y", "x y z", "\"q\"", "=", "a=b", "END", "BEGIN:", "A B\"C", "END:", "BEGIN", "END:NONE", "END;A=1:B", "BEGIN;X:A", "END;", "x;y z", "@", "é é", "x\u{a0}y", "{\"a\": 1}", "<xml>",
];

pub fn run(run: &Run) {
    run.assume("lines are counted in the unfolded text; messages name a line with `at line N` and quote it in the next line; only documents that are rejected are judged (C06 says which have to be)");
    let tok = |t: usize| match t {
        0 => Some(L::Begin("A".into())),
        1 => Some(L::Begin("AB".into())),
        2 => Some(L::End("A".into())),
        3 => Some(L::End("AB".into())),
        4 => Some(L::Prop(tp("P", &[], "v"))),
        5 => Some(L::Blank),
        _ => None,
    };
    let spelled = ["BEGIN:A", "BEGIN:AB", "END:A", "END:AB", "P:v", "", "x y"];
    let k = run.q(7, 8);
    run.cases("line sequences", &format!("all sequences of <= {k} lines over BEGIN and END of A and AB, a property, a blank line and a line that is none, LF and CRLF, with and without final line ending"), words_upto(7, k) * 4, |i, st| {
        let mut d = Dec(i);
        let (crlf, last) = (d.bool(), d.bool());
        let w = word(d.0, 7);
        let ls: Vec<Option<L>> = w.iter().map(|t| tok(*t)).collect();
        let Some(f) = fault(&ls) else { return Ok(()) };
        let nl = if crlf { "\r\n" } else { "\n" };
        let mut text = w.iter().map(|t| spelled[*t]).collect::<Vec<_>>().join(nl);
        if last {
            text += nl;
        }
        check(&text, f, st)
    });
    // one fault in whole documents
    let docs: Vec<Vec<String>> = sample_docs();
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for (d, doc) in docs.iter().enumerate() {
        for at in 0..=doc.len() {
            for how in 0..BAD.len() + 5 {
                jobs.push((d, at, how));
            }
        }
    }
    run.cases("one fault", &format!("{} documents x every place x {} lines that are none, a line missing, twice or exchanged with the next, the document cut after the line or in it; 5 forms of line endings and folds", docs.len(), BAD.len()), jobs.len() * 5, |i, st| {
        let mut d = Dec(i);
        let form = d.n(5);
        let (doc, at, how) = jobs[d.0];
        let mut ls = docs[doc].clone();
        let mut lex_at = vec![];
        match how {
            h if h < BAD.len() => ls.insert(at, BAD[h].into()),
            h => {
                if at >= ls.len() {
                    return Ok(());
                }
                match h - BAD.len() {
                    0 => drop(ls.remove(at)),
                    1 => ls.insert(at, docs[doc][at].clone()),
                    2 if at + 1 < ls.len() => ls.swap(at, at + 1),
                    3 => ls.truncate(at + 1),
                    _ => {
                        ls.truncate(at + 1);
                        // (what is left of the last line is no line)
                        if !ls[at].starts_with("END:") {
                            return Ok(());
                        }
                        ls[at].pop();
                    }
                }
            }
        }
        for l in &ls {
            lex_at.push((!BAD.contains(&l.as_str())).then(|| lex(l)));
        }
        let Some(f) = fault(&lex_at) else { return Ok(()) };
        let text = match form {
            0 => ls.join("\n") + "\n",
            1 => ls.join("\r\n") + "\r\n",
            2 => ls.join("\n"),
            // folded after the first character
            3 => ls.iter().map(|l| if l.len() > 12 { format!("{}\r\n {}\r\n", &l[..9], &l[9..]) } else { format!("{l}\r\n") }).collect(),
            // blank lines between
            _ => ls.join("\n\n\n") + "\n",
        };
        let f = if form == 4 && f > 0 { 3 * (f - 1) + 1 } else { f };
        check(&text, f, st)
    });
    // what stands in front of the fault
    let before = ["", "é", "日本語", "😀", "\u{2028}", "\u{85}", "\r", "\r\r", "at line 7, in x:", "\u{b}\u{c}", "\\n\\N", "a\tb ", "\0", "e\u{301}", "\u{feff}"];
    let n = before.len();
    run.cases("text in front", &format!("{n}^2 values in front of each of {} faults, LF and CRLF", BAD.len() + 2), n * n * (BAD.len() + 2) * 2, |i, st| {
        let mut d = Dec(i);
        let nl = if d.bool() { "\r\n" } else { "\n" };
        let (a, b, h) = (before[d.n(n)], before[d.n(n)], d.n(BAD.len() + 2));
        let (bad, f) = match h {
            h if h == BAD.len() => (format!("END:B{nl}END:A{nl}"), 4),
            h if h > BAD.len() => (String::new(), 0),
            h => (format!("{}{nl}END:A{nl}", BAD[h]), 4),
        };
        check(&format!("BEGIN:A{nl}P:{a}{nl}X-Q;K={}:{b}{nl}{bad}", a.replace(['\r', ':', ';', ','], "")), f, st)
    });
    // far down
    let most = run.q(20_000, 200_000);
    let dims: Vec<usize> = sizes(run.q(300, 3000), most);
    let dn = dims.len();
    run.cases("far down", &format!("{dn} numbers of lines up to {most}, of components and of levels (up to 300) in front of a fault, long lines, 3 faults"), dn * 5 * 3, |i, st| {
        let mut d = Dec(i);
        let (shape, h, n) = (d.n(5), d.n(3), dims[d.0]);
        let (mut text, lines) = match shape {
            0 => ("BEGIN:A\n".to_string() + &"P:v\n".repeat(n), n + 1),
            1 => ("BEGIN:A\n".to_string() + &"\n".repeat(n), n + 1),
            2 => ("BEGIN:A\n".to_string() + &"BEGIN:B\nP:v\nEND:B\n".repeat(n), 3 * n + 1),
            3 if n <= 300 => ("BEGIN:A\n".repeat(n + 1), n + 1),
            3 => return Ok(()),
            _ => (format!("BEGIN:A\nP:{}\n", "é".repeat(n)), 2),
        };
        let f = match h {
            0 => {
                text += "x y\nEND:A\n";
                lines + 1
            }
            1 => {
                text += "END:B\n";
                lines + 1
            }
            _ => 0,
        };
        check(&text, f, st)
    });
    // the readers of one thing
    run.cases("one thing", "components, with a fault in each line, as one component, from text and from unfolded text", docs.len() * 40 * BAD.len(), |i, st| {
        let mut d = Dec(i);
        let (doc, bad, at) = (d.n(docs.len()), BAD[d.n(BAD.len())], d.0);
        let mut ls = docs[doc].clone();
        if at == 0 || at >= ls.len() {
            return Ok(());
        }
        ls.insert(at, bad.into());
        let text = ls.join("\n") + "\n";
        for (who, e) in [("parser::Component::try_from", ip::Component::try_from(text.as_str()).err()), ("CalendarComponent::from_str", text.parse::<CalendarComponent>().err())] {
            let Some(m) = e else { continue };
            st.step();
            let ps = places(&m);
            let far = ps.iter().map(|p| p.line).max();
            ensure!(far == Some(at + 1) && ps.iter().all(|p| p.line > 0 && ls.get(p.line - 1) == Some(&p.quoted)), "an error names another line than that of the first fault", format!("{who}: {text:?}\nthe fault is in line {}\n{m}", at + 1));
        }
        st.state(&(doc, at, bad));
        Ok(())
    });
}
