//! One module per property, plus the builders shared by them.
use crate::engine::*;
use crate::spec::*;
use icalendar::parser as ip;
use icalendar::*;

pub mod big;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
pub mod gen;

pub type F = fn(&Run);
const TABLE: &[(&str, F)] = &[
    ("C01", c01::run),
    ("C02", c02::run),
    ("C03", c03::run),
    ("C04", c04::run),
    ("C05", c05::run),
    ("C06", c06::run),
    ("C07", c07::run),
    ("C08", c08::run),
    ("C09", c09::run),
    ("C10", c10::run),
    ("C11", c11::run),
    ("C12", c12::run),
    ("C13", c13::run),
    ("C14", c14::run),
    ("C15", c15::run),
    ("C16", c16::run),
    ("C17", c17::run),
    ("C18", c18::run),
    ("C19", c19::run),
    ("C20", c20::run),
    ("C21", c21::run),
    ("C22", c22::run),
    ("C23", c23::run),
    ("C24", c24::run),
    ("C25", c25::run),
    ("C26", c26::run),
    ("C27", c27::run),
    ("C28", c28::run),
];

pub fn find(id: &str) -> Option<F> {
    TABLE.iter().find(|(n, _)| *n == id).map(|(_, f)| *f)
}
pub fn ids() -> Vec<&'static str> {
    TABLE.iter().map(|(n, _)| *n).collect()
}
/// helper processes of some checks
pub fn aux(args: &[&str]) -> i32 {
    match args {
        ["print"] => c24::aux_print(),
        ["hist", ref rest @ ..] => c25::aux_hist(rest),
        ["near", ref rest @ ..] => c25::aux_near(rest),
        ["rows", ref rest @ ..] => c25::aux_rows(rest),
        ["env"] => c25::aux_env(),
        ["deep", n] => c07::aux_deep(n.parse().unwrap()),
        _ => 2,
    }
}

// ------------------------------------------------------------------ building real objects

/// adds everything of the model to a real component, through the builder API
pub fn fill<C: Component>(c: &mut C, m: &MComp) {
    for p in m.props.values() {
        c.append_property(p.build());
    }
    for ps in m.multi.values() {
        for p in ps {
            c.append_multi_property(p.build());
        }
    }
    for k in &m.kids {
        add_kid(c, k);
    }
}
pub fn add_kid<C: Component>(c: &mut C, k: &MComp) {
    match k.kind.as_str() {
        "VEVENT" => c.append_component(event(k)),
        "VTODO" => c.append_component(todo(k)),
        "VVENUE" => c.append_component(venue(k)),
        "VALARM" if k.props.contains_key("TRIGGER") && k.props.contains_key("ACTION") => c.append_component(alarm(k)),
        _ => match empty_generic(&k.kind) {
            CalendarComponent::Other(mut o) => {
                fill(&mut o, k);
                c.append_component(o)
            }
            // a name with a type of its own
            _ => unreachable!(),
        },
    };
}
/// generic components can only be had by converting a parsed one
pub fn empty_generic(kind: &str) -> CalendarComponent {
    ip::Component { name: kind.to_string().into(), properties: vec![], components: vec![] }.into()
}
pub fn event(m: &MComp) -> Event {
    let mut c = Event::new();
    fill(&mut c, m);
    c.done()
}
pub fn todo(m: &MComp) -> Todo {
    let mut c = Todo::new();
    fill(&mut c, m);
    c.done()
}
pub fn venue(m: &MComp) -> Venue {
    let mut c = Venue::new();
    fill(&mut c, m);
    c.done()
}
pub fn alarm(m: &MComp) -> Alarm {
    let mut c = Alarm::audio(chrono::Duration::zero());
    fill(&mut c, m);
    c.done()
}
/// the parser-side component with the content of the model (the way to get generic components)
pub fn raw_comp(m: &MComp) -> ip::Component<'static> {
    ip::Component {
        name: m.kind.clone().into(),
        properties: m.props.values().chain(m.multi.values().flatten()).map(raw_prop).collect(),
        components: m.kids.iter().map(raw_comp).collect(),
    }
}
pub fn raw_prop(p: &MProp) -> ip::Property<'static> {
    ip::Property {
        name: p.key.clone().into(),
        val: p.val.clone().into(),
        params: p
            .params
            .iter()
            .map(|(k, v)| ip::Parameter { key: k.clone().into(), val: Some(v.clone().into()) })
            .collect(),
    }
}
pub fn raw_tprop(p: &TProp) -> ip::Property<'static> {
    ip::Property {
        name: p.name.clone().into(),
        val: p.val.clone().into(),
        params: p
            .params
            .iter()
            .map(|(k, v)| ip::Parameter { key: k.clone().into(), val: v.clone().map(Into::into) })
            .collect(),
    }
}
pub fn raw_tree(t: &Tree) -> ip::Component<'static> {
    ip::Component {
        name: t.name.clone().into(),
        properties: t.props.iter().map(raw_tprop).collect(),
        components: t.kids.iter().map(raw_tree).collect(),
    }
}
pub fn any_component(m: &MComp) -> CalendarComponent {
    match m.kind.as_str() {
        "VEVENT" => event(m).into(),
        "VTODO" => todo(m).into(),
        "VVENUE" => venue(m).into(),
        _ => match empty_generic(&m.kind) {
            CalendarComponent::Other(mut o) => {
                fill(&mut o, m);
                o.into()
            }
            _ => unreachable!(),
        },
    }
}
pub fn calendar(m: &MCal) -> Calendar {
    let mut c = Calendar::empty();
    for p in &m.props {
        c.append_property(p.build());
    }
    for k in &m.comps {
        c.push(any_component(k));
    }
    c.done()
}
pub fn prop_string(p: Property) -> Result<String, Fail> {
    match TryInto::<String>::try_into(p) {
        Ok(s) => Ok(s),
        Err(_) => fail("serializing a property failed", ""),
    }
}
pub fn read_prop(line: &str) -> Result<TProp, Fail> {
    match ip::Property::try_from(line) {
        Ok(p) => Ok(tprop(&p)),
        Err(e) => fail("written property is not readable", format!("{line:?}: {e}")),
    }
}
/// every Unicode scalar value, by index
pub const SCALARS: usize = 0x110000 - 0x800;
pub fn scalar(i: usize) -> char {
    let v = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(v as u32).unwrap()
}
