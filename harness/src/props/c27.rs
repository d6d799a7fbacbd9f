//! C27: whatever can be called in two builds gives the same results in both.
use super::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::OnceLock;

const FEATURES: [&str; 4] = ["parser", "serde", "serde_json", "chrono-tz"];

/// what the compiler has to be told about the library
struct Crate {
    src: String,
    edition: String,
    vars: Vec<(String, String)>,
    /// name and file of what it depends on
    deps: Vec<(String, String)>,
    /// where those and theirs are
    dir: PathBuf,
}
fn find_crate() -> Result<Crate, String> {
    let harness = concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml");
    let cargo = |args: &[&str]| -> Result<String, String> {
        let out = Command::new("cargo").args(args).args(["--offline", "--locked", "--manifest-path", harness]).output().map_err(|e| e.to_string())?;
        if !out.status.success() {
            return Err(String::from_utf8_lossy(&out.stderr).into_owned());
        }
        Ok(String::from_utf8_lossy(&out.stdout).into_owned())
    };
    let meta: Value = serde_json::from_str(&cargo(&["metadata", "--format-version", "1"])?).map_err(|e| e.to_string())?;
    let pkg = meta["packages"].as_array().into_iter().flatten().find(|p| p["name"] == "icalendar").ok_or("no package")?;
    let node = meta["resolve"]["nodes"].as_array().into_iter().flatten().find(|n| n["id"] == pkg["id"]).ok_or("no node")?;
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    for line in cargo(&["build", "--release", "--message-format", "json"])?.lines() {
        let Ok(m) = serde_json::from_str::<Value>(line) else { continue };
        if m["reason"] != "compiler-artifact" {
            continue;
        }
        let rlib = m["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib"));
        if let (Some(f), Some(id)) = (rlib, m["package_id"].as_str()) {
            files.insert(id.into(), f.into());
        }
    }
    let mut deps = vec![];
    for d in node["deps"].as_array().into_iter().flatten() {
        if let (Some(n), Some(f)) = (d["name"].as_str(), d["pkg"].as_str().and_then(|p| files.get(p))) {
            deps.push((n.to_string(), f.clone()));
        }
    }
    let lib = pkg["targets"].as_array().into_iter().flatten().find(|t| t["kind"].as_array().into_iter().flatten().any(|k| k == "lib")).ok_or("no library")?;
    let text = |v: &Value| v.as_str().unwrap_or_default().to_string();
    let version = text(&pkg["version"]);
    let dir = deps.first().and_then(|d| PathBuf::from(&d.1).parent().map(|p| p.to_path_buf())).ok_or("no dependencies")?;
    let manifest = text(&pkg["manifest_path"]);
    let part = |i: usize| version.split('.').nth(i).unwrap_or_default().to_string();
    Ok(Crate {
        src: text(&lib["src_path"]),
        edition: text(&pkg["edition"]),
        vars: vec![
            ("CARGO_MANIFEST_DIR".into(), manifest.trim_end_matches("/Cargo.toml").into()),
            ("CARGO_CRATE_NAME".into(), "icalendar".into()),
            ("CARGO_PKG_NAME".into(), "icalendar".into()),
            ("CARGO_PKG_VERSION_MAJOR".into(), part(0)),
            ("CARGO_PKG_VERSION_MINOR".into(), part(1)),
            ("CARGO_PKG_VERSION_PATCH".into(), part(2)),
            ("CARGO_PKG_DESCRIPTION".into(), text(&pkg["description"])),
            ("CARGO_PKG_REPOSITORY".into(), text(&pkg["repository"])),
            ("CARGO_PKG_HOMEPAGE".into(), text(&pkg["homepage"])),
            ("CARGO_PKG_AUTHORS".into(), pkg["authors"].as_array().into_iter().flatten().filter_map(|a| a.as_str()).collect::<Vec<_>>().join(":")),
            ("CARGO_PKG_VERSION".into(), version),
        ],
        deps,
        dir,
    })
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Config {
    features: u8,
    checks: bool,
    opt: u8,
}
impl Config {
    fn name(&self) -> String {
        let on: Vec<&str> = FEATURES.iter().enumerate().filter(|(i, _)| self.features >> i & 1 == 1).map(|f| *f.1).collect();
        format!("features {on:?}, {} debug assertions and overflow checks, optimisation {}", if self.checks { "with" } else { "without" }, self.opt)
    }
}
/// a scratch directory that goes when it is dropped
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Built {
    dir: Scratch,
    depth: String,
    stages: BTreeMap<String, (u64, String)>,
}
fn rustc(krate: &Crate, c: Config) -> Command {
    let mut r = Command::new("rustc");
    r.args(["--edition", &krate.edition, "--cap-lints", "allow", "-C", &format!("opt-level={}", c.opt), "-C", "codegen-units=4"]);
    let on = if c.checks { "on" } else { "off" };
    r.args(["-C", &format!("debug-assertions={on}"), "-C", &format!("overflow-checks={on}")]);
    r.arg("-L").arg(format!("dependency={}", krate.dir.display()));
    for (i, f) in FEATURES.iter().enumerate() {
        if c.features >> i & 1 == 1 {
            r.arg("--cfg").arg(format!("feature=\"{f}\""));
        }
    }
    for (n, f) in &krate.deps {
        // (as cargo does: optional dependencies come with their features)
        let needs = match n.as_str() {
            "nom" => "parser",
            "chrono_tz" => "chrono-tz",
            n => n,
        };
        if FEATURES.iter().position(|f| *f == needs).map_or(false, |i| c.features >> i & 1 == 0) {
            continue;
        }
        r.arg("--extern").arg(format!("{n}={f}"));
    }
    r.envs(krate.vars.iter().cloned());
    r
}
fn build(krate: &Crate, c: Config, depth: &str) -> Result<Built, Fail> {
    let base = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../target").into());
    let dir = Scratch(PathBuf::from(base).join(format!("cfg-{}-{}-{}-{}", std::process::id(), c.features, c.checks, c.opt)));
    if std::fs::create_dir_all(&dir.0).is_err() {
        return fail("harness", "no directory");
    }
    let run = |mut r: Command, what: &str| -> R {
        match r.current_dir(&dir.0).output() {
            Ok(o) if o.status.success() => Ok(()),
            Ok(o) => fail(what, format!("{}\n{}", c.name(), clip(&String::from_utf8_lossy(&o.stderr)))),
            Err(e) => fail("harness", e.to_string()),
        }
    };
    let mut lib = rustc(krate, c);
    lib.args(["--crate-name", "icalendar", "--crate-type", "rlib", &krate.src, "-o"]).arg(dir.0.join("libicalendar.rlib"));
    run(lib, "the library does not compile in a configuration")?;
    let mut probe = rustc(krate, c);
    probe.args(["--crate-name", "probe", concat!(env!("CARGO_MANIFEST_DIR"), "/probe.rs"), "-o"]).arg(dir.0.join("probe"));
    probe.arg("--extern").arg(format!("icalendar={}", dir.0.join("libicalendar.rlib").display()));
    run(probe, "an operation is missing in a configuration")?;
    let out = match Command::new(dir.0.join("probe")).arg(depth).output() {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
        Ok(o) => return fail("operations fail in a configuration", format!("{}\n{}", c.name(), clip(&String::from_utf8_lossy(&o.stderr)))),
        Err(e) => return fail("harness", e.to_string()),
    };
    let mut stages = BTreeMap::new();
    for l in out.lines() {
        if let [name, n, hash] = l.split('\t').collect::<Vec<_>>()[..] {
            stages.insert(name.to_string(), (n.parse().unwrap_or(0), hash.to_string()));
        }
    }
    Ok(Built { dir, stages, depth: depth.into() })
}
/// all results of a stage
fn dump(b: &Built, stage: &str) -> Vec<String> {
    let out = Command::new(b.dir.0.join("probe")).arg(&b.depth).arg(stage).output().map(|o| o.stdout).unwrap_or_default();
    String::from_utf8_lossy(&out).lines().map(|l| l.to_string()).collect()
}

pub fn run(run: &Run) {
    run.assume("the operations are those of harness/probe.rs; generated identifiers and stamps and the order of a property's parameters are free; dependencies are built once, with the features they have when everything is on");
    let all = Config { features: 15, checks: true, opt: 1 };
    let mut configs = vec![];
    for opt in run.q(vec![1u8], vec![1, 0, 2, 3]) {
        for features in 0..16u8 {
            for checks in [true, false] {
                let c = Config { features, checks, opt };
                // (quick: every four of the five settings in all ways, and everything on and off both ways)
                if c != all && (run.q(false, true) || (features.count_ones() % 2 == 0) == checks || [0, 15].contains(&features)) {
                    configs.push(c);
                }
            }
        }
    }
    let depth = run.q("4", "5");
    let krate: OnceLock<Result<Crate, String>> = OnceLock::new();
    let base: OnceLock<Result<Built, Fail>> = OnceLock::new();
    let n = configs.len();
    run.cases("configurations", &format!("{n} builds against the one with everything on: all sets of the 4 features, with and without debug assertions and overflow checks, {}; documents of {depth} of 13 lines (all that begin a component)", run.q("optimisation 1, any four of these five settings together in all ways", "optimisation 0 to 3")), n, |i, st| {
        let krate = match krate.get_or_init(find_crate) {
            Ok(k) => k,
            Err(e) => return fail("harness", e.clone()),
        };
        let base = match base.get_or_init(|| build(krate, all, depth)) {
            Ok(b) => b,
            Err(e) => return Err(e.clone()),
        };
        let c = configs[i];
        let b = build(krate, c, depth)?;
        // what must be there
        let parser = c.features & 1 == 1;
        for (stage, on) in [("builders", true), ("types", true), ("values", true), ("texts", true), ("folding", true), ("durations", true), ("dates", true), ("calendars", true), ("documents", parser), ("lines", parser), ("json", c.features & 7 == 7), ("zones", c.features & 8 == 8)] {
            ensure!(b.stages.contains_key(stage) == on, "operations of a configuration", format!("{stage} with {}", c.name()));
        }
        for (stage, got) in &b.stages {
            if base.stages.get(stage) != Some(got) {
                let (x, y) = (dump(base, stage), dump(&b, stage));
                let at = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
                return fail(
                    "results depend on the configuration",
                    format!("{stage}, {at}. operation\n{}: {}\n{}: {}", all.name(), clip(x.get(at).map_or("", |s| s)), c.name(), clip(y.get(at).map_or("", |s| s))),
                );
            }
            st.steps(got.0);
        }
        st.state(&i);
        st.note(|| c.name());
        Ok(())
    });
}
