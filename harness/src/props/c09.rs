//! C09: timezone conversions denote the right instant or none.
//!
//! The oracle only asks chrono-tz for the offset at a UTC instant; which instants show a given
//! local time is worked out here by trying every offset the zone ever has.
use super::c08::{at, utc, ymd, days_in, DAYS};
use super::*;
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Offset, TimeZone, Utc};
use chrono_tz::{Tz, TZ_VARIANTS};

fn off(tz: Tz, u: NaiveDateTime) -> i64 {
    tz.offset_from_utc_datetime(&u).fix().local_minus_utc() as i64
}
fn epoch(y: i32) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(y, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()
}
/// all changes of offset between the years, found by bisection of steps of 3 hours
fn transitions(tz: Tz, from: i32, to: i32, step: i64) -> Vec<(NaiveDateTime, i64, i64)> {
    let mut v = vec![];
    let mut t = epoch(from);
    let end = epoch(to);
    let mut o = off(tz, t);
    while t < end {
        let n = t + Duration::seconds(step);
        let p = off(tz, n);
        if p != o {
            let (mut lo, mut hi) = (0, step);
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                if off(tz, t + Duration::seconds(mid)) == o {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            v.push((t + Duration::seconds(hi), o, p));
        }
        o = p;
        t = n;
    }
    v
}
fn instants(tz: Tz, offsets: &[i64], local: NaiveDateTime) -> Vec<NaiveDateTime> {
    let mut v: Vec<NaiveDateTime> = offsets
        .iter()
        .map(|o| (o, local - Duration::seconds(*o)))
        .filter(|(o, u)| off(tz, *u) == **o)
        .map(|(_, u)| u)
        .collect();
    v.sort();
    v.dedup();
    v
}
fn check_local(tz: Tz, offsets: &[i64], local: NaiveDateTime, st: &mut Stats) -> R {
    let is = instants(tz, offsets, local);
    let exp: Option<DateTime<Utc>> = match is[..] {
        [u] => Some(utc(u)),
        _ => None,
    };
    let d = CalendarDateTime::WithTimezone { date_time: local, tzid: tz.name().to_string() };
    let got = d.try_into_utc();
    same!("conversion of a local time to UTC", format!("{local} {}", tz.name()), exp, got);
    same!("built from time and zone", tz.name(), d, CalendarDateTime::from((local, tz)));
    st.steps(2);
    // building from the aware value of every instant keeps local time and name
    for u in &is {
        let aware = tz.from_utc_datetime(u);
        let c = CalendarDateTime::from_date_time(aware);
        same!("built from an aware value", format!("{u} UTC {}", tz.name()), d, c);
        if is.len() == 1 {
            same!("back to the original instant", format!("{u} UTC {}", tz.name()), Some(utc(*u)), c.try_into_utc());
        }
        st.step();
    }
    st.state(&(is.len(), exp.map(|e| e - utc(local)), tz.name()));
    Ok(())
}

pub fn run(run: &Run) {
    run.assume("chrono-tz's offset at a UTC instant is taken as the truth about a zone, which is taken to use no other offsets than those of 1840..2100");
    let step = run.q(86400, 3 * 3600);
    let info: std::sync::Mutex<Vec<Option<(Vec<(NaiveDateTime, i64, i64)>, Vec<i64>)>>> = std::sync::Mutex::new(vec![None; TZ_VARIANTS.len()]);
    // (not an exploration: finds the transitions, in parallel)
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..run.threads {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= TZ_VARIANTS.len() {
                    break;
                }
                let tz = TZ_VARIANTS[k];
                let t = transitions(tz, 1840, 2100, step);
                let mut o: Vec<i64> = t.iter().flat_map(|x| [x.1, x.2]).chain([off(tz, epoch(2024))]).collect();
                o.sort();
                o.dedup();
                info.lock().unwrap()[k] = Some((t, o));
            });
        }
    });
    let info: Vec<_> = info.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect();
    let jobs: Vec<(usize, usize)> = info.iter().enumerate().flat_map(|(z, i)| (0..i.0.len()).map(move |t| (z, t))).collect();
    let deltas: &[i64] = &[0, 1, 59, 60, 61, 599, 900, 1800, 3599, 3600, 3601, 7199, 7200, 7201, 10800, 86400];
    run.cases("all transitions", &format!("{} transitions of {} zones x {} local times around both sides", jobs.len(), info.len(), deltas.len() * 4), jobs.len(), |i, st| {
        let (z, t) = jobs[i];
        let tz = TZ_VARIANTS[z];
        let (u, a, b) = info[z].0[t];
        for o in [a, b] {
            for d in deltas {
                for s in [1, -1] {
                    check_local(tz, &info[z].1, u + Duration::seconds(o + s * d), st)?;
                }
            }
        }
        st.note(|| format!("{} {u} {a} -> {b}", tz.name()));
        Ok(())
    });
    // minute by minute through the transition days of some years
    let per = run.q(24 * 4, 24 * 60);
    let yrs = run.q(1, 3);
    run.cases("transition days", &format!("every {} minutes of the 3 days around the last {yrs} x 2 transitions of each zone", 1440 / per), info.len() * yrs * 2 * 3 * per, |i, st| {
        let mut d = Dec(i);
        let m = d.n(3 * per) as i64 * (1440 / per as i64);
        let k = d.n(yrs * 2);
        let (tr, offs) = &info[d.0];
        let Some((u, a, _)) = tr.len().checked_sub(1 + k).map(|x| tr[x]) else { return Ok(()) };
        let day = (u + Duration::seconds(a)).date() - Duration::days(1);
        check_local(TZ_VARIANTS[d.0], offs, at(day, 0) + Duration::minutes(m), st)
    });
    run.cases("all zones, plain times", "every zone x first day of every month 1900..2037 x 3 times", info.len() * 138 * 12, |i, st| {
        let mut d = Dec(i);
        let m = d.n(12) as u32 + 1;
        let y = 1900 + d.n(138) as i32;
        let tz = TZ_VARIANTS[d.0];
        for s in [0, 43200 + i as u32 % 60, 86399] {
            check_local(tz, &info[d.0].1, at(NaiveDate::from_ymd_opt(y, m, 1).unwrap(), s), st)?;
        }
        Ok(())
    });
    let far: Vec<i32> = (0..1900).step_by(run.q(100, 7)).chain([1, 1066, 1581, 1582, 1583, 1752, 1883, 1899]).chain(2038..=run.q(2045, 2100)).chain([2069, 2070, 2099, 2100, 2101, 2106, 2107, 2200, 2262, 2263, 2400, 2486, 3000, 9999]).collect();
    run.cases("years far away", &format!("every zone x {} years from 0 to 9999 x 12 months, with a running day and time", far.len()), info.len() * far.len(), |i, st| {
        let (z, y) = (i / far.len(), far[i % far.len()]);
        for m in 1..=12 {
            let day = 1 + (i as u32 + 7 * m) % days_in(y as u32, m);
            check_local(TZ_VARIANTS[z], &info[z].1, at(NaiveDate::from_ymd_opt(y, m, day).unwrap(), (i * 7919 % 86400) as u32), st)?;
        }
        Ok(())
    });
    // names
    let known: std::collections::HashSet<&str> = TZ_VARIANTS.iter().map(|t| t.name()).collect();
    let muts: Vec<Box<dyn Fn(&str) -> String + Sync>> = vec![
        Box::new(|n| n.to_string()),
        Box::new(|n| n.to_lowercase()),
        Box::new(|n| n.to_uppercase()),
        Box::new(|n| format!(" {n}")),
        Box::new(|n| format!("{n} ")),
        Box::new(|n| format!("/{n}")),
        Box::new(|n| n[..n.len() - 1].to_string()),
        Box::new(|n| n[1..].to_string()),
        Box::new(|n| n.replace('/', "")),
        Box::new(|n| n.replace('_', " ")),
        Box::new(|n| format!("{n}{n}")),
        Box::new(|n| n.rsplit('/').next().unwrap().to_string()),
        Box::new(|n| n.split('/').next().unwrap().to_string()),
        Box::new(|n| format!("\"{n}\"")),
        Box::new(|n| format!("{n}\n")),
        Box::new(|_| String::new()),
        // as vendors decorate them
        Box::new(|n| format!("/freeassociation.sourceforge.net/{n}")),
        Box::new(|n| format!("/freeassociation.sourceforge.net/Tzfile://Olson/{n}")),
        Box::new(|n| format!("tzfile://Olson/{n}")),
        Box::new(|n| format!("tzone://Microsoft/{n}")),
        Box::new(|n| format!("/mozilla.org/20050126_1/{n}")),
        Box::new(|n| format!("/citadel.org/20070227_1/{n}")),
        Box::new(|n| format!("/softwarestudio.org/Olson_20011030_5/{n}")),
        Box::new(|n| format!("/usr/share/zoneinfo/{n}")),
        Box::new(|n| format!("posix/{n}")),
        Box::new(|n| format!("right/{n}")),
        Box::new(|n| format!("Olson/{n}")),
        Box::new(|n| format!(":{n}")),
        Box::new(|n| format!("TZID={n}")),
        Box::new(|n| format!("{n}/")),
        Box::new(|n| format!("{n} Standard Time")),
        Box::new(|n| format!("{n}-1")),
        Box::new(|n| format!("{n}+01:00")),
        Box::new(|n| format!("{n}\u{0}")),
        Box::new(|n| format!("\u{feff}{n}")),
        Box::new(|n| format!("{n}[1]")),
        Box::new(|n| format!("(UTC+01:00) {n}")),
        Box::new(|n| format!("({n})")),
        Box::new(|n| format!("<{n}>")),
        Box::new(|n| format!("'{n}'")),
        Box::new(|n| format!("{n}\\")),
        Box::new(|n| n.replace('/', "\\/")),
        Box::new(|n| n.replace('/', "\\")),
        Box::new(|n| n.replace('/', " / ")),
        Box::new(|n| n.replace('/', "//")),
        Box::new(|n| n.replace('/', "-")),
        Box::new(|n| n.replace('/', "%2F")),
        Box::new(|n| n.replace('_', "-")),
        Box::new(|n| n.replace('_', "")),
        Box::new(|n| n.chars().rev().collect()),
    ];
    let mn = muts.len();
    let mut tested: Vec<String> = TZ_VARIANTS.iter().flat_map(|z| muts.iter().map(|m| m(z.name()))).collect();
    // names of Windows, abbreviations, offsets
    let other = [
        "W. Europe Standard Time", "Eastern Standard Time", "Pacific Standard Time", "Central European Time", "Romance Standard Time", "GMT Standard Time", "Tokyo Standard Time", "Customized Time Zone",
        "Berlin", "New York", "Central Time (US & Canada)", "Z", "z", "utc", "Utc", "CEST", "BST", "PST", "PDT", "EDT", "JST", "IST", "GMT+1", "GMT-1", "GMT+01:00", "UTC+1", "UTC-1", "UTC+01:00", "UTC+0", "+01:00",
        "-01:00", "+0100", "+01", "01:00", "+00:00", "-0000", "0", "1", "Etc", "Etc/", "Etc/GMT+15", "Etc/GMT-15", "Etc/GMT+01", "Local", "local", "floating", "Unknown", "Europe", "America/Argentina", "Mars/Phobos",
        "US/Pacific-New2", "EST5EDT4", "CET-1CEST", "CET-1CEST,M3.5.0,M10.5.0/3", "Factory", "localtime", "posixrules", "leapseconds", "TZID", "DATE", "true",
    ];
    tested.extend(other.iter().map(|s| s.to_string()));
    tested.extend(big::special().iter().map(|s| s.to_string()));
    tested.sort();
    tested.dedup();
    run.cases("zone names", &format!("{} names x {mn} alterations, {} names in use that are none of the database, special texts: built from text and converted", known.len(), other.len()), tested.len(), |i, st| {
        let name = tested[i].clone();
        let t = at(NaiveDate::from_ymd_opt(2024, 6, 15).unwrap(), 43200);
        let valid = known.contains(name.as_str());
        let d = CalendarDateTime::WithTimezone { date_time: t, tzid: name.clone() };
        let a = CalendarDateTime::try_from((t, name.as_str()));
        let b = DatePerhapsTime::try_from((t, name.as_str()));
        st.steps(3);
        if valid {
            same!("built from a known name", name, Some(&d), a.as_ref().ok());
            same!("built from a known name", name, Some(DatePerhapsTime::DateTime(d.clone())), b.ok());
            ensure!(d.try_into_utc().is_some(), "known zone not converted", name.clone());
        } else {
            ensure!(a.is_err() && b.is_err(), "built from an unknown name", format!("{name:?}: {a:?} {b:?}"));
            same!("unknown zone", name, None, d.try_into_utc());
        }
        st.state(&name);
        Ok(())
    });
    // fields
    let years: &[i32] = &[i32::MIN, -1, 0, 1, 1900, 2000, 2023, 2024, 9999, 10000, 262142, 262144, i32::MAX];
    let tzs: Vec<Tz> = ["UTC", "Europe/Berlin", "America/New_York", "Pacific/Apia"].iter().map(|n| n.parse().unwrap()).collect();
    run.cases("calendar fields", "13 years x months 0..=14 x days 0..=33 x 18 hours x 8 minutes", years.len() * 15 * 34 * 18 * 8, |i, st| {
        let mut d = Dec(i);
        let min = [0, 1, 30, 59, 60, 61, 100, u32::MAX][d.n(8)];
        let hour = [0, 1, 2, 3, 9, 10, 11, 12, 13, 19, 20, 21, 22, 23, 24, 25, 100, u32::MAX][d.n(18)];
        let mut day = d.n(34) as u32;
        let mut month = d.n(15) as u32;
        if day == 33 {
            day = u32::MAX
        }
        if month == 14 {
            month = u32::MAX
        }
        let y = years[d.0];
        let tz = tzs[i % 4];
        let valid = NaiveDate::from_ymd_opt(y, 1, 1).is_some()
            && (1..=12).contains(&month)
            && day >= 1
            && day <= days_in(y.rem_euclid(400) as u32, month)
            && hour < 24
            && min < 60;
        let a = CalendarDateTime::from_ymd_hm_tzid(y, month, day, hour, min, tz);
        let b = ymd_hm_tzid(y, month, day, hour, min, tz);
        st.steps(2);
        let exp = valid.then(|| CalendarDateTime::WithTimezone {
            date_time: at(NaiveDate::from_ymd_opt(y, month, day).unwrap(), hour * 3600 + min * 60),
            tzid: tz.name().into(),
        });
        same!("built from fields", format!("{y} {month} {day} {hour}:{min}"), exp, a);
        same!("ymd_hm_tzid", format!("{y} {month} {day} {hour}:{min}"), exp, b);
        st.state(&exp.map(|e| format!("{e:?}")));
        Ok(())
    });
    run.cases("floating and UTC", "every 23rd date with a running time of day", DAYS / 23, |i, st| {
        let (y, m, d) = ymd(i * 23);
        let t = at(NaiveDate::from_ymd_opt(y as i32, m, d).unwrap(), (i * 7919 % 86400) as u32);
        same!("floating time", t, None, CalendarDateTime::Floating(t).try_into_utc());
        same!("UTC time", t, Some(utc(t)), CalendarDateTime::Utc(utc(t)).try_into_utc());
        same!("from NaiveDateTime", t, CalendarDateTime::Floating(t), CalendarDateTime::from(t));
        same!("from DateTime<Utc>", t, CalendarDateTime::Utc(utc(t)), CalendarDateTime::from(utc(t)));
        same!("from (time, zone)", t, DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time: t, tzid: "Asia/Tokyo".into() }), DatePerhapsTime::from((t, chrono_tz::Asia::Tokyo)));
        st.steps(5);
        st.state(&t);
        Ok(())
    });
}
