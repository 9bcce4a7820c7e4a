//! C28: the printed form of values and stores.
use crate::core::*;
use crate::ensure;
use crate::model::*;
use sourisdb::{chrono, chrono_tz};
use sourisdb::store::Store;
use sourisdb::values::Value;
use std::collections::BTreeMap;

/// Characters tables are drawn with, and what a table cannot show in a single place.
fn plain(c: char) -> bool {
    !('\u{2500}'..='\u{257f}').contains(&c) && !c.is_control() && !c.is_whitespace()
}
/// Text that can be found again in a table: no lines, no box drawing, nothing invisible at its ends.
fn cell(s: &str) -> String {
    s.chars().map(|c| if plain(c) || c == ' ' { c } else { '_' }).collect::<String>().trim_end().to_string()
}
/// The value with every key made such that it can be found again in a table.
fn tame(m: &MV, short: usize) -> MV {
    let tame = |m: &MV| tame(m, short);
    match m {
        MV::Arr(a) => MV::Arr(a.iter().map(tame).collect()),
        MV::Map(x) => MV::Map(x.iter().map(|(k, v)| (cell(k), tame(v))).collect()),
        MV::Str(s) => MV::Str(s.chars().take(short).map(|c| if ('\u{2500}'..='\u{257f}').contains(&c) { '_' } else { c }).collect()),
        MV::Ch(c) => MV::Ch(if ('\u{2500}'..='\u{257f}').contains(c) { '_' } else { *c }),
        MV::Json(j) => MV::Json(tame_json(j)),
        // long lines make tables slow to draw
        MV::Bin(b) => MV::Bin(MBin::Bytes(b.bytes().into_iter().take(short).collect())),
        MV::Rep(v, n) => MV::Rep(Box::new(tame(v)), *n % 300),
        MV::MapN(v, n) => MV::MapN(Box::new(tame(v)), *n % 300),
        MV::Deep(v, n) => MV::Deep(Box::new(tame(v)), 1 + *n % 6),
        o => o.clone(),
    }
}
fn tame_json(j: &MJ) -> MJ {
    let t = |s: &str| s.chars().map(|c| if plain(c) || c == ' ' { c } else { '_' }).collect::<String>();
    match j {
        MJ::S(s) => MJ::S(t(s)),
        MJ::A(a) => MJ::A(a.iter().map(tame_json).collect()),
        MJ::O(o) => MJ::O(o.iter().map(|(k, v)| (t(k), tame_json(v))).collect()),
        o => o.clone(),
    }
}
/// How a value without parts must print; `None` for arrays and maps.
fn scalar(m: &MV, v: &Value) -> Option<Result<(), String>> {
    let is = |want: String| {
        let got = v.to_string();
        if got == want { Ok(()) } else { Err(format!("{} prints as {} instead of {}", truncate(&format!("{m:?}"), 200), truncate(&got, 300), truncate(&want, 300))) }
    };
    Some(match m {
        MV::Ch(c) => is(format!("{c:?}")),
        MV::Str(s) => is(format!("{s:?}")),
        MV::Bool(b) => is(if *b { "true" } else { "false" }.into()),
        MV::Int(i) => is(i.n.to_string()),
        MV::Cart(a, b) => is(format!("{}{}{}i", a.n, if b.n.neg { "" } else { "+" }, b.n)),
        MV::Polar(a, b) => is(format!("{} e^({}i)", f64::from_bits(*a), f64::from_bits(*b))),
        MV::Null => is("null".into()),
        MV::F32(b) => is(f32::from_bits(*b).to_string()),
        MV::F64(b) => is(f64::from_bits(*b).to_string()),
        MV::V4(b) => is(std::net::Ipv4Addr::from(*b).to_string()),
        MV::V6(b) => is(std::net::Ipv6Addr::from(*b).to_string()),
        MV::Bin(b) => {
            let want: Vec<String> = b.bytes().iter().map(|b| format!("0x{b:X}")).collect();
            is(format!("[{}]", want.join(", ")))
        }
        MV::Tz(i) => is(sourisdb_tz(*i)),
        // chrono writes a leap second anywhere else as the second after it
        MV::Ts(t) if t.ns >= 1_000_000_000 && t.secs % 60 != 59 => Ok(()),
        MV::Ts(t) => {
            // whichever way moments are written, every part of one can be read off
            let got = v.to_string();
            match got.parse::<chrono::NaiveDateTime>().or_else(|_| chrono::NaiveDateTime::parse_from_str(&got, "%Y-%m-%d %H:%M:%S%.f")) {
                Ok(back) => same_ts(t, &back, "printed"),
                Err(e) => Err(format!("{t:?} prints as {got}, which is no moment: {e}")),
            }
        }
        MV::Json(j) => {
            let got = v.to_string();
            match serde_json::from_str::<serde_json::Value>(&got) {
                Ok(back) => {
                    // printed and read again by the JSON library itself
                    let want: Result<serde_json::Value, _> = serde_json::from_str(&j.build().to_string());
                    match want {
                        Ok(w) if w == back => Ok(()),
                        _ => Err(format!("the JSON {} prints as {}", truncate(&format!("{j:?}"), 200), truncate(&got, 300))),
                    }
                }
                Err(e) => Err(format!("a JSON value prints as {}, which is not JSON: {e}", truncate(&got, 300))),
            }
        }
        MV::Arr(_) | MV::Map(_) | MV::Rep(..) | MV::MapN(..) | MV::Deep(..) => return None,
    })
}
fn sourisdb_tz(i: u16) -> String {
    chrono_tz::TZ_VARIANTS[i as usize].name().to_string()
}
/// The rows of a table: what is in the first and in the second column, lines without the blanks behind them.
fn rows(table: &str) -> Result<Vec<(Vec<String>, Vec<String>)>, String> {
    let mut out: Vec<(Vec<String>, Vec<String>)> = vec![];
    let mut fresh = true;
    for line in table.lines() {
        let Some(first) = line.chars().next() else { continue };
        match first {
            '╭' | '╰' | '┌' | '└' => {}
            '├' | '╞' => fresh = true,
            '│' => {
                let inner = line.strip_prefix('│').and_then(|l| l.strip_suffix('│')).ok_or_else(|| format!("the line {line:?} of a table is not closed"))?;
                let (a, b) = inner.split_once('┆').ok_or_else(|| format!("the line {line:?} of a table has one column"))?;
                let t = |s: &str| s.strip_prefix(' ').unwrap_or(s).trim_end().to_string();
                if fresh {
                    out.push((vec![], vec![]));
                    fresh = false;
                }
                if let Some(r) = out.last_mut() {
                    r.0.push(t(a));
                    r.1.push(t(b));
                }
            }
            _ => return Err(format!("the line {line:?} does not belong to a table")),
        }
        if matches!(first, '╭' | '┌') {
            fresh = true;
        }
    }
    if out.is_empty() || out[0].0.join("") != "Key" || out[0].1.join("") != "Value" {
        return Err(format!("a table without its heading: {}", truncate(table, 200)));
    }
    out.remove(0);
    Ok(out)
}
fn lines_of(s: &str) -> Vec<String> {
    s.lines().map(|l| l.trim_end().to_string()).collect()
}
/// Lines without those that are empty at either end.
fn squeezed(mut l: Vec<String>) -> Vec<String> {
    while l.last().is_some_and(String::is_empty) {
        l.pop();
    }
    while l.first().is_some_and(String::is_empty) {
        l.remove(0);
    }
    l
}
fn table_shows(text: &str, m: &BTreeMap<String, MV>, of: &dyn Fn(&str) -> Option<Value>) -> Result<(), String> {
    let got = rows(text.trim_start_matches('\n'))?;
    if got.len() != m.len() {
        return Err(format!("{} entries are shown in {} rows", m.len(), got.len()));
    }
    let mut seen = std::collections::BTreeSet::new();
    for (k, v) in got {
        let k = squeezed(k).join("\n");
        if !m.contains_key(&k) {
            return Err(format!("a row shows the key {k:?}, which is not there"));
        }
        if !seen.insert(k.clone()) {
            return Err(format!("the key {k:?} is shown twice"));
        }
        let want = of(&k).map(|v| v.to_string()).unwrap_or_default();
        if squeezed(v.clone()) != squeezed(lines_of(&want)) {
            return Err(format!("beside the key {k:?} the table shows {} instead of {}", truncate(&v.join("\n"), 300), truncate(&want, 300)));
        }
    }
    Ok(())
}
fn prints(m: &MV, v: &Value) -> Result<(), String> {
    let m = m.expand();
    if let Some(r) = scalar(&m, v) {
        return r;
    }
    match (m, v) {
        (MV::Arr(a), Value::Array(b)) => {
            let parts: Vec<String> = b.iter().map(Value::to_string).collect();
            let want = format!("[{}]", parts.join(", "));
            let got = v.to_string();
            if got != want {
                return Err(format!("an array prints as {} instead of {}", truncate(&got, 300), truncate(&want, 300)));
            }
            a.iter().zip(b).try_for_each(|(m, v)| prints(m, v))
        }
        (MV::Map(x), Value::Map(y)) => {
            table_shows(&v.to_string(), &x, &|k| y.get(k).cloned())?;
            x.iter().try_for_each(|(k, m)| y.get(k).map_or(Ok(()), |v| prints(m, v)))
        }
        (m, v) => Err(format!("{m:?} was built as {v:?}")),
    }
}
fn c28_value(m: &MV, case: &mut Case) -> TestResult {
    let m = tame(m, if m.is_container() { 60 } else { usize::MAX });
    m.labels(case);
    if m.is_container() || !matches!(m, MV::Null | MV::Bool(_)) {
        case.nontrivial();
    }
    prints(&m, &m.build()).map_err(Fail::Violation)
}
fn c28_store(m: &MStore, case: &mut Case) -> TestResult {
    let m: MStore = m.iter().map(|(k, v)| (cell(k), tame(v, 60))).collect();
    let s: Store = build_store(&m);
    case.label_if(m.is_empty(), "empty_store");
    if m.len() > 1 {
        case.nontrivial();
    }
    table_shows(&s.to_string(), &m, &|k| s.get(k).cloned()).map_err(Fail::Violation)?;
    m.iter().try_for_each(|(k, m)| s.get(k).map_or(Ok(()), |v| prints(m, v))).map_err(Fail::Violation)
}
/// Anything at all can be printed.
fn c28_any(m: &MV, case: &mut Case) -> TestResult {
    if m.is_container() {
        case.nontrivial();
    }
    let long = m.any(&|x| matches!(x, MV::Bin(b) if b.bytes().len() > 1000) || matches!(x, MV::Rep(..) | MV::MapN(..) | MV::Deep(..)));
    let v = if long { tame(m, 300).build() } else { m.build() };
    ensure!(!v.to_string().is_empty(), "{} prints as nothing", truncate(&format!("{m:?}"), 300));
    ensure!(!format!("{v:?}").is_empty(), "{} prints as nothing for debugging", truncate(&format!("{m:?}"), 300));
    Ok(())
}
pub fn c28p() -> Property {
    Property {
        id: "C28",
        rule: "values and stores of every kind, nested; scalars against an independent rendering, arrays against their parts, tables taken apart into rows; non-trivial: anything but null and booleans, stores of at least two entries",
        level: "exploration",
        assumptions: &["standard output is not a terminal, so tables are as wide as they need to be", "keys in the table checks hold no line ends, control or box-drawing characters"],
        checks: vec![
            Pbt::boxed("scalar", 150_000, 1_000_000, leaf, c28_value),
            Pbt::boxed("value", 12_000, 120_000, mv, c28_value),
            Pbt::boxed("store", 8_000, 80_000, mstore, c28_store),
            Pbt::boxed("anything", 8_000, 80_000, mv, c28_any),
        ],
    }
}
