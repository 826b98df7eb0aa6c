// Streaming bridge to the Rust implementation; protocol as in server.js.
use latkerlo_jvotci::{
    analyze_brivla, get_lujvo, get_lujvo_with_analytics, get_veljvo, is_brivla, katna::search_selrafsi_from_rafsi,
    score_lujvo, Jvonunfli, Settings, RAFSI, SETTINGS_ITERATOR,
};
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Write};
use std::panic;
fn err(e: Jvonunfli) -> String {
    let d = format!("{e:?}");
    d.split('(').next().unwrap_or("").to_string()
}
fn tname(s: &str) -> &'static str {
    match s {
        "Gismu" => "GISMU",
        "Zihevla" => "ZIhEVLA",
        "Lujvo" => "LUJVO",
        "ExtendedLujvo" => "EXTENDED_LUJVO",
        "Rafsi" => "RAFSI",
        "Cmevla" => "CMEVLA",
        _ => "?",
    }
}
#[cfg(feature = "helpers")]
fn spans(input: &str) -> Result<String, String> {
    let parts: Vec<&str> = input.split('|').collect();
    let ix = latkerlo_jvotci::tools::get_rafsi_indices(&parts[..]);
    Ok(ix.iter().map(|x| format!("{}-{}", x[0], x[1])).collect::<Vec<_>>().join(","))
}
#[cfg(not(feature = "helpers"))]
fn spans(_: &str) -> Result<String, String> {
    Err("NoHelper".into())
}
fn run(op: &str, st: &Settings, input: &str) -> Result<String, String> {
    match op {
        "A" => {
            let (t, p) = analyze_brivla(input, st).map_err(err)?;
            Ok(format!("{}\t{}", tname(&format!("{t:?}")), p.join("|")))
        }
        "B" => Ok(if is_brivla(input, st) { "true" } else { "false" }.into()),
        "V" => Ok(get_veljvo(input, st).map_err(err)?.join("|")),
        "S" => Ok(score_lujvo(input, st).map_err(err)?.to_string()),
        "L" => {
            let (w, s, ix) = get_lujvo_with_analytics(input, st).map_err(err)?;
            let ix: Vec<String> = ix.iter().map(|x| format!("{}-{}", x[0], x[1])).collect();
            Ok(format!("{w}\t{s}\t{}", ix.join(",")))
        }
        "G" => get_lujvo(input, st).map_err(err),
        "D" => {
            let st = Settings::default();
            if input.contains(' ') {
                get_lujvo(input, &st).map_err(err)
            } else {
                let (t, p) = analyze_brivla(input, &st).map_err(err)?;
                Ok(format!("{}\t{}", tname(&format!("{t:?}")), p.join("|")))
            }
        }
        "R" => Ok(search_selrafsi_from_rafsi(input).unwrap_or_default()),
        "T" => {
            let mut v: Vec<String> = RAFSI.iter().map(|(k, r)| format!("{k}={}", r.join(","))).collect();
            v.sort();
            Ok(v.join(";"))
        }
        "I" => spans(input),
        "N" => Ok(SETTINGS_ITERATOR.iter().map(|s| format!("_{s}")).collect::<Vec<_>>().join(" ")),
        // the text of an error
        "EA" => Ok(analyze_brivla(input, st).map_or_else(|e| e.to_string(), |_| String::new())),
        "EV" => Ok(get_veljvo(input, st).map_or_else(|e| e.to_string(), |_| String::new())),
        "EG" => Ok(get_lujvo(input, st).map_or_else(|e| e.to_string(), |_| String::new())),
        // parse then display
        "P" => input.parse::<Settings>().map(|s| format!("_{s}")).map_err(|_| "SettingsError".into()),
        // apply_flags on st, then display (the settings after a refused call, too)
        "F" => {
            let mut s = *st;
            let r = s.apply_flags(input);
            Ok(format!("{}\t_{s}", if r.is_some() { "some" } else { "none" }))
        }
        _ => Err("bad op".into()),
    }
}
fn unesc(s: &str) -> String {
    if !s.contains('\\') {
        return s.to_string();
    }
    let mut out = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            let mut b = [0; 2];
            out.extend_from_slice(c.encode_utf16(&mut b));
            continue;
        }
        match it.next() {
            Some('n') => out.push(10),
            Some('t') => out.push(9),
            Some('r') => out.push(13),
            Some('b') => out.push(8),
            Some('f') => out.push(12),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                out.push(u16::from_str_radix(&h, 16).unwrap());
            }
            Some(c) => out.push(c as u16),
            None => {}
        }
    }
    String::from_utf16_lossy(&out)
}
fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = BufWriter::with_capacity(1 << 20, std::io::stdout());
    let mut cache: HashMap<String, Settings> = HashMap::new();
    let mut batch: Vec<String> = Vec::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line != "END" {
            batch.push(line);
            continue;
        }
        let mut res: Vec<String> = Vec::new();
        for line in batch.drain(..) {
            let mut it = line.split('\t');
            let (op, ss, raw) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            let input = unesc(raw);
            for s in ss.split(',') {
                let st = *cache.entry(s.to_string()).or_insert_with(|| s.parse().unwrap());
                let r = panic::catch_unwind(|| run(op, &st, &input));
                res.push(match r {
                    Ok(Ok(x)) => format!("OK\t{x}"),
                    Ok(Err(e)) => format!("ERR\t{e}"),
                    Err(_) => "ERR\tPANIC".to_string(),
                });
            }
        }
        for r in res {
            out.write_all(r.as_bytes()).unwrap();
            out.write_all(b"\n").unwrap();
        }
        out.flush().unwrap();
    }
}
