//! N10: addresses and configurations.
use mc::report::Check;
use mpc_net::config::*;
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::net::{SocketAddr, ToSocketAddrs};
use std::path::{Path, PathBuf};
use std::time::Duration;

pub fn main() {
    let c = Check::new("N10");
    c.assume("hosts that are empty or contain spaces or brackets, ports with a plus sign or leading zeros may be refused; when accepted, host and port are kept");
    let go = |name: &str, f: &dyn Fn(&Check, &str)| {
        if c.selected(name) {
            c.at(name);
            f(&c, name);
        }
    };
    go("address-strings", &strings);
    go("address-ports", &ports);
    go("address-roundtrip", &roundtrip);
    go("address-resolve", &resolve);
    go("config-roundtrip", &configs);
    go("config-limits", &limits);
    go("config-layout", &layout);
    go("config-broken", &broken);
    go("config-truncated", &truncated);
    go("config-tls-files", &tls_files);
    go("builder", &builder);
    c.finish()
}

fn q<T>(a: T, b: T) -> T {
    if mc::report::thorough() { b } else { a }
}

/// What the address grammar says about a text.
enum Say {
    Must(String, u16),
    May(String, u16),
    Never,
}
fn reference(s: &str) -> Say {
    let mut parts = s.split(':');
    let (Some(h), Some(p), None) = (parts.next(), parts.next(), parts.next()) else { return Say::Never };
    let (digits, plus) = match p.strip_prefix('+') {
        Some(d) => (d, true),
        None => (p, false),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return Say::Never;
    }
    let v = digits.bytes().fold(0u64, |a, b| a.saturating_mul(10).saturating_add((b - b'0') as u64));
    if v > 65535 {
        return Say::Never;
    }
    let odd = plus
        || (digits.len() > 1 && digits.starts_with('0'))
        || h.is_empty()
        || !h.bytes().all(|b| b.is_ascii_alphanumeric() || b".-_".contains(&b));
    let r = (h.to_string(), v as u16);
    if odd { Say::May(r.0, r.1) } else { Say::Must(r.0, r.1) }
}

/// Checks one text through FromStr and serde.
fn one(c: &Check, name: &str, s: &str, serde: bool) -> bool {
    let judge = |how: &str, got: Result<Address, String>| {
        let say = reference(s);
        let ok = match (&say, &got) {
            (Say::Never, Err(_)) | (Say::May(..), Err(_)) => true,
            (Say::Must(h, p), Ok(a)) | (Say::May(h, p), Ok(a)) => a.hostname == *h && a.port == *p,
            _ => false,
        };
        c.expect(ok, name, || {
            let want = match say {
                Say::Never => "an error".to_string(),
                Say::Must(h, p) => format!("host {h:?} port {p}"),
                Say::May(h, p) => format!("host {h:?} port {p} or an error"),
            };
            format!("{how} of {s:?} gives {got:?}, expected {want}")
        })
    };
    let Some(a) = c.no_panic(name, || format!("parsing {s:?}"), || s.parse::<Address>().map_err(|e| e.to_string())) else { return false };
    if let Ok(a) = &a {
        if !c.expect(a.to_string().parse::<Address>().as_ref() == Ok(a), name, || format!("{s:?} is read as {a:?}, printed as {:?} and that is not read as the same", a.to_string())) {
            return false;
        }
    }
    if !judge("parsing", a) {
        return false;
    }
    if serde {
        let Some(a) = c.no_panic(name, || format!("deserialising {s:?}"), || serde_json::from_value::<Address>(Value::String(s.into())).map_err(|e| e.to_string())) else { return false };
        return judge("deserialising", a);
    }
    true
}

fn strings(c: &Check, name: &str) {
    const ALPHABET: &[u8] = b"a:0169[].- +";
    let depth = q(6, 7);
    let mut total = 0u64;
    let mut failed = false;
    // every text up to the depth
    let mut buf = Vec::new();
    fn rec(buf: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
        if !f(std::str::from_utf8(buf).unwrap()) {
            return false;
        }
        if left > 0 {
            for &b in ALPHABET {
                buf.push(b);
                let go = rec(buf, left - 1, f);
                buf.pop();
                if !go {
                    return false;
                }
            }
        }
        true
    }
    rec(&mut buf, depth, &mut |s| {
        total += 1;
        if total % 4096 == 0 {
            c.tick();
        }
        if !one(c, name, s, s.len() <= 4) {
            failed = true;
            return false;
        }
        true
    });
    // other characters, and real-looking addresses with every single-character edit
    let bases = ["localhost:10000", "127.0.0.1:65535", "party-1.example.org:443", "a.b:0", "::1:80", "[::1]:80", "h:65536", "https://h:1"];
    let chars: Vec<char> = (0u8..128).map(|b| b as char).chain(['é', '٣', '：', '\u{200b}', '💥']).collect();
    'outer: for b in bases {
        let v: Vec<char> = b.chars().collect();
        for i in 0..=v.len() {
            for &ch in &chars {
                let mut ins = v.clone();
                ins.insert(i, ch);
                let mut edits = vec![ins];
                if i < v.len() {
                    let mut r = v.clone();
                    r[i] = ch;
                    edits.push(r);
                }
                for e in edits {
                    let s: String = e.into_iter().collect();
                    total += 1;
                    if !one(c, name, &s, true) {
                        break 'outer;
                    }
                }
            }
            if i < v.len() {
                let mut d = v.clone();
                d.remove(i);
                let s: String = d.into_iter().collect();
                total += 1;
                if !one(c, name, &s, true) {
                    break 'outer;
                }
            }
        }
    }
    c.count(total, total);
    c.note(name, json!({"texts": total, "depth": depth, "alphabet": String::from_utf8_lossy(ALPHABET)}));
}

fn ports(c: &Check, name: &str) {
    let mut n = 0;
    for p in 0..q(70_000u64, 700_000) {
        n += 1;
        if !one(c, name, &format!("host.x:{p}"), true) {
            return;
        }
    }
    for e in 5..40 {
        for d in [0u128, 1, 80, 65535, 65536] {
            let base = 1u128.checked_shl(e * 3).unwrap_or(0);
            for s in [format!("h:{}", base + d), format!("h:{}", u128::MAX - d), format!("h:-{d}"), format!("h:{d}.0"), format!("h:0x{d}"), format!("h:{d}e1")] {
                n += 1;
                if !one(c, name, &s, true) {
                    return;
                }
            }
        }
    }
    c.count(n, n);
    c.note(name, json!({"texts": n}));
}

const HOSTS: [&str; 8] = ["a", "localhost", "127.0.0.1", "party0", "party-1.example.org", "0", "A.b", "x_y"];

fn roundtrip(c: &Check, name: &str) {
    let mut n = 0;
    for h in HOSTS {
        for p in 0..=65535u32 {
            if p % q(17, 1) != 0 && ![1, 80, 443, 65535, 65534].contains(&p) {
                continue;
            }
            n += 1;
            let a = Address::new(h.to_string(), p as u16);
            let text = format!("{h}:{p}");
            if !c.expect(a.hostname == h && a.port == p as u16, name, || format!("Address::new({h:?}, {p}) holds {a:?}"))
                || !c.expect(a.to_string() == text, name, || format!("{a:?} is printed as {:?}", a.to_string()))
                || !c.expect(text.parse().as_ref() == Ok(&a), name, || format!("{text:?} is not read as {a:?}"))
            {
                return;
            }
            let j = serde_json::to_string(&a).map_err(|e| e.to_string());
            if !c.expect(j == Ok(format!("\"{text}\"")), name, || format!("{a:?} is serialised as {j:?}"))
                || !c.expect(serde_json::from_str::<Address>(&j.clone().unwrap()).ok().as_ref() == Some(&a), name, || format!("{j:?} is not deserialised as {a:?}"))
            {
                return;
            }
            let t = toml::Value::try_from(&a).map_err(|e| e.to_string());
            if !c.expect(t.clone().ok().and_then(|t| t.try_into::<Address>().ok()).as_ref() == Some(&a), name, || format!("{a:?} does not survive TOML: {t:?}")) {
                return;
            }
        }
    }
    c.count(n, n);
    c.note(name, json!({"addresses": n}));
}

fn resolve(c: &Check, name: &str) {
    let mut n = 0;
    let o = [0u8, 1, 10, 127, 255];
    for a in o {
        for b in o {
            for d in o {
                for e in o {
                    for p in [0u16, 1, 80, 10000, 65535] {
                        n += 1;
                        let addr = Address::new(format!("{a}.{b}.{d}.{e}"), p);
                        let got: Result<Vec<SocketAddr>, _> = addr.to_socket_addrs().map(|i| i.collect()).map_err(|e| e.to_string());
                        let want: SocketAddr = ([a, b, d, e], p).into();
                        if !c.expect(got == Ok(vec![want]), name, || format!("{addr} resolves to {got:?}")) {
                            return;
                        }
                    }
                }
            }
        }
    }
    c.count(n, n);
    c.note(name, json!({"addresses": n}));
}

// ------------------------------------------------------------ configurations

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut p = p.clone();
            p.insert(i, n - 1);
            out.push(p);
        }
    }
    out
}

/// Party lists: every list of distinct ids below `max` in every order, and each with its own address.
fn party_lists(max: usize) -> Vec<Vec<NetworkParty>> {
    let mut out = vec![];
    for mask in 0u32..1 << max {
        let ids: Vec<usize> = (0..max).filter(|i| mask >> i & 1 == 1).collect();
        for p in perms(ids.len()) {
            out.push(p.iter().map(|&k| NetworkParty::new(ids[k], Address::new(format!("{}{}", HOSTS[ids[k] % 5], if ids[k] == 0 { "" } else { "x" }), [0, 80, 65535, 10000][ids[k] % 4]))).collect());
        }
    }
    out
}

fn binds() -> Vec<SocketAddr> {
    ["0.0.0.0:0", "127.0.0.1:10000", "[::]:65535", "[2001:db8::1]:443"].iter().map(|s| s.parse().unwrap()).collect()
}

fn tls_choices() -> Vec<Option<TlsConfigFile>> {
    let certs: Vec<PathBuf> = ["c0.der", "data/c1.der", "/abs/c 2.der"].iter().map(PathBuf::from).collect();
    let mut out = vec![None];
    for mask in 0u32..8 {
        let ids: Vec<usize> = (0..3).filter(|i| mask >> i & 1 == 1).collect();
        for p in perms(ids.len()) {
            out.push(Some(TlsConfigFile { key: PathBuf::from("key \"0\".der"), certs: p.iter().map(|&k| certs[ids[k]].clone()).collect() }));
        }
    }
    out.push(Some(TlsConfigFile { key: PathBuf::from("c0.der"), certs: vec![certs[0].clone(), certs[0].clone()] }));
    out
}

fn text_of(d: Duration) -> String {
    // an own spelling of a duration: seconds and nanoseconds
    match (d.as_secs(), d.subsec_nanos()) {
        (s, 0) => format!("{s}s"),
        (0, n) => format!("{n}ns"),
        (s, n) => format!("{s}s {n}ns"),
    }
}

fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// The members of a configuration as texts valid in both formats (the TOML spelling uses inline tables).
fn members(f: &NetworkConfigFile, toml: bool) -> Vec<(&'static str, String)> {
    let eq = if toml { " = " } else { ": " };
    let k = |s: &str| if toml { s.to_string() } else { quote(s) };
    let parties = f.parties.iter().map(|p| format!("{{{}{eq}{}, {}{eq}{}}}", k("id"), p.id, k("dns_name"), quote(&format!("{}:{}", p.dns_name.hostname, p.dns_name.port)))).collect::<Vec<_>>().join(", ");
    let mut v = vec![("parties", format!("[{parties}]")), ("my_id", f.my_id.to_string()), ("bind_addr", quote(&f.bind_addr.to_string()))];
    if let Some(t) = &f.tls {
        let certs = t.certs.iter().map(|p| quote(p.to_str().unwrap())).collect::<Vec<_>>().join(", ");
        v.push(("tls", format!("{{{}{eq}[{certs}], {}{eq}{}}}", k("certs"), k("key"), quote(t.key.to_str().unwrap()))));
    }
    for (n, d) in [("timeout", f.timeout), ("connect_timeout", f.connect_timeout), ("flush_timeout", f.flush_timeout)] {
        if let Some(d) = d {
            v.push((n, quote(&text_of(d))));
        }
    }
    if let Some(m) = f.max_frame_length {
        v.push(("max_frame_length", m.to_string()));
    }
    v
}
fn join(m: &[(&str, String)], toml: bool) -> String {
    if toml {
        m.iter().map(|(k, v)| format!("{k} = {v}\n")).collect()
    } else {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", quote(k))).collect::<Vec<_>>().join(", "))
    }
}
fn read(text: &str, toml: bool) -> Result<NetworkConfigFile, String> {
    if toml { toml::from_str(text).map_err(|e| e.to_string()) } else { serde_json::from_str(text).map_err(|e| e.to_string()) }
}

/// Field by field, without the derived equality.
fn same(a: &NetworkConfigFile, b: &NetworkConfigFile) -> bool {
    let ps = |v: &[NetworkParty]| v.iter().map(|p| (p.id, p.dns_name.hostname.clone(), p.dns_name.port)).collect::<Vec<_>>();
    ps(&a.parties) == ps(&b.parties)
        && a.my_id == b.my_id
        && a.bind_addr == b.bind_addr
        && a.tls.as_ref().map(|t| (t.key.clone(), t.certs.clone())) == b.tls.as_ref().map(|t| (t.key.clone(), t.certs.clone()))
        && a.timeout == b.timeout
        && a.connect_timeout == b.connect_timeout
        && a.flush_timeout == b.flush_timeout
        && a.max_frame_length == b.max_frame_length
}
fn carried(a: &NetworkConfigFile, b: &NetworkConfig) -> bool {
    let ps = |v: &[NetworkParty]| v.iter().map(|p| (p.id, p.dns_name.hostname.clone(), p.dns_name.port)).collect::<Vec<_>>();
    ps(&a.parties) == ps(&b.parties)
        && a.my_id == b.my_id
        && a.bind_addr == b.bind_addr
        && a.tls.is_some() == b.tls.is_some()
        && a.timeout == b.timeout
        && a.connect_timeout == b.connect_timeout
        && a.flush_timeout == b.flush_timeout
        && a.max_frame_length == b.max_frame_length
}

/// One configuration: hand-written texts and the library's own output are read back as it, in both formats.
fn config(c: &Check, name: &str, f: &NetworkConfigFile) -> bool {
    for toml in [false, true] {
        let fmt = if toml { "TOML" } else { "JSON" };
        let text = join(&members(f, toml), toml);
        let got = read(&text, toml);
        if !c.expect(got.as_ref().is_ok_and(|g| same(g, f)), name, || format!("{fmt} text {text} is read as {got:?}")) {
            return false;
        }
        let own = if toml { toml::to_string(f).map_err(|e| e.to_string()) } else { serde_json::to_string(f).map_err(|e| e.to_string()) };
        let back = own.clone().and_then(|t| read(&t, toml));
        if !c.expect(back.as_ref().is_ok_and(|g| same(g, f) && g == f), name, || format!("{f:?} is written as {fmt} {own:?} and read back as {back:?}")) {
            return false;
        }
    }
    if f.tls.is_none() {
        let got = NetworkConfig::try_from(f.clone()).map_err(|e| e.to_string());
        return c.expect(got.as_ref().is_ok_and(|g| carried(f, g) && g.clone() == *g), name, || format!("{f:?} is loaded as {got:?}"));
    }
    true
}

fn configs(c: &Check, name: &str) {
    let mut n = 0;
    let lists = party_lists(q(3, 4));
    for parties in &lists {
        for my_id in [0usize, 1, 2, 3, 1000] {
            for bind_addr in binds() {
                for tls in tls_choices() {
                    n += 1;
                    if n % 256 == 0 {
                        c.tick();
                    }
                    let f = NetworkConfigFile { parties: parties.clone(), my_id, bind_addr, tls, timeout: None, connect_timeout: None, flush_timeout: None, max_frame_length: None };
                    if !config(c, name, &f) {
                        return;
                    }
                }
            }
        }
    }
    // parties sharing an id or an address, large ids
    for ids in [[0usize, 0], [5, 5], [1, 0], [usize::MAX >> 1, 0]] {
        for hosts in [["a", "a"], ["a", "b"], ["b", "a"]] {
            n += 1;
            let parties = (0..2).map(|i| NetworkParty::new(ids[i], Address::new(hosts[i].into(), 7))).collect();
            let f = NetworkConfigFile { parties, my_id: ids[0], bind_addr: binds()[0], tls: None, timeout: None, connect_timeout: None, flush_timeout: None, max_frame_length: None };
            if !config(c, name, &f) {
                return;
            }
        }
    }
    c.count(n, n * 5);
    c.note(name, json!({"configurations": n, "party lists": lists.len()}));
}

fn durations() -> Vec<Option<Duration>> {
    let mut v = vec![None];
    for s in [0u64, 1, 59, 60, 61, 3600, 86400, 31_557_600 * 3 + 5] {
        for n in [0u32, 1, 1_000, 1_000_000, 500_000_000, 999_999_999] {
            v.push(Some(Duration::new(s, n)));
        }
    }
    v
}

fn limits(c: &Check, name: &str) {
    let base = NetworkConfigFile { parties: party_lists(2).pop().unwrap(), my_id: 1, bind_addr: binds()[1], tls: None, timeout: None, connect_timeout: None, flush_timeout: None, max_frame_length: None };
    let few: Vec<Option<Duration>> = vec![None, Some(Duration::ZERO), Some(Duration::from_secs(5)), Some(Duration::new(61, 7)), Some(Duration::from_millis(250))];
    let frames = [None, Some(0usize), Some(1), Some(65536), Some(i64::MAX as usize)];
    let mut n = 0;
    let mut go = |f: NetworkConfigFile| {
        n += 1;
        config(c, name, &f)
    };
    for &timeout in &few {
        for &connect_timeout in &few {
            for &flush_timeout in &few {
                for &max_frame_length in &frames {
                    if !go(NetworkConfigFile { timeout, connect_timeout, flush_timeout, max_frame_length, ..base.clone() }) {
                        return;
                    }
                }
            }
        }
    }
    for d in durations() {
        for f in [
            NetworkConfigFile { timeout: d, ..base.clone() },
            NetworkConfigFile { connect_timeout: d, ..base.clone() },
            NetworkConfigFile { flush_timeout: d, ..base.clone() },
        ] {
            if !go(f) {
                return;
            }
        }
    }
    c.count(n, n * 5);
    c.note(name, json!({"configurations": n}));
}

fn full() -> NetworkConfigFile {
    NetworkConfigFile {
        parties: party_lists(3).pop().unwrap(),
        my_id: 2,
        bind_addr: binds()[3],
        tls: tls_choices().into_iter().rev().nth(1).unwrap(),
        timeout: Some(Duration::from_secs(30)),
        connect_timeout: Some(Duration::from_millis(1500)),
        flush_timeout: Some(Duration::from_secs(7)),
        max_frame_length: Some(4096),
    }
}

/// Every order of the members, every set of optional members left out.
fn layout(c: &Check, name: &str) {
    let f = full();
    let mut n = 0;
    for toml in [false, true] {
        let m = members(&f, toml);
        for mask in 0u32..32 {
            let mut want = f.clone();
            let keep: Vec<_> = m
                .iter()
                .filter(|(k, _)| {
                    let drop = ["tls", "timeout", "connect_timeout", "flush_timeout", "max_frame_length"].iter().position(|o| o == k).is_some_and(|i| mask >> i & 1 == 1);
                    if drop {
                        match *k {
                            "tls" => want.tls = None,
                            "timeout" => want.timeout = None,
                            "connect_timeout" => want.connect_timeout = None,
                            "flush_timeout" => want.flush_timeout = None,
                            _ => want.max_frame_length = None,
                        }
                    }
                    !drop
                })
                .cloned()
                .collect();
            let all = mask == 0 || keep.len() <= 5 || mc::report::thorough();
            for (i, p) in perms(keep.len()).into_iter().enumerate() {
                if !all && i % 24 != 0 {
                    continue;
                }
                n += 1;
                if n % 256 == 0 {
                    c.tick();
                }
                let text = join(&p.iter().map(|&k| keep[k].clone()).collect::<Vec<_>>(), toml);
                let got = read(&text, toml);
                if !c.expect(got.as_ref().is_ok_and(|g| same(g, &want)), name, || format!("{text} is read as {got:?}")) {
                    return;
                }
            }
        }
        // tables in TOML's long form
        if toml {
            let text = "my_id = 1\nbind_addr = \"0.0.0.0:9\"\n[[parties]]\nid = 1\ndns_name = \"b:2\"\n[tls]\nkey = \"k\"\ncerts = [\"y\", \"x\"]\n[[parties]]\ndns_name = \"a:1\"\nid = 0\n";
            let got = read(text, true);
            let want = NetworkConfigFile {
                parties: vec![NetworkParty::new(1, Address::new("b".into(), 2)), NetworkParty::new(0, Address::new("a".into(), 1))],
                my_id: 1,
                bind_addr: "0.0.0.0:9".parse().unwrap(),
                tls: Some(TlsConfigFile { key: "k".into(), certs: vec!["y".into(), "x".into()] }),
                timeout: None,
                connect_timeout: None,
                flush_timeout: None,
                max_frame_length: None,
            };
            c.expect(got.as_ref().is_ok_and(|g| same(g, &want)), name, || format!("{text} is read as {got:?}"));
        }
    }
    c.count(n, n);
    c.note(name, json!({"texts": n}));
}

/// Every member missing, and every member replaced by a value of another kind.
fn broken(c: &Check, name: &str) {
    let f = full();
    let mut n = 0;
    for toml in [false, true] {
        let m = members(&f, toml);
        let reject = |m: &[(&str, String)], what: &str| {
            let text = join(m, toml);
            let Some(got) = c.no_panic(name, || format!("reading {text}"), || read(&text, toml)) else { return };
            c.expect(got.is_err(), name, || format!("{what}: {text} is read as {got:?}"));
        };
        for (i, (k, _)) in m.iter().enumerate() {
            if ["parties", "my_id", "bind_addr"].contains(k) {
                let mut w = m.clone();
                w.remove(i);
                n += 1;
                reject(&w, &format!("without {k}"));
            }
            let (open, close) = if toml { ("{a = 1}", "[true]") } else { ("{\"a\": 1}", "[true]") };
            let mut bad: Vec<&str> = vec!["true", "-1", "1.5", "\"\"", "\"x\"", "[[]]", open, close, "99999999999999999999999999"];
            if !toml {
                bad.push("{}");
                if ["parties", "my_id", "bind_addr"].contains(k) {
                    bad.push("null");
                }
            }
            match *k {
                "parties" => {
                    let colon = if toml { " = " } else { ": " };
                    let key = |s: &str| if toml { s.to_string() } else { quote(s) };
                    for b in [
                        format!("[{{{}{colon}0}}]", key("id")),
                        format!("[{{{}{colon}\"a:1\"}}]", key("dns_name")),
                        format!("[{{{}{colon}\"a:1\", {}{colon}\"0\"}}]", key("dns_name"), key("id")),
                        format!("[{{{}{colon}\"a:1\", {}{colon}-1}}]", key("dns_name"), key("id")),
                    ] {
                        let mut w = m.clone();
                        w[i].1 = b;
                        n += 1;
                        reject(&w, "a broken party");
                    }
                    // a broken address at every position
                    for pos in 0..3 {
                        for addr in ["", "a", "a:", ":", "a:b", "a:1:2", "a:65536", "a:-1", "a 1", "[::1]:80", "a:1 ", "a: 1"] {
                            let mut g = f.clone();
                            g.parties[pos].dns_name = Address::new("MARK".into(), 1);
                            let mut w = members(&g, toml);
                            w[i].1 = w[i].1.replace("MARK:1", addr);
                            n += 1;
                            reject(&w, "a broken address");
                        }
                    }
                }
                "my_id" | "max_frame_length" => bad.push("\"1\""),
                "bind_addr" => bad.extend(["\"1.2.3.4\"", "\"1.2.3.4:\"", "\"1.2.3.4:65536\"", "\"1.2.3.256:1\"", "\"::1:80\"", "1", "\"localhost:80\""]),
                "tls" => {
                    let colon = if toml { " = " } else { ": " };
                    let key = |s: &str| if toml { s.to_string() } else { quote(s) };
                    for b in [
                        format!("{{{}{colon}\"k\"}}", key("key")),
                        format!("{{{}{colon}[\"c\"]}}", key("certs")),
                        format!("{{{}{colon}\"c\", {}{colon}\"k\"}}", key("certs"), key("key")),
                        format!("{{{}{colon}[1], {}{colon}\"k\"}}", key("certs"), key("key")),
                        format!("{{{}{colon}[\"c\"], {}{colon}[\"k\"]}}", key("certs"), key("key")),
                    ] {
                        let mut w = m.clone();
                        w[i].1 = b;
                        n += 1;
                        reject(&w, "a broken TLS section");
                    }
                }
                _ => bad.extend(["5", "\"5\"", "\"s\"", "\"5 parsecs\"", "\"-5s\"", "\"5s x\"", "\"99999999999999999999s\""]),
            }
            for b in bad {
                let mut w = m.clone();
                w[i].1 = b.to_string();
                n += 1;
                reject(&w, &format!("{k} = {b}"));
            }
            if toml {
                let mut w = m.clone();
                w.push(m[i].clone());
                n += 1;
                reject(&w, &format!("{k} twice"));
            }
        }
    }
    c.count(n, n);
    c.note(name, json!({"texts": n}));
}

/// Every proper prefix of a text and every text with one byte removed: an error or a configuration, never a panic.
fn truncated(c: &Check, name: &str) {
    let f = full();
    let mut n = 0;
    for toml in [false, true] {
        let text = join(&members(&f, toml), toml);
        for i in 0..text.len() {
            n += 2;
            let cut = &text[..i];
            if let Some(r) = c.no_panic(name, || format!("reading {cut}"), || read(cut, toml)) {
                c.expect(toml || r.is_err(), name, || format!("the truncated text {cut} is read as {r:?}"));
                c.expect(r.is_err() || ["parties", "my_id", "bind_addr"].iter().all(|k| cut.contains(k)), name, || format!("{cut} is read as {r:?}"));
            }
            let mut gone = text.clone();
            gone.remove(i);
            c.no_panic(name, || format!("reading {gone}"), || read(&gone, toml).ok());
        }
    }
    c.count(n, n);
    c.note(name, json!({"texts": n}));
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("verif-n10-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Configurations whose key and certificates are files: contents and order are kept, unreadable files are errors.
fn tls_files(c: &Check, name: &str) {
    let s = Scratch::new();
    let dir: &Path = &s.0;
    let mut content: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let mut put = |n: &str, b: Vec<u8>| {
        let p = dir.join(n);
        std::fs::write(&p, &b).unwrap();
        content.insert(p.clone(), b);
        p
    };
    let key = put("key.der", (0..=255).rev().collect());
    let certs = [put("c0.der", vec![0x30, 1, 0]), put("c1.der", (0..=255).chain(0..=255).collect()), put("c2.der", vec![]), put("c3.der", vec![10, 13, 10, 0xff, 0])];
    let missing = dir.join("missing");
    let folder = dir.join("folder");
    std::fs::create_dir_all(&folder).unwrap();
    // a choice per position: one of the four files (0-3), a missing file (4), a folder (5)
    let path = |i: usize| match i {
        0..4 => certs[i].clone(),
        4 => missing.clone(),
        _ => folder.clone(),
    };
    let mut n = 0u64;
    for parties in party_lists(2) {
        for len in 0..=q(3, 4) {
            for code in 0..6usize.pow(len) {
                let picks: Vec<usize> = (0..len).map(|k| code / 6usize.pow(k) % 6).collect();
                for k in 0..3 {
                    n += 1;
                    if n % 256 == 0 {
                        c.tick();
                    }
                    let key_path = [&key, &missing, &folder][k];
                    let f = NetworkConfigFile { parties: parties.clone(), tls: Some(TlsConfigFile { key: key_path.clone(), certs: picks.iter().map(|&i| path(i)).collect() }), ..full() };
                    let Some(got) = c.no_panic(name, || format!("loading {f:?}"), || NetworkConfig::try_from(f.clone()).map_err(|e| e.to_string())) else { return };
                    let good = k == 0 && picks.iter().all(|&i| i < 4);
                    let ok = match (&got, good) {
                        (Err(_), false) => true,
                        (Ok(g), true) => {
                            let t = g.tls.as_ref();
                            carried(&f, g)
                                && t.is_some_and(|t| {
                                    t.key.secret_der() == &content[&key][..]
                                        && matches!(t.key, PrivateKeyDer::Pkcs8(_))
                                        && t.certs.len() == picks.len()
                                        && picks.iter().zip(&t.certs).all(|(&i, d)| d.as_ref() == &content[&certs[i]][..])
                                })
                                && g.clone() == *g
                        }
                        _ => false,
                    };
                    if !c.expect(ok, name, || format!("key {k}, certificates {picks:?} (4 missing, 5 folder): loaded as {got:?}")) {
                        return;
                    }
                }
            }
        }
    }
    c.count(n, n);
    c.note(name, json!({"configurations": n}));
}

/// Every sequence of builder calls: the last value of each kind is the one built, everything else stays.
fn builder(c: &Check, name: &str) {
    let tls = |i: u8| TlsConfig::new(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(vec![i, 1, 2])), (0..=i).map(|k| CertificateDer::from(vec![i, k])).collect());
    let depth = q(4, 6);
    let mut n = 0u64;
    let lists = party_lists(3);
    for len in 0..=depth {
        for code in 0..10usize.pow(len) {
            n += 1;
            if n % 512 == 0 {
                c.tick();
            }
            let calls: Vec<usize> = (0..len).map(|k| code / 10usize.pow(k) % 10).collect();
            let parties = lists[code % lists.len()].clone();
            let my_id = code % 4;
            let bind = binds()[code % 4];
            let mut b = if code % 2 == 0 { NetworkConfig::builder(my_id, bind, parties.clone()) } else { NetworkConfigBuilder::new(my_id, bind, parties.clone()) };
            let mut want: [Option<u64>; 5] = [None; 5];
            for &call in &calls {
                let v = (call % 2) as u64 + 1;
                want[call / 2] = Some(v);
                b = match call / 2 {
                    0 => b.tls_config(tls(v as u8)),
                    1 => b.timeout(Duration::from_secs(v)),
                    2 => b.connect_timeout(Duration::from_secs(10 + v)),
                    3 => b.flush_timeout(Duration::from_secs(20 + v)),
                    _ => b.max_frame_length(30 + v as usize),
                };
            }
            let g = b.clone().build();
            let ok = g.parties == parties
                && g.my_id == my_id
                && g.bind_addr == bind
                && g.tls == want[0].map(|v| tls(v as u8))
                && g.timeout == want[1].map(Duration::from_secs)
                && g.connect_timeout == want[2].map(|v| Duration::from_secs(10 + v))
                && g.flush_timeout == want[3].map(|v| Duration::from_secs(20 + v))
                && g.max_frame_length == want[4].map(|v| 30 + v as usize)
                && b.build() == g;
            if !c.expect(ok, name, || format!("builder calls {calls:?} (kind = value/2, 0 tls 1 timeout 2 connect 3 flush 4 frame) give {g:?}")) {
                return;
            }
        }
    }
    c.count(n, n * depth as u64);
    c.note(name, json!({"sequences": n, "depth": depth}));
}
