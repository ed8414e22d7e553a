//! C30: what the cache returns, over histories of fetches, faults and time
use crate::engine::*;
use crate::ensure;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::{Duration, SystemTime};

/// The environment says where the cache is
static ENV: Mutex<()> = Mutex::new(());

/// Addresses that differ in one part each
const ADDRESSES: [&str; 18] = [
    "https://a.test/s.json",
    "http://a.test/s.json",
    "https://b.test/s.json",
    "https://a.test:8443/s.json",
    "https://a.test:8080/s.json",
    "https://a.test/S.json",
    "https://a.test/d/s.json",
    "https://a.test/s",
    "https://a.test/s.toml",
    "https://a.test/d",
    "https://a.test/api/s.json",
    "https://a.test/api/v1/s",
    "https://a.test/s.json?v=1",
    "https://a.test/s.json?v=2",
    "https://a.test/s.json?ref=a/b",
    "https://a.test/s?v=1",
    "https://a.test/s%20a.json",
    "https://127.0.0.1:9/s.json",
];
#[derive(Debug, Default)]
struct Net {
    served: Mutex<HashMap<String, Vec<u8>>>,
    asked: Mutex<Vec<String>>,
}
#[derive(Debug)]
struct Client(Arc<Net>);
impl tombi_schema_store::HttpClient for Client {
    fn get_bytes<'a>(&'a self, url: &'a str) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        self.0.asked.lock().unwrap().push(url.into());
        let r = match self.0.served.lock().unwrap().get(url) {
            Some(b) => Ok(bytes::Bytes::from(b.clone())),
            None => Err(tombi_schema_store::FetchError::FetchFailed { reason: "down".into() }),
        };
        Box::pin(async move { r })
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Catalog,
    Schema,
    /// what the extensions fetch with: only without a network
    Remote,
    Read,
}
/// Contents every kind can read, told apart by a number; or broken ones
fn content(n: u64) -> Vec<u8> {
    format!("{{\"schemas\":[{{\"name\":\"n{n}\",\"description\":\"\",\"url\":\"https://n{n}.test/x.json\"}}],\"x\":{n}}}").into_bytes()
}
const BROKEN: [&[u8]; 4] = [b"", b"{\"schemas\":[", b"\xff\xfe{}", b"nothing"];
fn number(b: &[u8]) -> Option<u64> {
    let v: serde_json::Value = serde_json::from_slice(b).ok()?;
    v["x"].as_u64()
}
/// Options and the lifetime they mean
#[derive(Clone, Debug)]
struct Opts {
    given: bool,
    no_cache: Option<bool>,
    ttl: Option<u64>,
    offline: bool,
}
const TTLS: [u64; 4] = [100, 3_000, 50_000, 1_000_000];
/// Far enough from every lifetime
const AGES: [i64; 6] = [-2_000, 0, 1_000, 10_000, 86_300 - 200, 500_000];

struct Home<'a> {
    _lock: MutexGuard<'a, ()>,
}
impl<'a> Home<'a> {
    /// One of the places the environment may name
    fn new(dir: &std::path::Path, layout: usize, ttl: Option<&str>) -> Home<'a> {
        let lock = ENV.lock().unwrap_or_else(|e| e.into_inner());
        unsafe {
            for v in ["TOMBI_CACHE_HOME", "XDG_CACHE_HOME", "TOMBI_CACHE_TTL"] {
                std::env::remove_var(v);
            }
            std::env::set_var("HOME", dir.join("home"));
            match layout {
                0 => std::env::set_var("TOMBI_CACHE_HOME", dir.join("cache")),
                1 => std::env::set_var("XDG_CACHE_HOME", dir.join("xdg")),
                2 => {
                    std::env::set_var("XDG_CACHE_HOME", dir.join("xdg"));
                    std::env::set_var("TOMBI_CACHE_HOME", dir.join("cache"));
                }
                _ => (),
            }
            if let Some(t) = ttl {
                std::env::set_var("TOMBI_CACHE_TTL", t);
            }
        }
        Home { _lock: lock }
    }
}
impl Drop for Home<'_> {
    fn drop(&mut self) {
        unsafe {
            std::env::set_var("TOMBI_CACHE_HOME", "/dev/null/none");
            std::env::remove_var("TOMBI_CACHE_TTL");
            std::env::remove_var("XDG_CACHE_HOME");
        }
    }
}
fn c30_histories(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let dir = ctx.scratch.join("cache");
    let _ = std::fs::remove_dir_all(&dir);
    let layout = src.usize(0, 3);
    let env_ttl = if src.chance(1, 4) { Some(*src.pick(&["100", "50000", "x", "", "-1"])) } else { None };
    // a fetch without options, or with the default ones, uses this
    let default_ttl = env_ttl.and_then(|t| t.parse::<u64>().ok()).unwrap_or(86_400);
    let _home = Home::new(&dir, layout, env_ttl);
    let n_addr = *src.pick(&[1, 2, 2, 2, 3, 4]);
    let mut urls: Vec<&str> = ADDRESSES.to_vec();
    src.shuffle(&mut urls);
    urls.truncate(n_addr);
    let net = Arc::new(Net::default());
    // the model: what is stored for an address, and how long ago
    let mut stored: BTreeMap<&str, (Vec<u8>, i64)> = BTreeMap::new();
    let mut last = 0;
    let mut log = format!("layout {layout}, TOMBI_CACHE_TTL {env_ttl:?}\n");
    let (mut hits, mut misses, mut stale) = (0, 0, 0);
    let steps = src.usize(6, 24);
    for _ in 0..steps {
        let u = *src.pick(&urls);
        let uri: tombi_uri::Uri = u.parse().unwrap();
        match src.weighted(&[4, 1, 3, 1, 2, 9, 1]) {
            // the network has something new there, which may be broken
            0 => {
                last += 1;
                let b = if src.chance(1, 6) { src.pick(&BROKEN).to_vec() } else { content(last) };
                log += &format!("serve {u} {:?}\n", String::from_utf8_lossy(&b));
                net.served.lock().unwrap().insert(u.into(), b);
            }
            1 => {
                log += &format!("fail {u}\n");
                net.served.lock().unwrap().remove(u);
            }
            // time passes for one stored copy
            2 => {
                if let Some(s) = stored.get_mut(u) {
                    let age = *src.pick(&AGES);
                    let Some(path) = ctx.block_on(tombi_cache::get_cache_file_path(&uri)) else { return fail("no-path", format!("no cache path for {u}")) };
                    let now = SystemTime::now();
                    let t = if age < 0 { now + Duration::from_secs(-age as u64) } else { now - Duration::from_secs(age as u64) };
                    let f = match std::fs::File::options().append(true).open(&path) {
                        Ok(f) => f,
                        Err(e) => return fail("not-stored", format!("{log}age {u}: {path:?}: {e}")),
                    };
                    f.set_modified(t).unwrap();
                    s.1 = age;
                    log += &format!("age {u} {age}\n");
                }
            }
            // a stored copy breaks
            3 => {
                if let Some(s) = stored.get_mut(u) {
                    let Some(path) = ctx.block_on(tombi_cache::get_cache_file_path(&uri)) else { return fail("no-path", format!("no cache path for {u}")) };
                    s.0 = src.pick(&BROKEN).to_vec();
                    s.1 = 0;
                    log += &format!("break {u} {:?}\n", s.0);
                    std::fs::write(path, &s.0).unwrap();
                }
            }
            // another program stores
            4 => {
                last += 1;
                let b = content(last);
                log += &format!("store {u} {last}\n");
                let r = ctx.block_on(async { tombi_cache::save_to_cache(tombi_cache::get_cache_file_path(&uri).await.as_deref(), &b).await });
                ensure!(r.is_ok(), "store-error", "{log}{:?}", r);
                stored.insert(u, (b, 0));
            }
            5 => {
                let kind = *src.pick(&[Kind::Catalog, Kind::Schema, Kind::Remote, Kind::Read]);
                let o = Opts {
                    given: src.chance(5, 6),
                    no_cache: if src.chance(1, 3) { Some(src.bool()) } else { None },
                    ttl: if src.chance(3, 4) { Some(*src.pick(&TTLS)) } else { None },
                    offline: kind == Kind::Remote || src.chance(1, 3),
                };
                log += &format!("{kind:?} {u} {o:?}: ");
                let options = o.given.then(|| tombi_cache::Options { no_cache: o.no_cache, cache_ttl: o.ttl.map(Duration::from_secs) });
                let ttl = if o.given { o.ttl } else { Some(default_ttl) };
                let no_cache = o.given && o.no_cache == Some(true);
                net.asked.lock().unwrap().clear();
                let got: Result<Option<Option<u64>>, String> = match kind {
                    Kind::Read => ctx
                        .block_on(async { tombi_cache::read_from_cache(tombi_cache::get_cache_file_path(&uri).await.as_deref(), options.as_ref()).await })
                        .map(|t| t.map(|t| number(t.as_bytes())))
                        .map_err(|e| e.to_string()),
                    Kind::Remote => Ok(ctx.block_on(tombi_extension::fetch_cached_remote_json::<serde_json::Value>(u, true, options.as_ref())).map(|v| v["x"].as_u64())),
                    _ => {
                        let store = tombi_schema_store::SchemaStore::new_with_options_and_http_client(
                            tombi_schema_store::Options { strict: None, offline: if o.offline { Some(true) } else { None }, cache: options },
                            Arc::new(Client(net.clone())),
                        );
                        if kind == Kind::Schema {
                            ctx.block_on(store.fetch_schema_value(&u.parse().unwrap()))
                                .map(|v| v.map(|v| serde_json::from_str::<serde_json::Value>(&tombi_json::Value::from(v).to_string()).ok().and_then(|v| v["x"].as_u64())))
                                .map_err(|e| e.to_string())
                        } else {
                            ctx.block_on(store.load_catalog_from_uri(&u.parse().unwrap()))
                                .map(|c| c.map(|c| c.schemas.first().and_then(|s| s.name[1..].parse().ok())))
                                .map_err(|e| e.to_string())
                        }
                    }
                };
                log += &format!("{got:?}\n");
                let copy = stored.get(u).filter(|_| !no_cache).cloned();
                let fresh = copy.as_ref().filter(|c| ttl.is_none_or(|t| c.1 <= t as i64));
                let asked = net.asked.lock().unwrap().clone();
                if kind == Kind::Read {
                    let want = fresh.map(|c| c.0.clone());
                    match &want {
                        // text that is no text
                        Some(b) if std::str::from_utf8(b).is_err() => ensure!(got.is_err(), "read", "{log}an error expected"),
                        Some(b) => ensure!(got == Ok(Some(number(b))), "read", "{log}{:?} expected", number(b)),
                        None => ensure!(got == Ok(None), "read", "{log}nothing expected: the copy is {copy:?}"),
                    }
                    continue;
                }
                let readable = |c: Option<&(Vec<u8>, i64)>| c.and_then(|c| number(&c.0));
                if let Some(n) = readable(fresh) {
                    hits += 1;
                    ensure!(got == Ok(Some(Some(n))), "fresh", "{log}the stored {n} expected");
                    ensure!(asked.is_empty(), "asked", "{log}the network was asked {asked:?} though there is a fresh copy");
                } else if o.offline {
                    stale += copy.is_some() as u32;
                    ensure!(asked.is_empty(), "offline", "{log}the network was asked {asked:?} when offline");
                    let want = readable(copy.as_ref()).map(Some);
                    ensure!(got == Ok(want), "offline-copy", "{log}{want:?} expected");
                } else {
                    misses += 1;
                    ensure!(asked == [u], "ask", "{log}the network was asked {asked:?}");
                    let served = net.served.lock().unwrap().get(u).cloned();
                    match served {
                        Some(b) => {
                            match number(&b) {
                                Some(n) => ensure!(got == Ok(Some(Some(n))), "served", "{log}the served {n} expected"),
                                None => ensure!(got.is_err(), "served-broken", "{log}an error expected"),
                            }
                            stored.insert(u, (b, 0));
                        }
                        None => {
                            stale += copy.is_some() as u32;
                            match readable(copy.as_ref()) {
                                Some(n) => ensure!(got == Ok(Some(Some(n))), "fallback", "{log}the stored {n} expected"),
                                None => ensure!(got.is_err(), "fallback-none", "{log}an error expected"),
                            }
                        }
                    }
                }
            }
            _ => {
                log += "refresh\n";
                let r = ctx.block_on(tombi_cache::refresh_cache());
                ensure!(matches!(r, Ok(true)), "refresh", "{log}{r:?}");
                stored.clear();
            }
        }
    }
    ctx.attach("history.txt", &log);
    ctx.label_if(hits > 0, "fresh copy");
    ctx.label_if(stale > 0, "stale copy without network");
    ctx.label_if(misses > 0, "asked the network");
    if hits > 0 && misses + stale > 0 {
        ctx.nontrivial(&log);
    }
    ctx.sample(log);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
/// What is stored for one address is not another's
fn c30_probe(j: &serde_json::Value, ctx: &mut Ctx) -> CaseResult {
    let dir = ctx.scratch.join("cache");
    let _ = std::fs::remove_dir_all(&dir);
    let _home = Home::new(&dir, 0, None);
    for (n, u) in j["store"].as_array().unwrap().iter().enumerate() {
        let uri: tombi_uri::Uri = u.as_str().unwrap().parse().unwrap();
        ctx.block_on(async { tombi_cache::save_to_cache(tombi_cache::get_cache_file_path(&uri).await.as_deref(), &content(n as u64)).await }).unwrap();
    }
    for (n, u) in j["store"].as_array().unwrap().iter().enumerate() {
        let got = ctx.block_on(tombi_extension::fetch_cached_remote_json::<serde_json::Value>(u.as_str().unwrap(), true, None)).and_then(|v| v["x"].as_u64());
        ensure!(got == Some(n as u64), "fresh", "{u}: {got:?}, not {n}");
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "a fetch uses a fresh copy and another one asks the network or falls back; distinct by history",
        assumptions: &["the clock does not jump", "no two programs write one file at once"],
        streams: vec![Stream { name: "histories", quick: 6_000, thorough: 1_000_000, case: c30_histories }],
        probe: Some(c30_probe),
        min_nontrivial: 150,
    }]
}
