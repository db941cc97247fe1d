//! Spaces that need no clients or schedules: the directory store, configuration and its effects.
use crate::world::*;
use alloy_primitives::{B256, Bytes, keccak256};
use fakellvm::{Gen, world};
use revm_context_interface::cfg::{GasId, GasParams};
use revm_primitives::hardfork::SpecId;
use revmc_codegen::EvmCompiler;
use revmc_runtime::runtime::*;
use std::{
    collections::BTreeMap,
    ffi::{OsStr, OsString},
    hash::{Hash, Hasher},
    os::unix::ffi::OsStringExt,
    path::{Path, PathBuf},
    sync::Arc,
    time::Duration,
};

/// Steps judged and a digest of what happened; no steps: not a case of its own.
pub type Seen = (u64, u64);
pub struct Plain {
    pub name: &'static str,
    pub n: u64,
    pub run: fn(u64) -> Result<Seen, String>,
    pub show: fn(u64) -> String,
}

pub fn suites(prop: &str, thorough: bool) -> Vec<Plain> {
    match prop {
        "P21" => vec![
            if thorough {
                Plain { name: "dir-5", n: 19u64.pow(5), run: |i| dir(i, 5), show: |i| format!("{:?}", dir_ops(i, 5)) }
            } else {
                Plain { name: "dir-4", n: 19u64.pow(4), run: |i| dir(i, 4), show: |i| format!("{:?}", dir_ops(i, 4)) }
            },
            Plain { name: "dir-keys", n: 2, run: dir_keys, show: |i| format!("all keys, {i}") },
        ],
        "P22" => vec![
            Plain { name: "env", n: ENV_N, run: env, show: |i| format!("{:?}", env_case(i)) },
            Plain { name: "eligible", n: LIMITS.len() as u64, run: eligible, show: |i| format!("limit {}", LIMITS[i as usize]) },
            Plain { name: "parse", n: 1, run: parse, show: |_| "all names".into() },
            Plain { name: "recycling", n: REC_N, run: |i| recycle_in(i, false), show: |i| format!("{:?}", rec_case(i)) },
            Plain { name: "settings", n: SET_N, run: settings, show: |i| format!("{:?}", set_case(i)) },
        ],
        "P24" => vec![
            Plain { name: "helper-settings", n: SET_N, run: settings_helper, show: |i| format!("{:?}", set_case(i)) },
            Plain { name: "helper-recycling", n: REC_N, run: |i| recycle_in(i, true), show: |i| format!("{:?}", rec_case(i)) },
            Plain { name: "helper-limits", n: LIM_N, run: limits, show: |i| format!("{:?}", lim_case(i)) },
        ],
        "P23" => crate::asm::suites(thorough),
        "P25" => crate::embed::suites(thorough),
        _ => vec![],
    }
}

pub fn digest(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// The directory store.

fn akey(i: usize) -> ArtifactKey {
    let mut h = [0x11u8; 32];
    match i {
        1 => h[0] = 0x01,
        2 => h[15] = 0x10,
        3 => h[31] = 0x12,
        _ => {}
    }
    ArtifactKey {
        runtime: RuntimeCacheKey {
            code_hash: B256::from(h),
            spec_id: if i == 4 { SpecId::BERLIN } else { SpecId::CANCUN },
        },
        backend: if i == 5 { BackendSelection::Auto } else { BackendSelection::Llvm },
        opt_level: if i == 6 { OptimizationLevel::None } else { OptimizationLevel::Default },
    }
}
const AKEYS: usize = 7;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum D {
    Store(u8, u8),
    Delete(u8),
    Clear,
    /// The directory cannot be written while storing this key.
    FailStore(u8),
}
fn dir_ops(mut i: u64, depth: usize) -> Vec<D> {
    (0..depth)
        .map(|_| {
            let o = (i % 19) as u8;
            i /= 19;
            match o {
                0..7 => D::Store(o, 0),
                7..9 => D::Store(o - 7, 1),
                9..16 => D::Delete(o - 9),
                16 => D::Clear,
                _ => D::FailStore(o - 17),
            }
        })
        .collect()
}
fn content(k: &ArtifactKey, v: u8) -> (ArtifactManifest, Vec<u8>) {
    let b = format!("{k:?} {v}").into_bytes();
    let m = ArtifactManifest {
        artifact_key: k.clone(),
        symbol_name: format!("f{v}_{:x}", k.runtime.code_hash),
        bytecode_len: 100 + v as usize,
        artifact_len: b.len(),
        created_at_unix_secs: 1_000_000 + v as u64,
        content_hash: keccak256(&b).0,
    };
    (m, b)
}
/// What a key holds must be exactly what was stored last.
fn same(k: &ArtifactKey, s: &StoredArtifact, v: u8) -> Result<(), String> {
    let (m, b) = content(k, v);
    if format!("{:?}", s.manifest) != format!("{m:?}") {
        return Err(format!("{k:?} comes back with the manifest {:?}", s.manifest));
    }
    match std::fs::read(&s.dylib_path) {
        Ok(x) if x == b => Ok(()),
        Ok(x) => Err(format!("{k:?} comes back with the content {:?}", String::from_utf8_lossy(&x))),
        Err(e) => Err(format!("the file of {k:?}: {e}")),
    }
}
fn agree(s: &RuntimeArtifactStore, keys: &[ArtifactKey], want: &BTreeMap<usize, u8>) -> Result<(), String> {
    let mut paths = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() {
        match (s.load(k).map_err(|e| e.to_string())?, want.get(&i)) {
            (None, None) => {}
            (Some(x), Some(&v)) => {
                same(k, &x, v)?;
                if let Some(j) = paths.insert(x.dylib_path.clone(), i) {
                    return Err(format!("keys {j} and {i} share the file {:?}", x.dylib_path));
                }
            }
            (g, w) => return Err(format!("key {i} ({k:?}) is stored: {}, expected {}", g.is_some(), w.is_some())),
        }
    }
    let all = s.load_all().map_err(|e| e.to_string())?;
    if all.len() != want.len() || s.len() != want.len() || s.is_empty() != want.is_empty() {
        return Err(format!("load_all gives {} artifacts, len {}, expected {}", all.len(), s.len(), want.len()));
    }
    for (k, x) in &all {
        let Some(i) = keys.iter().position(|y| y == k) else { return Err(format!("unknown key {k:?}")) };
        let Some(&v) = want.get(&i) else { return Err(format!("load_all lists key {i}, not stored")) };
        same(k, x, v)?;
    }
    Ok(())
}
fn dir(i: u64, depth: usize) -> Result<Seen, String> {
    let ops = dir_ops(i, depth);
    let keys: Vec<ArtifactKey> = (0..AKEYS).map(akey).collect();
    let s = RuntimeArtifactStore::new().map_err(|e| e.to_string())?;
    let mut want: BTreeMap<usize, u8> = BTreeMap::new();
    let mut home: Option<PathBuf> = None;
    for o in &ops {
        let at = |e: String| format!("after {o:?} of {ops:?}: {e}");
        match *o {
            D::Store(k, v) => {
                let (m, b) = content(&keys[k as usize], v);
                s.store(&keys[k as usize], &m, &b).map_err(|e| at(e.to_string()))?;
                want.insert(k as usize, v);
            }
            D::Delete(k) => {
                let p = s.load(&keys[k as usize]).ok().flatten();
                s.delete(&keys[k as usize]).map_err(|e| at(e.to_string()))?;
                want.remove(&(k as usize));
                if p.is_some_and(|p| p.dylib_path.exists()) {
                    return Err(at("the file is still there".into()));
                }
            }
            D::Clear => {
                let p = s.load_all().map_err(|e| at(e.to_string()))?;
                s.clear().map_err(|e| at(e.to_string()))?;
                want.clear();
                if p.iter().any(|p| p.1.dylib_path.exists()) {
                    return Err(at("a file is still there".into()));
                }
            }
            D::FailStore(k) => {
                // Only meaningful once the directory is known.
                let Some(h) = &home else { return Ok((0, 0)) };
                let away = h.with_extension("away");
                std::fs::rename(h, &away).unwrap();
                let (m, b) = content(&keys[k as usize], 2);
                let r = s.store(&keys[k as usize], &m, &b);
                if h.exists() {
                    // The store made its directory anew: nothing failed.
                    return Ok((0, 0));
                }
                std::fs::rename(&away, h).unwrap();
                if r.is_ok() {
                    return Err(at("storing without a directory succeeds".into()));
                }
            }
        }
        agree(&s, &keys, &want).map_err(at)?;
        if home.is_none() {
            home = s.load_all().unwrap().first().and_then(|a| a.1.dylib_path.parent().map(Path::to_path_buf));
        }
    }
    drop(s);
    if home.is_some_and(|h| h.exists()) {
        return Err("the temporary directory outlives the store".into());
    }
    Ok((ops.len() as u64, digest(want)))
}
/// Every hardfork, backend, level and several code hashes in one store.
fn dir_keys(i: u64) -> Result<Seen, String> {
    let mut keys = vec![];
    for spec in (0..=u8::MAX).filter_map(SpecId::try_from_u8) {
        for backend in [BackendSelection::Auto, BackendSelection::Llvm] {
            for opt_level in LEVELS {
                for h in 0..4 {
                    let code_hash = akey(h).runtime.code_hash;
                    keys.push(ArtifactKey { runtime: RuntimeCacheKey { code_hash, spec_id: spec }, backend, opt_level });
                }
            }
        }
    }
    let s = RuntimeArtifactStore::new().map_err(|e| e.to_string())?;
    let mut want = BTreeMap::new();
    for (j, k) in keys.iter().enumerate() {
        let (m, b) = content(k, 0);
        s.store(k, &m, &b).map_err(|e| e.to_string())?;
        want.insert(j, 0);
    }
    agree(&s, &keys, &want)?;
    let mut n = 1;
    for j in 0..keys.len() {
        let x = if i == 0 { j } else { keys.len() - 1 - j };
        s.delete(&keys[x]).map_err(|e| e.to_string())?;
        want.remove(&x);
        if j % 16 == 0 || want.len() < 3 {
            agree(&s, &keys, &want)?;
            n += 1;
        }
    }
    Ok((n, 0))
}

// Environment overrides.

const NAMES: [&str; 4] =
    ["REVMC_JIT_MODE", "REVMC_JIT_HELPER_PATH", "REVMC_JIT_HELPER_MEMORY_LIMIT_BYTES", "REVMC_JIT_HELPER_CPU_COUNT"];
const MODES: [Option<&[u8]>; 8] = [
    None,
    Some(b"in-process"),
    Some(b"out-of-process"),
    Some(b""),
    Some(b"In-Process"),
    Some(b"out_of_process"),
    Some(b" in-process"),
    Some(b"\xff"),
];
const PATHS: [Option<&[u8]>; 4] = [None, Some(b"/proc/self/../self/exe"), Some(b"/nonexistent/helper"), Some(b"\xfe/x")];
const INTS: [Option<&[u8]>; 9] = [
    None,
    Some(b"0"),
    Some(b"1"),
    Some(b"18446744073709551615"),
    Some(b"18446744073709551616"),
    Some(b"-1"),
    Some(b"abc"),
    Some(b""),
    Some(b"\xff"),
];
const ENV_N: u64 = 8 * 4 * 9 * 9 * 2;
type EnvCase = ([Option<OsString>; 4], bool);
fn env_case(mut i: u64) -> EnvCase {
    let mut pick = |n: usize| {
        let r = i % n as u64;
        i /= n as u64;
        r as usize
    };
    let os = |b: Option<&[u8]>| b.map(|b| OsString::from_vec(b.to_vec()));
    ([os(MODES[pick(8)]), os(PATHS[pick(4)]), os(INTS[pick(9)]), os(INTS[pick(9)])], pick(2) == 1)
}
fn env(i: u64) -> Result<Seen, String> {
    let (vals, odd) = env_case(i);
    let mut c = RuntimeConfig::default();
    if odd {
        // Values that differ from the defaults must survive.
        c.enabled = true;
        c.jit_mode = JitMode::OutOfProcess;
        c.jit_helper_path = Some("/some/helper".into());
        c.tuning.jit_helper_memory_limit_bytes = 77;
        c.tuning.jit_helper_cpu_count = 3;
        c.tuning.jit_hot_threshold = 5;
        c.tuning.jit_timeout = Duration::from_millis(9);
        c.dump_dir = Some("/some/dir".into());
        c.no_dse = true;
        c.aot = true;
    }
    // Variables that are not valid text are ignored where text is expected.
    let text = |v: &Option<OsString>| v.as_deref().and_then(OsStr::to_str).map(str::to_owned);
    let mut want = c.clone();
    let mut ok = true;
    match text(&vals[0]).as_deref() {
        None => {}
        Some("in-process") => want.jit_mode = JitMode::InProcess,
        Some("out-of-process") => want.jit_mode = JitMode::OutOfProcess,
        Some(_) => ok = false,
    }
    if let Some(p) = &vals[1] {
        let p = PathBuf::from(p);
        want.jit_helper_path = Some(std::fs::canonicalize(&p).unwrap_or(p));
    }
    match text(&vals[2]).map(|s| s.parse::<u64>()) {
        None => {}
        Some(Ok(n)) => want.tuning.jit_helper_memory_limit_bytes = n,
        Some(Err(_)) => ok = false,
    }
    match text(&vals[3]).map(|s| s.parse::<usize>()) {
        None => {}
        Some(Ok(n)) => want.tuning.jit_helper_cpu_count = n,
        Some(Err(_)) => ok = false,
    }
    for (n, v) in NAMES.iter().zip(&vals) {
        // One thread at a time runs here.
        unsafe {
            match v {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
        }
    }
    let start = (!odd).then(|| JitBackend::new(c.clone()).is_ok());
    let got = c.with_env_overrides();
    for n in NAMES {
        unsafe { std::env::remove_var(n) };
    }
    if start.is_some_and(|s| s != ok) {
        return Err(format!("creating the runtime with {vals:?} succeeds: {}, expected {ok}", !ok));
    }
    match (&got, ok) {
        (Ok(g), true) => {
            let (g, w) = (format!("{g:?}"), format!("{want:?}"));
            if g != w {
                return Err(format!("with {vals:?} the configuration is {g}, expected {w}"));
            }
        }
        (Err(_), false) => {}
        (g, _) => return Err(format!("{vals:?} accepted: {}, expected {ok}", g.is_ok())),
    }
    Ok((1, digest(format!("{:?}", got.ok()))))
}

// Eligibility and names.

const LIMITS: [usize; 16] = [0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 255, 256, 257, 24 * 1024, 24 * 1024 + 1, usize::MAX];
fn eligible(i: u64) -> Result<Seen, String> {
    let limit = LIMITS[i as usize];
    let t = RuntimeTuning { jit_max_bytecode_len: limit, ..Default::default() };
    let buf = vec![0u8; 24 * 1024 + 8];
    let mut n = 0;
    for len in (0..600).chain(24 * 1024 - 4..buf.len()) {
        let want = len > 0 && (limit == 0 || len <= limit);
        if t.should_compile(&buf[..len]) != want {
            return Err(format!("code of {len} bytes with limit {limit} is eligible: {}", !want));
        }
        n += 1;
    }
    Ok((n, 0))
}
fn parse(_: u64) -> Result<Seen, String> {
    use OptimizationLevel as O;
    let mut n = 0;
    let words = [
        "", "0", "1", "2", "3", "4", "-1", "00", "none", "less", "default", "aggressive", "None", "Less", "O0", "o2", " 2", "2 ",
    ];
    for w in words {
        let want = match w {
            "0" | "none" => Some(O::None),
            "1" | "less" => Some(O::Less),
            "2" | "default" => Some(O::Default),
            "3" | "aggressive" => Some(O::Aggressive),
            _ => None,
        };
        if w.parse::<O>().ok() != want {
            return Err(format!("optimisation level {w:?} is {:?}", w.parse::<O>()));
        }
        n += 1;
    }
    for (w, m) in [("in-process", JitMode::InProcess), ("out-of-process", JitMode::OutOfProcess)] {
        if w.parse() != Ok(m) {
            return Err(format!("JIT mode {w:?} is {:?}", w.parse::<JitMode>()));
        }
        n += 1;
    }
    Ok((n, 0))
}

// Settings that must reach the compiler.

#[derive(Clone, Copy, Debug, Hash)]
struct Settings {
    debug_assertions: bool,
    single_error: bool,
    no_dedup: bool,
    no_dse: bool,
    gas: bool,
    dump: bool,
    aot: bool,
    level: usize,
    recycle: usize,
}
const SET_N: u64 = 128 * 4 * 3;
fn set_case(i: u64) -> Settings {
    let b = |n: u32| i >> n & 1 == 1;
    Settings {
        debug_assertions: b(0),
        single_error: b(1),
        no_dedup: b(2),
        no_dse: b(3),
        gas: b(4),
        dump: b(5),
        aot: b(6),
        level: (i >> 7 & 3) as usize,
        recycle: (i >> 9) as usize,
    }
}
/// A program whose code depends on every setting: equal blocks, a dead store, failures and folded gas costs.
fn probe(c: u32) -> Bytes {
    let mut v = vec![0x63];
    v.extend_from_slice(&(fakellvm::MARK as u32 + c).to_be_bytes());
    v.extend_from_slice(&[
        0x50, 0x60, 7, 0x60, 9, 0x81, 0x50, 0x50, 0x50, // dead values
        0x61, 1, 2, 0x60, 3, 0x0a, 0x50, // EXP
        0x60, 0, 0x35, 0x60, 0x23, 0x57, // CALLDATALOAD, JUMPI 0x23
        0x60, 1, 0x60, 0, 0x55, 0x60, 0, 0x60, 0, 0xfd, // block A
    ]);
    while v.len() < 0x23 {
        v.push(0x5b);
    }
    v.extend_from_slice(&[0x5b, 0x60, 0, 0x35, 0x60, 0x35, 0x57, 0x60, 1, 0x60, 0, 0x55, 0x60, 0, 0x60, 0, 0xfd]);
    while v.len() < 0x35 {
        v.push(0x5b);
    }
    v.extend_from_slice(&[0x5b, 0x60, 0, 0x35, 0x56]);
    v.into()
}
fn schedule() -> GasParams {
    let mut g = GasParams::new_spec(SpecId::CANCUN);
    g.override_gas((0..=255u8).map(GasId::new).map(|id| (id, 1000 + id.as_usize() as u64)));
    g.override_gas([(GasId::exp_byte_gas(), (1 << 40) + 1234)]);
    g
}
// Compilers are replaced after the configured number of compilations.

const REC_N: u64 = 5 * 2 * 7;
fn rec_case(i: u64) -> (usize, bool, u32) {
    ((i % 5) as usize, i / 5 % 2 == 1, (i / 10) as u32 + 1)
}
/// The compilers made for `n` compilations.
fn compilers(recycle: usize, aot: bool, n: u32, oop: bool) -> Result<u32, String> {
    let mut c = Cfg { recycle, oop, ..Default::default() }.build(None, Default::default());
    c.tuning.jit_max_bytecode_len = 0;
    c.aot = aot;
    c.store = aot.then(|| Arc::new(RuntimeArtifactStore::new().unwrap()) as Arc<dyn ArtifactStore>);
    let be = JitBackend::new(c).map_err(|e| e.to_string())?;
    let before = world(|w| w.backends);
    for n in 0..n {
        let code = probe(n);
        let key = RuntimeCacheKey { code_hash: keccak256(&code), spec_id: SpecId::CANCUN };
        be.compile_jit_sync(LookupRequest { key, code }).map_err(|e| format!("recycle {recycle}, aot {aot}: {e}"))?;
    }
    mc::settle(2);
    Ok((world(|w| w.backends) - before) as u32)
}
fn recycle_in(i: u64, oop: bool) -> Result<Seen, String> {
    let (recycle, aot, n) = rec_case(i);
    // Without recycling: one that compiles, and what links the code of a helper.
    let base = compilers(0, aot, n, oop)?;
    if base > 1 + oop as u32 {
        return Err(format!("no recycling, aot {aot}: {base} compilers for {n} compilations"));
    }
    if recycle != 0 {
        let made = compilers(recycle, aot, n, oop)?;
        // The replacement may be made at once or when it is needed.
        let r = recycle as u32;
        let (eager, lazy) = (base + n / r, base + (n - 1) / r);
        if made != eager && made != lazy {
            return Err(format!("recycling after {recycle} compilations, aot {aot}: {made} compilers for {n} compilations, {base} without recycling"));
        }
    }
    Ok((n as u64, digest((recycle, aot, n))))
}

// What the helper process is started with.

#[derive(Clone, Copy, Debug, Hash)]
struct Limits {
    memory: u64,
    cpus: usize,
    path: bool,
    workers: usize,
}
const LIM_N: u64 = 3 * 7 * 2 * 3;
fn lim_case(i: u64) -> Limits {
    Limits {
        memory: [0, 1 << 30, u64::MAX][(i % 3) as usize],
        cpus: [0, 1, 2, 3, 4, 5, 9][(i / 3 % 7) as usize],
        path: i / 21 % 2 == 1,
        workers: 1 + (i / 42) as usize,
    }
}
fn limits(i: u64) -> Result<Seen, String> {
    let s = lim_case(i);
    let mut c = Cfg { oop: true, workers: s.workers, ..Default::default() }.build(None, Default::default());
    c.tuning.jit_max_bytecode_len = 0;
    c.tuning.jit_helper_memory_limit_bytes = s.memory;
    c.tuning.jit_helper_cpu_count = s.cpus;
    if !s.path {
        c.jit_helper_path = None;
    }
    let be = JitBackend::new(c).map_err(|e| e.to_string())?;
    for n in 0..2 {
        let code = probe(n);
        let key = RuntimeCacheKey { code_hash: keccak256(&code), spec_id: SpecId::CANCUN };
        be.compile_jit_sync(LookupRequest { key, code }).map_err(|e| format!("{s:?}: {e}"))?;
    }
    if mc::processes() != 2 {
        return Err(format!("{s:?}: {} helpers for two jobs", mc::processes() - 1));
    }
    let p = mcstd::process::info(1).ok_or("no process")?;
    let want_path = if s.path { crate::world::HELPER.into() } else { std::env::current_exe().unwrap() };
    if p.path != want_path {
        return Err(format!("{s:?}: the helper is {:?}", p.path));
    }
    if p.memory_limit != (s.memory > 0).then_some(s.memory) {
        return Err(format!("{s:?}: the memory limit is {:?}", p.memory_limit));
    }
    // CPUs 1, 3, 4 and 6 can be used.
    let n = p.cpus.map_or(0, |m| m.count_ones() as usize);
    if n != s.cpus.min(4) || p.cpus.is_some_and(|m| m & !0b1011010 != 0) {
        return Err(format!("{s:?}: the CPUs are {:?}", p.cpus));
    }
    if !p.group {
        return Err(format!("{s:?}: the helper is in the caller's process group"));
    }
    drop(be);
    Ok((2, digest(s)))
}
fn settings(i: u64) -> Result<Seen, String> {
    settings_in(i, false)
}
fn settings_helper(i: u64) -> Result<Seen, String> {
    settings_in(i, true)
}
fn settings_in(i: u64, oop: bool) -> Result<Seen, String> {
    let s = set_case(i);
    // Helpers make object files.
    let object = s.aot || oop;
    let dir = std::env::temp_dir().join(format!("dump-{}-{i}", std::process::id()));
    let jobs = [(0u32, SpecId::CANCUN), (1, SpecId::BERLIN), (0, SpecId::CANCUN), (2, SpecId::CANCUN)];
    world(|w| w.shapes = true);
    // What a compiler with these settings does.
    let mut want: Vec<Gen> = vec![];
    for (j, (c, spec)) in jobs.iter().enumerate() {
        let e = |e: revmc_backend::Error| e.to_string();
        let mut k = EvmCompiler::new(fakellvm::EvmLlvmBackend::new(object).map_err(|e| e.to_string())?);
        k.set_opt_level(LEVELS[s.level]);
        k.debug_assertions(s.debug_assertions);
        k.single_error(s.single_error);
        k.set_dedup(!s.no_dedup);
        k.set_dse(!s.no_dse);
        if s.gas {
            k.set_gas_params(schedule());
        }
        if s.dump && !s.aot {
            k.set_dump_to(Some(dir.join(format!("reference{j}"))));
        }
        let code = probe(*c);
        if object {
            k.translate("f", &code[..], *spec).map_err(e)?;
            let mut out = vec![];
            k.write_object(&mut out).map_err(e)?;
        } else {
            unsafe { k.jit("f", &code[..], *spec) }.map_err(e)?;
        }
        want.push(world(|w| w.log.pop().unwrap()));
    }
    fakellvm::reset(Default::default());
    world(|w| w.shapes = true);
    // What the runtime does.
    let mut c = Cfg { recycle: s.recycle, oop, ..Default::default() }.build(None, Default::default());
    c.tuning.jit_max_bytecode_len = 0;
    c.debug_assertions = s.debug_assertions;
    c.single_error = s.single_error;
    c.no_dedup = s.no_dedup;
    c.no_dse = s.no_dse;
    c.gas_params = s.gas.then(schedule);
    c.dump_dir = s.dump.then(|| dir.join("runtime"));
    c.aot = s.aot;
    c.store = s.aot.then(|| Arc::new(RuntimeArtifactStore::new().unwrap()) as Arc<dyn ArtifactStore>);
    // The other kind is set to another level.
    let t = &mut c.tuning;
    (t.jit_opt_level, t.aot_opt_level) = (LEVELS[(s.level + 1) % 4], LEVELS[(s.level + 1) % 4]);
    *(if s.aot { &mut t.aot_opt_level } else { &mut t.jit_opt_level }) = LEVELS[s.level];
    let store = c.store.clone();
    let be = JitBackend::new(c).map_err(|e| e.to_string())?;
    for (j, (c, spec)) in jobs.iter().enumerate() {
        let code = probe(*c);
        let key = RuntimeCacheKey { code_hash: keccak256(&code), spec_id: *spec };
        let at = |m: String| format!("{s:?}, compilation {j}: {m}");
        be.clear_all();
        be.compile_jit_sync(LookupRequest { key, code }).map_err(|e| at(e.to_string()))?;
        let log = world(|w| w.log.clone());
        if log.len() != j + 1 {
            return Err(at(format!("{} code generations in all", log.len())));
        }
        if log[j] != want[j] {
            return Err(at(format!("the runtime's code generation is {:?}, a compiler with these settings gives {:?}", log[j], want[j])));
        }
        if let Some(st) = &store {
            let all = st.load_all().map_err(|e| e.to_string())?;
            if all.len() != 1 || all[0].0.runtime != key || all[0].0.opt_level != LEVELS[s.level] {
                return Err(at(format!("the artifacts stored are {all:?}")));
            }
        }
        if !s.aot {
            let d = dir.join("runtime").join(format!("{spec:?}")).join(format!("{}", key.code_hash));
            let files = std::fs::read_dir(&d).map(|d| d.count()).unwrap_or(0);
            if (files > 0) != s.dump {
                return Err(at(format!("{files} files in {d:?}")));
            }
            let _ = std::fs::remove_dir_all(&d);
        }
    }
    drop(be);
    let _ = std::fs::remove_dir_all(&dir);
    Ok((jobs.len() as u64, digest(format!("{want:?}"))))
}
