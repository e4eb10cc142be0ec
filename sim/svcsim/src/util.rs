//! Bindings to the simulator below the process, and the event log.
use serde_json::{json, Value};
use std::ffi::CString;
use std::os::fd::RawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::OnceLock;

struct Api {
    now: Option<extern "C" fn() -> i64>,
    wall: Option<extern "C" fn() -> i64>,
    jump: Option<extern "C" fn(i64)>,
    quiet: Option<extern "C" fn(i32)>,
    exit: Option<extern "C" fn(i32)>,
    tid: Option<extern "C" fn() -> i32>,
}
static API: OnceLock<Api> = OnceLock::new();
static LOG: AtomicI32 = AtomicI32::new(-1);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);

fn sym(name: &str) -> *mut libc::c_void {
    let n = CString::new(name).unwrap();
    unsafe { libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr()) }
}
fn api() -> &'static Api {
    API.get_or_init(|| unsafe {
        macro_rules! s { ($n:literal) => {{ let p = sym($n); if p.is_null() { None } else { Some(std::mem::transmute(p)) } }} }
        Api { now: s!("dst_now"), wall: s!("dst_wall"), jump: s!("dst_wall_jump"), quiet: s!("dst_quiet"), exit: s!("dst_exit"), tid: s!("dst_tid") }
    })
}
/// Virtual monotonic time in ns.
pub fn now() -> i64 { api().now.map_or(0, |f| f()) }
pub fn wall() -> i64 { api().wall.map_or(0, |f| f()) }
pub fn wall_jump(ns: i64) { if let Some(f) = api().jump { f(ns) } }
pub fn tid() -> i32 { api().tid.map_or(0, |f| f()) }
pub fn exit(code: i32) -> ! { if let Some(f) = api().exit { f(code) } std::process::exit(code) }

/// No scheduling point and no fault happens while this exists.
pub struct Quiet;
pub fn quiet() -> Quiet { if let Some(f) = api().quiet { f(1) } Quiet }
impl Drop for Quiet { fn drop(&mut self) { if let Some(f) = api().quiet { f(0) } } }

pub fn open_log(path: &str) {
    let p = CString::new(path).unwrap();
    let fd: RawFd = unsafe { libc::open(p.as_ptr(), libc::O_CREAT | libc::O_APPEND | libc::O_WRONLY | libc::O_CLOEXEC, 0o644) };
    assert!(fd >= 0);
    LOG.store(fd, Ordering::SeqCst);
}
pub fn log(ev: &str, mut v: Value) {
    let _q = quiet();
    EVENTS.fetch_add(1, Ordering::SeqCst);
    let o = v.as_object_mut().unwrap();
    o.insert("e".into(), ev.into());
    o.insert("t".into(), now().into());
    o.insert("w".into(), wall().into());
    let mut s = serde_json::to_vec(&v).unwrap();
    s.push(b'\n');
    let fd = LOG.load(Ordering::SeqCst);
    unsafe { libc::write(fd, s.as_ptr().cast(), s.len()) };
}
pub fn panic_log() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        log("panic", json!({"msg": m, "at": i.location().map(|l| format!("{}:{}", l.file(), l.line()))}));
    }));
}

// ---------------------------------------------------------------- content
fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// `len` bytes that depend on the seed only.
pub fn noise(seed: u64, len: usize) -> Vec<u8> {
    let mut s = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len { v.extend_from_slice(&mix(&mut s).to_le_bytes()); }
    v.truncate(len);
    v
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3); }
    h
}
pub fn hash(b: &[u8]) -> String { format!("{:016x}", fnv(b)) }

/// A self-describing item: header, noise, checksum.
pub fn make_item(cache: &str, item: u64, ver: u32, nonce: u64, len: usize) -> Vec<u8> {
    let head = format!("#ITEM {cache} {item} {ver} {nonce} {len}\n");
    let mut v = head.into_bytes();
    v.extend(noise(nonce ^ (item << 40) ^ fnv(cache.as_bytes()), len));
    let h = hash(&v);
    v.extend_from_slice(h.as_bytes());
    v
}
/// What an answer holds: `{c,i,v,n}` if it is one complete item, else a description.
pub fn parse_item(b: &[u8]) -> Value {
    let bad = |m: String| json!({"bad": m});
    let Some(p) = b.iter().take(200).position(|c| *c == b'\n') else { return bad(format!("no header in {} bytes, starts {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(24)]))) };
    let head = String::from_utf8_lossy(&b[..p]).into_owned();
    let f: Vec<&str> = head.split(' ').collect();
    if f.len() != 6 || f[0] != "#ITEM" { return bad(format!("strange header {head:?}")) }
    let num = |s: &str| s.parse::<u64>().ok();
    let (Some(i), Some(v), Some(n), Some(l)) = (num(f[2]), num(f[3]), num(f[4]), num(f[5])) else { return bad(format!("strange header {head:?}")) };
    let want = make_item(f[1], i, v as u32, n, l as usize);
    if want != b {
        let d = want.iter().zip(b).position(|(a, b)| a != b).unwrap_or(want.len().min(b.len()));
        return bad(format!("{head:?}: {} bytes instead of {}, first difference at {d}", b.len(), want.len()));
    }
    json!({"c": f[1], "i": i, "v": v, "n": n})
}
