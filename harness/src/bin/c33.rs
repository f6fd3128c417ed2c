//! C33: a status keeps its kind and message.
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};
use mc::*;
use std::sync::{Arc, Mutex};

fn kind(i: usize) -> LevelError {
    use LevelError::*;
    match i { 0 => KOk, 1 => KNotFound, 2 => KCorruption, 3 => KNotSupported, 4 => KInvalidArgument, 5 => KIOError, 6 => KBadRecord, _ => KRepeatedRecord }
}
const TEXT: [&str; 8] = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: ", "wal bad record", "repeated record"];
const SHOW: [&str; 8] = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: ", "wal bad record: ", "repeated record: "];
fn judge_kind(e: &LevelError, k: usize, what: &str) {
    let p = [e.is_ok(), e.is_not_found(), e.is_corruption(), e.is_not_supported_error(), e.is_invalid_argument(), e.is_io_error(), e.is_repeated_record()];
    for (i, v) in p.iter().enumerate() { let j = if i == 6 { 7 } else { i }; ensure!(*v == (j == k), "{what}: an error of kind {k} says {v} when asked whether it is {}", SHOW[j]); }
    ensure!(e.get_value() == k as i32, "{what}: an error of kind {k} has the number {}", e.get_value());
    ensure!(format!("{e}") == SHOW[k], "{what}: an error of kind {k} shows as {e}");
}
/// `make` builds the same status each time it is called.
fn judge(make: &dyn Fn() -> Status, k: usize, msg: &str, what: &str) {
    let s = sut(what, || make());
    let p = [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error()];
    for (i, v) in p.iter().enumerate() { ensure!(*v == (i == k), "{what}: a status of kind {k} says {v} when asked whether it is {}", SHOW[i]); }
    let g = sut("get_msg", || s.get_msg());
    ensure!(g == msg, "{what}: the message is {}, expected {}", brief(&g), brief(msg));
    judge_kind(&sut("get_error", || s.get_error()), k, what);
    let g: Vec<u8> = sut("into_msg", || make().into_msg().into());
    ensure!(g == msg.as_bytes(), "{what}: the message taken out is {}, expected {}", brief(&String::from_utf8_lossy(&g)), brief(msg));
    let w = if k == 0 { "OK".to_string() } else { format!("{}{msg}", TEXT[k]) };
    let g = sut("to_string", || make().to_string());
    ensure!(g == w, "{what}: the text is {}, expected {}", brief(&g), brief(&w));
    step(); state(&(k, msg, what));
}
fn long(n: usize) -> &'static str { "0123456789abcde".chars().cycle().take(n).collect::<String>().leak() }
/// The beginning of a text.
fn brief(s: &str) -> String { format!("{} bytes {:?}", s.len(), s.chars().take(200).collect::<String>()) }
fn main() {
    let msgs = ["", "a", ": ", "abc: def", "\u{4e2d}\u{6587} message", "a much longer message that goes on for quite a while, so that its buffer has to grow when another is appended to it", &*long(300), &*long(32_768), &*long(65_540), &*long(3 << 20)];
    Check::new("C33", "model_checking", "every way to make a status, every kind, every pair of messages of a set, judged through every accessor against a reference; a state is (kind, message, way)")
        .scenario("wrapped", "every kind with every message of the set", move || {
            let k = choose(8);
            let m = *pick(&msgs);
            let w = if k == 0 { "" } else { m };
            judge(&|| Status::wrapper(kind(k), m.into()), k, w, "wrapper");
            judge(&|| Status::wrapper_str(kind(k), m), k, w, "wrapper_str");
        })
        .scenario("joined", "every kind and constructor with every pair of messages of the set", move || {
            let (a, b) = (*pick(&msgs), *pick(&msgs));
            let w = if b.is_empty() { a.to_string() } else { format!("{a}: {b}") };
            let f = |c: usize| -> (usize, Status) {
                let (x, y): (Slice, Slice) = (a.into(), b.into());
                match c { 0 => (1, LevelError::not_found(x, y)), 1 => (2, LevelError::corruption(x, y)), 2 => (2, LevelError::corruption_string(a, b)), 3 => (3, LevelError::not_supported(x, y)), 4 => (4, LevelError::invalid_argument(x, y)), 5 => (5, LevelError::io_error(x, y)), c => (c - 6, Status::wrappers(kind(c - 6), x, y)) }
            };
            let c = choose(14);
            let w = if f(c).0 == 0 { String::new() } else { w }; // a success has no message
            judge(&|| f(c).1, f(c).0, &w, ["not_found", "corruption", "corruption_string", "not_supported", "invalid_argument", "io_error"].get(c).unwrap_or(&"wrappers"));
            if c == 0 { judge(&|| LevelError::repeated_record(a.into()), 7, a, "repeated_record"); }
        })
        .scenario("ok", "the default status and error", || {
            judge(&|| LevelError::ok(), 0, "", "ok");
            judge(&Status::default, 0, "", "default");
            judge_kind(&LevelError::default(), 0, "default");
        })
        .scenario("numbers", "error numbers -1000..1000 and the extremes", || {
            let i = choose(2003);
            let v: i32 = match i { 2001 => i32::MAX, 2002 => i32::MIN, _ => i as i32 - 1000 };
            match sut("try_from", || LevelError::try_from(v)) {
                Ok(e) => { ensure!((0..8).contains(&v), "number {v} is an error"); judge_kind(&e, v as usize, "try_from") }
                Err(m) => ensure!(!(0..8).contains(&v) && m == format!("Unknown code: {v}"), "number {v}: {m:?}"),
            }
            step(); state(&v);
        })
        .scenario("converted", "from I/O errors of every kind and message of the set, and from a poisoned lock", move || {
            use std::io::{Error, ErrorKind::*};
            let ks = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
                AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
                StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, ExecutableFileBusy,
                Deadlock, TooManyLinks, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other];
            let (k, m) = (*pick(&ks), *pick(&msgs));
            judge(&|| Error::new(k, m).into(), 5, m, "I/O error");
            let t = Error::from(k).to_string();
            judge(&|| Error::from(k).into(), 5, &t, "I/O error kind");
            let l = Arc::new(Mutex::new(1));
            let l2 = l.clone();
            let _ = std::thread::spawn(move || { let _g = l2.lock().unwrap(); std::panic::resume_unwind(Box::new(())) }).join();
            judge(&|| l.lock().unwrap_err().into(), 2, "PoisonError", "poisoned lock");
        })
        .scenario("system", "from every system error -1..200", || {
            let n = choose(202) as i32 - 1;
            let e = || std::io::Error::from_raw_os_error(n);
            judge(&|| e().into(), 5, &e().to_string(), "system error");
        })
        .run()
}
