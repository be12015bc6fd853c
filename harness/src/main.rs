//! Conformance harness: reads cases (one JSON object per line) on stdin, runs each against the
//! real `subtile` crate and writes the observations (case + "out") on stdout, in the same order.
//! A panic of the code under test is an observation, not an error of the harness.
mod fam_pgs;
mod fam_text;
mod fam_vob;
mod iterops;
mod reader;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Run `f`; a panic becomes `None`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
        .unwrap_or_default()
}
/// The OCR options of a case: given one by one, the default ones, or the default ones but for the border.
/// Options that differ in all of their fields.
pub fn other_options(o: &subtile::image::ToOcrImageOpt) -> subtile::image::ToOcrImageOpt {
    subtile::image::ToOcrImageOpt {
        border: (o.border + 1) % 4,
        text_color: subtile::image::Luma([!o.text_color[0]]),
        background_color: subtile::image::Luma([o.background_color[0] ^ 0x55]),
    }
}
pub fn ocr_options(c: &Value) -> subtile::image::ToOcrImageOpt {
    use subtile::image::{Luma, ToOcrImageOpt};
    let border = int(c, "border", 5) as u32;
    match c["how"].as_str().unwrap_or("own") {
        "default" => ToOcrImageOpt::default(),
        "border" => ToOcrImageOpt { border, ..Default::default() },
        _ => ToOcrImageOpt {
            border,
            text_color: Luma([int(c, "text", 0) as u8]),
            background_color: Luma([int(c, "bg", 255) as u8]),
        },
    }
}
pub fn int(c: &Value, k: &str, default: i64) -> i64 {
    c.get(k).and_then(Value::as_i64).unwrap_or(default)
}
/// Milliseconds as a number that TLC can read (its integers have 32 bits).
pub fn ms(v: i64) -> i64 {
    v.clamp(-2_000_000_000, 2_000_000_000)
}
/// `i64` as sign and decimal digits (for values beyond TLC's integers).
pub fn digits(v: i64) -> Value {
    let d: Vec<u32> = v
        .unsigned_abs()
        .to_string()
        .bytes()
        .map(|b| u32::from(b - b'0'))
        .collect();
    json!({"neg": v < 0, "d": d})
}
pub fn from_digits(v: &Value) -> i64 {
    let mut n: i128 = 0;
    for d in v["d"].as_array().unwrap() {
        n = n * 10 + i128::from(d.as_i64().unwrap());
    }
    if v["neg"].as_bool().unwrap() {
        n = -n;
    }
    i64::try_from(n).unwrap()
}
/// Canonical maximal runs.
pub fn runs<I: Iterator<Item = Vec<u32>>>(it: I) -> Value {
    let mut out: Vec<Vec<u32>> = Vec::new();
    let mut cur: Option<(Vec<u32>, u32)> = None;
    for p in it {
        match &mut cur {
            Some((q, n)) if *q == p => *n += 1,
            _ => {
                if let Some((mut q, n)) = cur.take() {
                    q.push(n);
                    out.push(q);
                }
                cur = Some((p, 1));
            }
        }
    }
    if let Some((mut q, n)) = cur {
        q.push(n);
        out.push(q);
    }
    json!(out)
}

/// A logger that formats everything it is given.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{} {} {}", r.level(), r.target(), r.args()));
    }
    fn flush(&self) {}
}

/// Everything an error says, with its causes.
pub fn told(e: &dyn std::error::Error) -> String {
    let mut text = format!("{e} {e:?}");
    let mut cause = e.source();
    while let Some(c) = cause {
        text.push_str(&format!(" <- {c} {c:?}"));
        cause = c.source();
    }
    text
}

fn run_case(case: &Value, scratch: &PathBuf) -> Value {
    match case["fam"].as_str().unwrap() {
        "pgs" => fam_pgs::pgs(case),
        "pgsimg" => fam_pgs::pgsimg(case),
        "hand" => fam_pgs::hand(case, scratch),
        "inter" => fam_pgs::inter(case, scratch),
        "vob" => fam_vob::vob(case, scratch),
        "vobimg" => fam_vob::vobimg(case),
        "file" => fam_text::file(case, scratch),
        "idx" => fam_text::idx(case),
        "probe" => fam_text::probe(case, scratch),
        "time" => fam_text::time(case),
        "srt" => fam_text::srt(case),
        "area" => fam_text::area(case),
        "dump" => fam_text::dump(case, scratch),
        "luma" => fam_text::luma(case),
        f => panic!("unknown family {f}"),
    }
}

fn main() {
    let limit = std::env::args()
        .nth(2)
        .and_then(|s| s.parse().ok())
        .unwrap_or(20u64);
    let scratch = PathBuf::from(std::env::args().nth(1).expect("scratch directory"));
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<Value> = std::io::stdin()
        .lock()
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("case"))
        .collect();
    let n = cases.len();
    let results: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; n]);
    log::set_logger(&Sink).unwrap();
    // First the cases without a log, then those with one.
    let logged = |c: &Value| int(c, "log", 0) > 0;
    for log in [false, true] {
        log::set_max_level(if log { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        let part: Vec<usize> = (0..n).filter(|&i| logged(&cases[i]) == log).collect();
        if !part.is_empty() {
            run_part(&cases, &part, &results, &scratch, limit);
        }
    }
    flush(&results);
}
fn flush(results: &Mutex<Vec<Option<String>>>) {
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for r in results.lock().unwrap().iter().flatten() {
        writeln!(out, "#R{r}").unwrap();
    }
    out.flush().unwrap();
}
fn run_part(cases: &[Value], part: &[usize], results: &Mutex<Vec<Option<String>>>, scratch: &PathBuf, limit: u64) {
    let n = part.len();
    let next = AtomicUsize::new(0);
    let threads = 8;
    let t0 = Instant::now();
    // What each thread is doing: case number + 1 in the high half, start (ms) in the low half.
    let busy: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (cases, results, next, busy, finished, scratch) =
                (cases, results, &next, &busy, &finished, scratch);
            s.spawn(move || {
                let dir = scratch.join(format!("t{t}"));
                std::fs::create_dir_all(&dir).unwrap();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let i = part[i];
                    let now = t0.elapsed().as_millis() as u64;
                    busy[t].store(((i as u64 + 1) << 32) | now, Ordering::SeqCst);
                    let mut res = cases[i].clone();
                    res["out"] = guarded(|| run_case(&cases[i], &dir))
                        .unwrap_or_else(|| json!([{"t": "panic"}]));
                    let line = res.to_string();
                    results.lock().unwrap()[i] = Some(line);
                    busy[t].store(0, Ordering::SeqCst);
                }
                finished.fetch_add(1, Ordering::SeqCst);
            });
        }
        while finished.load(Ordering::SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(2));
            let now = t0.elapsed().as_millis() as u64;
            for b in &busy {
                let v = b.load(Ordering::SeqCst);
                if v != 0 && now.saturating_sub(v & 0xffff_ffff) > limit * 1000 {
                    let i = ((v >> 32) - 1) as usize;
                    let mut res = cases[i].clone();
                    res["out"] = json!([{"t": "hang"}]);
                    results.lock().unwrap()[i] = Some(res.to_string());
                    flush(results);
                    std::process::exit(9);
                }
            }
        }
    });
}
