//! idx files, probing, file opening, times, writers, areas, dumping, thresholds.
use crate::{bytes_of, digits, from_digits, guarded, int, ms, reader::TestReader, runs};
use image::{ImageBuffer, Luma, LumaA, Rgb, Rgba};
use serde_json::{json, Value};
use std::io::{self, BufReader, Cursor, Write};
use std::path::{Path, PathBuf};
use subtile::content::{Area, AreaValues};
use subtile::image::{dump_images, luma_a_to_luma, luma_a_to_luma_convertor, DumpError, ImageArea, ImageSize};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{is_idx_file, is_sub_file, palette, Index, Sub, TimePointIdx, VobSubError, VobSubIndexedImage};
use subtile::{srt as srtm, webvtt, SubtileError, SupParser};

pub fn index_ev(r: &Result<Index, VobSubError>) -> Value {
    match r {
        Ok(i) => json!({"t": "ok",
            "pal": i.palette().iter().map(|p| p.0).collect::<Vec<_>>(),
            "lang": i.lang().as_ref().map_or_else(|| json!([]), |l| json!(l.lang().bytes().collect::<Vec<_>>())),
            "haslang": i.lang().is_some()}),
        Err(e) => {
            let mut v = crate::fam_vob::vob_err(e);
            if let VobSubError::Io { path, .. } = e {
                v["path"] = json!(path.to_string_lossy());
            }
            v
        }
    }
}

pub fn idx(c: &Value) -> Value {
    let data = crate::fam_pgs::repeated(c);
    if c["mode"] == "pal" {
        // The palette text parser on its own.
        let v = match palette(&data) {
            Ok((rest, p)) => json!({"t": "pal", "rest": rest.len(), "pal": p.iter().map(|p| p.0).collect::<Vec<_>>()}),
            Err(_) => json!({"t": "err"}),
        };
        return json!([v]);
    }
    let cap = int(c, "cap", 8192) as usize;
    let r = TestReader::new(data, int(c, "chunk", 0) as usize, int(c, "intr", 0) as u64, int(c, "fault", -1)).failing_as(c);
    let mk = |source| VobSubError::Io { source, path: PathBuf::from("given") };
    let res = Index::read_index(BufReader::with_capacity(cap, r), &mk);
    let ev = index_ev(&res);
    if let Ok(i) = &res {
        // An index made of the same parts is the same.
        if index_ev(&Ok(Index::init(*i.palette(), i.lang().clone()))) != ev {
            return json!([{"t": "made-differs"}]);
        }
    }
    json!([ev])
}

/// Write into a pipe, perhaps in pieces with breaks between them.
fn pour(path: &Path, data: &[u8], pieces: &Value) {
    use std::io::Write as _;
    let (path, data) = (path.to_owned(), data.to_owned());
    let cuts: Vec<usize> = pieces.as_array().map_or(Vec::new(), |p| p.iter().map(|n| (n.as_u64().unwrap() as usize).min(data.len())).collect());
    std::thread::spawn(move || {
        let mut to = std::fs::File::options().write(true).open(path)?;
        let mut at = 0;
        for cut in cuts {
            to.write_all(&data[at..cut])?;
            at = cut;
            std::thread::sleep(std::time::Duration::from_millis(40));
        }
        to.write_all(&data[at..])
    });
}
fn probe_pipe(c: &Value, scratch: &Path, data: &[u8]) -> Value {
    let ask = |name: &str, f: &dyn Fn(&Path) -> Result<bool, VobSubError>| {
        let path = scratch.join(name);
        let _ = std::fs::remove_file(&path);
        assert!(std::process::Command::new("mkfifo").arg(&path).status().unwrap().success());
        pour(&path, data, &c["pieces"]);
        let r = match f(&path) {
            Ok(true) => json!("yes"),
            Ok(false) => json!("no"),
            Err(_) => json!("err"),
        };
        std::fs::remove_file(&path).unwrap();
        r
    };
    json!([{"t": "probe", "idx": ask("pipe1", &|p| is_idx_file(p)), "sub": ask("pipe2", &|p| is_sub_file(p))}])
}
pub fn probe(c: &Value, scratch: &Path) -> Value {
    if c["pipe"] == true {
        return probe_pipe(c, scratch, &bytes_of(&c["bytes"]));
    }
    let data = bytes_of(&c["bytes"]);
    let name = c["name"].as_str().unwrap_or("file");
    let path = scratch.join(name);
    let kind = c["kind"].as_str().unwrap_or("file");
    match kind {
        "file" => std::fs::write(&path, &data).unwrap(),
        "dir" => std::fs::create_dir_all(&path).unwrap(),
        _ => {}
    }
    let ans = |r: Result<bool, VobSubError>| match r {
        Ok(true) => json!("yes"),
        Ok(false) => json!("no"),
        Err(VobSubError::Io { path: p, .. }) if p == path => json!("err"),
        Err(_) => json!("err-without-path"),
    };
    let v = json!([{"t": "probe", "idx": ans(is_idx_file(&path)), "sub": ans(is_sub_file(&path))}]);
    match kind {
        "file" => std::fs::remove_file(&path).unwrap(),
        "dir" => std::fs::remove_dir(&path).unwrap(),
        _ => {}
    }
    v
}

/// The way from the current folder to an absolute path.
fn from_here(path: &Path) -> PathBuf {
    let depth = std::env::current_dir().unwrap().components().count() - 1;
    (0..depth).map(|_| "..").collect::<PathBuf>().join(path.strip_prefix("/").unwrap())
}
/// Read a file in the way of `kind`, whatever comes out of it.
fn open_and_drain(kind: &str, path: &Path) {
    guarded(|| match kind {
        "image" => SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(path).into_iter().for_each(|p| drop(p.take(99).count())),
        "time" => SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(path).into_iter().for_each(|p| drop(p.take(99).count())),
        "sub" => drop(Sub::open(path).map(|s| crate::fam_vob::drive(&s, 99, 1, false))),
        "idx" => drop(Index::open(path)),
        "isidx" => drop(is_idx_file(path)),
        _ => drop(is_sub_file(path)),
    });
}
pub fn file(c: &Value, scratch: &Path) -> Value {
    // Large files: `n` times `unit` (that holds nothing to return) in front of the content.
    let content = bytes_of(&c["bytes"]);
    let data = [bytes_of(&c["unit"]).repeat(int(c, "n", 0) as usize), content.clone()].concat();
    let what = c["what"].as_str().unwrap();
    let dir = scratch.join("openhere");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let plain = dir.join("given.bin");
    let path = match what {
        "slash" => PathBuf::from(format!("{}/", plain.display())),
        "under" => plain.join("given.bin"),
        "nul" => dir.join("given\0.bin"),
        "long" => dir.join("x".repeat(300)),
        "empty" => PathBuf::new(),
        "blank" => dir.join(" gi ven \u{e9}.bin "),
        "relative" | "relgone" => from_here(&plain),
        "reldir" => from_here(&dir).join("."),
        "dotsdir" => dir.join("sub dir/../sub dir"),
        "rawname" | "rawgone" => dir.join(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(b"n\xff\xc3me.bin")),
        "dots" | "dotsgone" => dir.join("./sub dir/.././given.bin"),
        _ => plain.clone(),
    };
    if let Some(before) = c["before"].as_array() {
        // Something else was there and has been read; nothing but the content tells them apart.
        std::fs::write(&plain, before.iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<_>>()).unwrap();
        open_and_drain(c["kind"].as_str().unwrap(), &plain);
        let time = std::fs::metadata(&plain).unwrap().modified().unwrap();
        if what == "file" {
            std::fs::write(&plain, &data).unwrap();
            std::fs::File::options().write(true).open(&plain).unwrap().set_modified(time).unwrap();
        } else {
            std::fs::remove_file(&plain).unwrap();
        }
    }
    match what {
        "file" if c["before"].is_array() => {}
        "dir" => std::fs::create_dir_all(&path).unwrap(),
        "dotsdir" => std::fs::create_dir_all(dir.join("sub dir")).unwrap(),
        "linkdir" => {
            std::fs::create_dir_all(dir.join("real")).unwrap();
            std::os::unix::fs::symlink("real", &path).unwrap();
        }
        "relative" | "file" | "slash" | "under" => std::fs::write(&plain, &data).unwrap(),
        "blank" | "rawname" => std::fs::write(&path, &data).unwrap(),
        "dots" | "dotsgone" => {
            std::fs::create_dir_all(dir.join("sub dir")).unwrap();
            if what == "dots" {
                std::fs::write(&path, &data).unwrap();
            }
        }
        "link" => {
            std::fs::write(dir.join("real"), &data).unwrap();
            std::os::unix::fs::symlink("real", &path).unwrap();
        }
        "pipe" => {
            // The content goes through a pipe, that has no size of its own.
            assert!(std::process::Command::new("mkfifo").arg(&path).status().unwrap().success());
            pour(&path, &data, &c["pieces"]);
        }
        "dangling" => std::os::unix::fs::symlink("nowhere", &path).unwrap(),
        "loop" => std::os::unix::fs::symlink("given.bin", &path).unwrap(),
        _ => {}
    }
    let is_file = matches!(what, "file" | "blank" | "link" | "rawname" | "dots" | "relative" | "pipe");

    let limit = content.len() + 16;
    let io_path = |p: &PathBuf| json!({"t": "io", "p": if p.as_os_str() == path.as_os_str() { "path" } else { "otherpath" }});
    let pgs = |e: PgsError| match e {
        PgsError::Io { path: p, .. } => vec![io_path(&p)],
        _ => vec![json!({"t": "io", "p": "none"})],
    };
    let vob = |e: VobSubError| match e {
        VobSubError::Io { path: p, .. } => vec![io_path(&p)],
        _ => vec![json!({"t": "io", "p": "none"})],
    };
    let (a, b): (Vec<Value>, Vec<Value>) = match c["kind"].as_str().unwrap() {
        "image" => {
            let m = crate::fam_pgs::drive::<DecodeTimeImage, _>(Cursor::new(data.clone()), limit, 1, false);
            let r = SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(&path);
            (r.map_or_else(pgs, |p| collect_sup(p, limit)), m)
        }
        "time" => {
            let m = crate::fam_pgs::drive::<DecodeTimeOnly, _>(Cursor::new(data.clone()), limit, 1, false);
            let r = SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(&path);
            (r.map_or_else(pgs, |p| collect_sup(p, limit)), m)
        }
        "sub" => {
            // There is no reader of bytes in memory: the reference is a plain file of the
            // content alone elsewhere.
            let other = dir.join("reference.bin");
            std::fs::write(&other, &content).unwrap();
            let r = Sub::open(&path);
            let m = crate::fam_vob::drive(&Sub::open(&other).unwrap(), limit, 1, false);
            (r.map_or_else(vob, |s| crate::fam_vob::drive(&s, limit, 1, false)), m)
        }
        "idx" => {
            let mk = |source| VobSubError::Io { source, path: path.clone() };
            let m = index_ev(&Index::read_index(BufReader::new(Cursor::new(data.clone())), &mk));
            let r = Index::open(&path);
            (match r {
                Err(e @ VobSubError::Io { .. }) if !is_file => vob(e),
                r => vec![index_ev(&r)],
            }, vec![m])
        }
        k => {
            // Probing: what the bytes say is the reference.
            let (r, magic) = if k == "isidx" {
                (is_idx_file(&path), &b"# VobSub index file"[..])
            } else {
                (is_sub_file(&path), &[0, 0, 1, 0xba][..])
            };
            let short = data.len() < magic.len();
            let m = json!({"t": if short { "short" } else if data.starts_with(magic) { "yes" } else { "no" }});
            let r = match r {
                // A file that is too short is not of the type: an answer or an error (see Probe).
                Ok(false) if short => vec![json!({"t": "short"})],
                Ok(v) => vec![json!({"t": if v { "yes" } else { "no" }})],
                Err(VobSubError::Io { path: p, .. }) if is_file && p == path => vec![json!({"t": "short"})],
                Err(e) => vob(e),
            };
            (r, vec![m])
        }
    };
    std::fs::remove_dir_all(&dir).unwrap();
    json!([{"t": "file", "file": a, "mem": b}])
}
fn collect_sup<I, T>(mut p: I, limit: usize) -> Vec<Value>
where
    I: Iterator<Item = Result<T, PgsError>>,
    T: crate::fam_pgs::Ev,
{
    let mut out = Vec::new();
    for _ in 0..=limit {
        match guarded(|| p.next().map(|r| match r {
            Ok(v) => v.ev(),
            Err(e) => crate::fam_pgs::pgs_err(&e),
        })) {
            None => {
                out.push(json!({"t": "panic"}));
                return out;
            }
            Some(Some(v)) => out.push(v),
            Some(None) => {
                out.push(json!({"t": "end"}));
                if out.iter().filter(|v| v["t"] == "end").count() == 2 {
                    return out;
                }
            }
        }
    }
    out
}

fn s_neg(t: TimePoint, panicked: &std::cell::Cell<bool>) -> i64 {
    guarded(|| (-t).msecs()).unwrap_or_else(|| {
        panicked.set(true);
        0
    })
}
struct Separated(TimePoint, char);
impl std::fmt::Display for Separated {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt_separator(f, self.1)
    }
}
pub fn time(c: &Value) -> Value {
    let mode = c["mode"].as_str().unwrap();
    if mode != "time" {
        // n / 1024 seconds, or a number of seconds that is no time point
        let secs = match c["of"].as_str() {
            Some(s) => s.parse::<f64>().unwrap(),
            None => from_digits(c) as f64 / 1024.0,
        };
        return match guarded(|| TimePoint::from_secs(secs).msecs()) {
            None => json!([{"t": "refused"}]),
            Some(v) => json!([{"t": "secs", "msecs": digits(v)}]),
        };
    }
    let v = from_digits(c);
    let w = from_digits(&json!({"neg": c["neg2"], "d": c["d2"]}));
    let t = TimePoint::from_msecs(v);
    let panicked = std::cell::Cell::new(false);
    let s = |x: Option<String>| match x {
        None => {
            panicked.set(true);
            json!([])
        }
        Some(x) => json!(x.into_bytes()),
    };
    // Only values that a double represents exactly can be converted to seconds and back.
    let exact = v.unsigned_abs() < (1 << 53);
    let rt = if exact {
        guarded(|| TimePoint::from_secs(t.to_secs()).msecs()).unwrap_or_else(|| {
            panicked.set(true);
            0
        })
    } else {
        v
    };
    let u = TimePoint::from_msecs(w);
    let opp = if v == i64::MIN { json!([]) } else { json!([digits(s_neg(t, &panicked))]) };
    let cmp = t.cmp(&u) as i8;
    let agree = t.partial_cmp(&u) == Some(t.cmp(&u)) && (t < u) == (cmp < 0) && (t >= u) == (cmp >= 0) && t.max(u) == if cmp > 0 { t } else { u };
    let span = TimeSpan::new(t, u);
    let spans = agree && span.start == t && span.end == u && (span == TimeSpan::new(u, t)) == (t == u) && TimeSpan::default().start == TimePoint::default()
        && TimePoint::default().msecs() == 0 && !format!("{span:?} {t:?}").is_empty();
    // Any separator.
    let spans = spans && s(guarded(|| srtm::TimePointSrt::from(t).to_string())) == s(guarded(|| Separated(t, '\u{2192}').to_string().replace('\u{2192}', ",")));
    let r = json!({"t": "time", "cmp": cmp, "eq": t == u, "opp": opp, "span": spans,
        "srt": s(guarded(|| srtm::TimePointSrt::from(t).to_string())),
        "vtt": s(guarded(|| webvtt::TimePointVtt::from(t).to_string())),
        "idx": s(guarded(|| TimePointIdx::from(t).to_string())),
        "msecs": digits(t.msecs()), "rt": digits(rt), "diff": ms(rt.saturating_sub(v))});
    if panicked.get() {
        return json!([{"t": "panic"}]);
    }
    json!([r])
}

struct PlanWriter {
    got: Vec<u8>,
    chunk: usize,
    intr: u64,
    fail: i64,
    zero: bool,
    once: bool,
    failed: bool,
    kind: io::ErrorKind,
    calls: u64,
}
impl Write for PlanWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        if self.fail >= 0 {
            let room = (self.fail as usize).saturating_sub(self.got.len());
            if room == 0 && !buf.is_empty() && !self.zero {
                if self.once {
                    // It would work again; what is there at the failure counts.
                    self.fail = -1;
                    self.failed = true;
                }
                return Err(crate::reader::failure(self.kind));
            }
            n = n.min(room);
        }
        if !self.failed {
            self.got.extend_from_slice(&buf[..n]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn srt(c: &Value) -> Value {
    let subs: Vec<(TimeSpan, String)> = c["subs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| {
            let p = |k: &str| TimePoint::from_msecs(from_digits(&s[k]));
            (TimeSpan::new(p("s"), p("e")), String::from_utf8(bytes_of(&s["text"])).unwrap())
        })
        .collect();
    let mut w = PlanWriter {
        got: Vec::new(),
        chunk: int(c, "chunk", 0) as usize,
        intr: int(c, "intr", 0) as u64,
        fail: int(c, "fail", -1),
        zero: c["zero"].as_bool().unwrap_or(false),
        once: c["once"].as_bool().unwrap_or(false),
        failed: false,
        kind: crate::reader::KINDS[int(c, "ekind", 0) as usize % crate::reader::KINDS.len()],
        calls: 0,
    };
    let r = guarded(|| match c["mode"].as_str().unwrap() {
        "srt" => srtm::write_srt(&mut w, &subs),
        "srtline" => srtm::write_line(&mut w, int(c, "num", 1) as usize, &subs[0].0, &subs[0].1),
        _ => webvtt::write_line(&mut w, &subs[0].0, &subs[0].1),
    });
    let res = match r {
        None => "panic",
        Some(Ok(())) => "ok",
        Some(Err(e)) if e.to_string() == "injected" => "injected",
        Some(Err(_)) => "othererr",
    };
    json!([{"t": "wrote", "res": res, "bytes": w.got}])
}

pub fn area(c: &Value) -> Value {
    let g = |k: &str| int(c, k, 0) as u16;
    let v = AreaValues { x1: g("x1"), y1: g("y1"), x2: g("x2"), y2: g("y2") };
    let r = guarded(|| match Area::try_from(v) {
        Err(_) => json!({"t": "rej"}),
        Ok(a) => {
            let s = a.size();
            let img = VobSubIndexedImage::new(a, [0; 4], [0; 4], Vec::new());
            json!({"t": "area", "l": a.left(), "tp": a.top(), "w": a.width(), "h": a.height(),
                "sw": s.w, "sh": s.h, "iw": img.width(), "ih": img.height(), "same": img.area() == a})
        }
    });
    json!([r.unwrap_or_else(|| json!({"t": "panic"}))])
}

/// Samples of 16 bits from their bytes, as they lie in memory.
fn wide(b: &[u8]) -> Vec<u16> {
    b.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect()
}
fn px_of(v: &Value) -> Vec<u8> {
    bytes_of(v)
}
fn listing(dir: &Path, prefix: &str, out: &mut Vec<Value>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut names: Vec<_> = rd.map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    for n in names {
        let p = dir.join(&n);
        let name = if prefix.is_empty() { n.clone() } else { format!("{prefix}/{n}") };
        if p.is_dir() {
            out.push(json!({"name": name, "k": "dir", "w": 0, "h": 0, "c": 0, "px": []}));
            listing(&p, &name, out);
        } else {
            let data = std::fs::read(&p).unwrap();
            match image::load_from_memory_with_format(&data, image::ImageFormat::Png) {
                // A picture, and nothing behind it.
                Ok(i) if data.ends_with(b"IEND\xae\x42\x60\x82") => out.push(json!({"name": name, "k": "png", "w": i.width(), "h": i.height(),
                    "c": i.color().channel_count() + if i.color().bits_per_pixel() / u16::from(i.color().channel_count()) > 8 { 10 } else { 0 }, "px": i.as_bytes()})),
                _ => out.push(json!({"name": name, "k": "raw", "w": 0, "h": 0, "c": 0, "px": data})),
            }
        }
    }
}

/// `root` stands for the scratch folder; all paths of the case are relative to it.
pub fn dump(c: &Value, scratch: &Path) -> Value {
    let root = scratch.join("dumproot");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    for p in c["pre"].as_array().unwrap() {
        let path = root.join(p["name"].as_str().unwrap());
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        if p["k"] == "dir" {
            std::fs::create_dir_all(&path).unwrap();
        } else {
            let px = px_of(&p["px"]);
            if p["k"] == "png" {
                ImageBuffer::<Luma<u8>, Vec<u8>>::from_raw(int(p, "w", 1) as u32, int(p, "h", 1) as u32, px).unwrap().save_with_format(&path, image::ImageFormat::Png).unwrap();
            } else {
                std::fs::write(&path, px).unwrap();
            }
            if p["ro"] == true {
                // (nothing is read-only for root, as whom this runs)
                std::fs::set_permissions(&path, std::os::unix::fs::PermissionsExt::from_mode(0o444)).unwrap();
            }
        }
    }
    let target = root.join(c["path"].as_str().unwrap());
    let imgs = c["imgs"].as_array().unwrap();
    let dim = |i: &Value| (int(i, "w", 1) as u32, int(i, "h", 1) as u32, px_of(&i["px"]));
    let t = target.to_str().unwrap();
    let produced = std::cell::Cell::new(0);
    let tick = |_: &Value| produced.set(produced.get() + 1);
    let r = guarded(|| match int(c, "ch", 1) {
        1 => dump_images(t, imgs.iter().inspect(|i| tick(i)).map(|i| {
            let (w, h, p) = dim(i);
            ImageBuffer::<Luma<u8>, Vec<u8>>::from_raw(w, h, p).unwrap()
        })),
        2 => dump_images(t, imgs.iter().inspect(|i| tick(i)).map(|i| {
            let (w, h, p) = dim(i);
            ImageBuffer::<LumaA<u8>, Vec<u8>>::from_raw(w, h, p).unwrap()
        })),
        3 => dump_images(t, imgs.iter().inspect(|i| tick(i)).map(|i| {
            let (w, h, p) = dim(i);
            ImageBuffer::<Rgb<u8>, Vec<u8>>::from_raw(w, h, p).unwrap()
        })),
        11 => dump_images(t, imgs.iter().inspect(|i| tick(i)).map(|i| {
            let (w, h, p) = dim(i);
            ImageBuffer::<Luma<u16>, Vec<u16>>::from_raw(w, h, wide(&p)).unwrap()
        })),
        14 => dump_images(t, imgs.iter().inspect(|i| tick(i)).map(|i| {
            let (w, h, p) = dim(i);
            ImageBuffer::<Rgba<u16>, Vec<u16>>::from_raw(w, h, wide(&p)).unwrap()
        })),
        23 => dump_images(t, imgs.iter().inspect(|i| tick(i)).map(|i| {
            let (w, h, p) = dim(i);
            ImageBuffer::<Rgb<f32>, Vec<f32>>::from_raw(w, h, p.into_iter().map(f32::from).collect()).unwrap()
        })),
        _ => {
            let v: Vec<_> = imgs.iter().inspect(|i| tick(i)).map(|i| {
                let (w, h, p) = dim(i);
                ImageBuffer::<Rgba<u8>, Vec<u8>>::from_raw(w, h, p).unwrap()
            }).collect();
            dump_images(t, v.iter())
        }
    });
    let rel = |p: &Path| p.strip_prefix(&root).map_or_else(|_| "?".to_owned(), |p| p.components().collect::<PathBuf>().to_string_lossy().into_owned());
    let (res, path) = match &r {
        None => ("panic", String::new()),
        Some(Ok(())) => ("ok", String::new()),
        Some(Err(SubtileError::ImageDump(DumpError::Folder { path, .. }))) => ("folder", rel(path)),
        Some(Err(SubtileError::ImageDump(DumpError::DumpImage { filename, .. }))) => ("image", rel(filename)),
        Some(Err(_)) => ("other", String::new()),
    };
    let mut files = Vec::new();
    listing(&root, "", &mut files);
    let _ = std::fs::remove_dir_all(&root);
    json!([{"t": "dump", "res": res, "path": path, "files": files}])
}

/// The numbers are `unit`ths; where both thresholds are whole and in the table, also the function with constants.
fn bw<P: image::Primitive>(of: impl Fn(i64) -> P, unit: i64, [l, a, lt, at]: [i64; 4]) -> Value {
    let p = LumaA([of(l), of(a)]);
    let v = luma_a_to_luma_convertor::<P, LumaA<P>>(of(at), of(lt))(p)[0];
    let w = luma_a_to_luma_convertor::<P, &LumaA<P>>(of(at), of(lt))(&p)[0];
    let say = |v: P| if v == P::DEFAULT_MIN_VALUE { 0 } else if v == P::DEFAULT_MAX_VALUE { 1 } else { 2 };
    macro_rules! table {
        ($($x:literal)*) => { table!(@ [$($x)*] [$($x)*]) };
        (@ [$($x:literal)*] $ys:tt) => {{ let mut r = json!([]); $( table!(# r $x $ys); )* r }};
        (# $r:ident $x:literal [$($y:literal)*]) => { $(
            if at == $x * unit && lt == $y * unit { $r = json!([say(luma_a_to_luma::<_, P, $x, $y>(p)[0])]); }
        )* };
    }
    let ct = table!(0 1 2 100 127);
    json!([{"t": "luma", "bw": say(v), "bwref": say(w), "ct": ct}])
}
/// Floats beyond all numbers, and one that is none.
const BEYOND: i64 = 2_000_000_000;
fn float(v: i64) -> f64 {
    match v {
        BEYOND => f64::INFINITY,
        n if n == -BEYOND => f64::NEG_INFINITY,
        n if n == BEYOND + 1 => f64::NAN,
        v => v as f64 / 1024.0,
    }
}
pub fn luma(c: &Value) -> Value {
    let (lt, at) = (int(c, "lt", 0), int(c, "at", 0));
    let all = [int(c, "l", 0), int(c, "a", 0), lt, at];
    match c["prim"].as_str() {
        Some("f32") => return bw(|v| float(v) as f32, 1024, all),
        Some("f64") => return bw(float, 1024, all),
        Some("i8") => return bw(|v| v as i8, 1, all),
        Some("i16") => return bw(|v| v as i16, 1, all),
        Some("i32") => return bw(|v| v as i32, 1, all),
        Some("u32") => return bw(|v| v as u32, 1, all),
        Some("u64") => return bw(|v| v as u64 * (1 << 33), 1 << 40, all),
        Some("i64") => return bw(|v| v * (1 << 30), 1 << 40, all),
        _ => {}
    }
    if int(c, "bits", 8) == 16 {
        let p = LumaA([int(c, "l", 0) as u16, int(c, "a", 0) as u16]);
        let run16 = luma_a_to_luma_convertor::<u16, LumaA<u16>>(at as u16, lt as u16)(p)[0];
        macro_rules! table {
            ($($x:literal)*) => { table!(@ [$($x)*] [$($x)*]) };
            (@ [$($x:literal)*] $ys:tt) => {{ let mut r = json!([]); $( table!(# r $x $ys); )* r }};
            (# $r:ident $x:literal [$($y:literal)*]) => { $(
                if at == $x && lt == $y { $r = json!([luma_a_to_luma::<_, u16, $x, $y>(p)[0]]); }
            )* };
        }
        let ct16 = table!(0 1 2 100 127 128 254 255);
        return json!([{"t": "luma", "run16": run16, "ct16": ct16}]);
    }
    let (lt8, at8) = (lt as u8, at as u8);
    let all = || (0..=255u8).flat_map(|a| (0..=255u8).map(move |l| LumaA([l, a])));
    let conv = luma_a_to_luma_convertor::<u8, LumaA<u8>>(at8, lt8);
    let run = runs(all().map(|p| vec![u32::from(conv(p)[0])]));
    let runref = runs(all().map(|p| vec![u32::from(luma_a_to_luma_convertor::<u8, &LumaA<u8>>(at8, lt8)(&p)[0])]));
    macro_rules! table {
        ($($x:literal)*) => { table!(@ [$($x)*] [$($x)*]) };
        (@ [$($x:literal)*] $ys:tt) => {{ let mut r = json!([]); let mut rr = json!([]);
            $( table!(# r rr $x $ys); )* (r, rr) }};
        (# $r:ident $rr:ident $x:literal [$($y:literal)*]) => { $(
            if at == $x && lt == $y {
                $r = runs(all().map(|p| vec![u32::from(luma_a_to_luma::<_, u8, $x, $y>(p)[0])]));
                $rr = runs(all().map(|p| vec![u32::from(luma_a_to_luma::<_, u8, $x, $y>(&p)[0])]));
            }
        )* };
    }
    let (ct, ctref) = table!(0 1 2 100 127 128 254 255);
    json!([{"t": "luma", "run": run, "runref": runref, "ct": ct, "ctref": ctref}])
}
