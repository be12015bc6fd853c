//! SUP reader, SUP images, interleaved readers.
use crate::{bytes_of, guarded, int, ms, reader::TestReader, runs};
use image::{LumaA, Primitive, Rgb, Rgba};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Cursor, Seek};
use std::path::PathBuf;
use subtile::image::{luma_a_to_luma_convertor, ImageSize, ToImage, ToOcrImage};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, PgsError, RleEncodedImage, RleToImage};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use subtile::time::{TimePoint, TimeSpan};
use subtile::SupParser;

pub fn pgs_err(e: &PgsError) -> Value {
    // Also exercise Display and Debug of the error.
    let text = crate::told(e);
    let k = match e {
        PgsError::MissingImage => "MissingImage",
        PgsError::MissingPalette => "MissingPalette",
        PgsError::Io { .. } => "Io",
        _ => "Other",
    };
    json!({"t": "err", "k": k, "d": text.chars().take(60).collect::<String>()})
}
pub trait Ev {
    fn ev(self) -> Value;
}
impl Ev for TimeSpan {
    fn ev(self) -> Value {
        json!({"t": "cap", "s": ms(self.start.msecs()), "e": ms(self.end.msecs()),
               "w": 0, "h": 0, "big": false, "px": []})
    }
}
/// Declared sizes above this are not iterated (only reported).
const MAX_PIXELS: u64 = 20_000_000;
impl Ev for (TimeSpan, RleEncodedImage) {
    fn ev(self) -> Value {
        let (t, img) = self;
        let n = u64::from(img.width()) * u64::from(img.height());
        let big = n > MAX_PIXELS;
        let px = if big {
            Some(json!([]))
        } else {
            guarded(|| {
                let all = || runs(img.iter().map(|p| vec![u32::from(p[0]), u32::from(p[1])]));
                let px = all();
                if n < 5000 {
                    // Again, after an iteration that was not finished.
                    img.iter().take(n as usize / 2).for_each(drop);
                    assert_eq!(px, all());
                }
                px
            })
        };
        match px {
            None => json!({"t": "panic", "d": "iter"}),
            Some(px) => json!({"t": "cap", "s": ms(t.start.msecs()), "e": ms(t.end.msecs()),
               "w": img.width(), "h": img.height(), "big": big, "px": px}),
        }
    }
}

/// Drives an iterator of results until its end, an I/O-like stop or a panic; then `extra` more requests.
pub fn drive<D: PgsDecoder, R: BufRead + Seek>(reader: R, cap: usize, extra: i64, stop_on_err: bool) -> Vec<Value>
where
    D::Output: Ev,
{
    let mut p = SupParser::<R, D>::new(reader);
    let mut out = Vec::new();
    loop {
        match guarded(|| p.next().map(|r| match r {
            Ok(v) => v.ev(),
            Err(e) => pgs_err(&e),
        })) {
            None => {
                out.push(json!({"t": "panic"}));
                return out;
            }
            Some(Some(v)) => {
                let stop = stop_on_err && v["t"] == "err";
                out.push(v);
                if stop {
                    return out;
                }
            }
            Some(None) => break,
        }
        if out.len() > cap {
            out.push(json!({"t": "runaway"}));
            return out;
        }
    }
    out.push(json!({"t": "end"}));
    for _ in 0..extra {
        out.push(match guarded(|| p.next().map(|r| match r {
            Ok(v) => v.ev(),
            Err(e) => pgs_err(&e),
        })) {
            None => json!({"t": "panic"}),
            Some(Some(v)) => v,
            Some(None) => json!({"t": "end"}),
        });
    }
    out
}

/// The bytes of a case, repeated as often as it says; with `puff` = [at, n, pattern] the
/// pattern n times more at a place of them.
pub fn repeated(c: &Value) -> Vec<u8> {
    let mut data = bytes_of(&c["bytes"]).repeat(int(c, "rep", 1) as usize);
    if let Some(p) = c.get("puff") {
        let (at, n) = (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize);
        let tail = data.split_off(at);
        data.extend(bytes_of(&p[2]).repeat(n));
        data.extend(tail);
    }
    data
}
/// The results for repeated bytes: one period of them, or a word that there is none.
pub fn one_period(c: &Value, out: Vec<Value>) -> Value {
    let rep = int(c, "rep", 1) as usize;
    if rep == 1 {
        return json!(out);
    }
    let (end, items) = out.split_last().unwrap();
    let n = items.len() / rep;
    if items.len() % rep == 0 && items.iter().enumerate().all(|(i, v)| *v == items[i % n]) {
        json!(items[..n].iter().chain([end]).collect::<Vec<_>>())
    } else {
        json!([{"t": "irregular", "results": items.len(), "last": items.last(), "end": end}])
    }
}

pub fn pgs(c: &Value) -> Value {
    let data = repeated(c);
    let limit = data.len() + 16;
    let (cap, chunk, intr) = (int(c, "cap", 0), int(c, "chunk", 0), int(c, "intr", 0));
    let fault = int(c, "fault", -1);
    let extra = int(c, "extra", 0);
    let image = c["dec"] == "image";
    let stop = fault >= 0;
    let out = if cap == 0 {
        let r = Cursor::new(data);
        if image {
            drive::<DecodeTimeImage, _>(r, limit, extra, stop)
        } else {
            drive::<DecodeTimeOnly, _>(r, limit, extra, stop)
        }
    } else {
        let r = BufReader::with_capacity(
            cap as usize,
            TestReader::new(data, chunk as usize, intr as u64, fault).failing_as(c),
        );
        if image {
            drive::<DecodeTimeImage, _>(r, limit, extra, stop)
        } else {
            drive::<DecodeTimeOnly, _>(r, limit, extra, stop)
        }
    };
    one_period(c, out)
}

/// One reader, handed from decoder to decoder: `decs` in turn, each called directly, through a new
/// parser that borrows the reader, or through a parser that owns it and is kept (`via`).
pub fn hand(c: &Value, scratch: &PathBuf) -> Value {
    let data = bytes_of(&c["bytes"]);
    let (cap, chunk, intr, start) = (int(c, "cap", 0), int(c, "chunk", 0), int(c, "intr", 0), int(c, "start", 0) as u64);
    match c["over"].as_str().unwrap_or("mem") {
        "file" => {
            let path = scratch.join("hand.sup");
            std::fs::write(&path, &data).unwrap();
            handed(c, BufReader::with_capacity(cap.max(1) as usize, std::fs::File::open(&path).unwrap()), start)
        }
        _ if cap == 0 => handed(c, Cursor::new(data), start),
        _ => handed(c, BufReader::with_capacity(cap as usize, TestReader::new(data, chunk as usize, intr as u64, -1).failing_as(c)), start),
    }
}
fn handed<R: BufRead + Seek>(c: &Value, mut reader: R, start: u64) -> Value {
    reader.seek(std::io::SeekFrom::Start(start)).unwrap();
    let decs = c["decs"].as_array().unwrap();
    let vias = c["via"].as_array().unwrap();
    let max = int(c, "max", 0) as usize; // number of requests, when it ends before the data
    let limit = bytes_of(&c["bytes"]).len() + 16;
    let mut out = Vec::new();
    loop {
        let n = out.len();
        let image = decs[n % decs.len()] == "image";
        let parser = vias[n % vias.len()] == "parser";
        let rd = &mut reader;
        let v = guarded(move || match (image, parser) {
            (true, false) => DecodeTimeImage::parse_next(rd).map(|v| v.map(Ev::ev)),
            (false, false) => DecodeTimeOnly::parse_next(rd).map(|v| v.map(Ev::ev)),
            (true, true) => SupParser::<_, DecodeTimeImage>::new(rd).next().transpose().map(|v| v.map(Ev::ev)),
            (false, true) => SupParser::<_, DecodeTimeOnly>::new(rd).next().transpose().map(|v| v.map(Ev::ev)),
        });
        let mut v = match v {
            None => json!({"t": "panic"}),
            Some(Err(e)) => pgs_err(&e),
            Some(Ok(Some(v))) => v,
            Some(Ok(None)) => json!({"t": "end"}),
        };
        let over = v["t"] == "panic" || v["t"] == "end";
        v["p"] = guarded(|| reader.stream_position()).and_then(Result::ok).map_or(json!(-1), |p| json!(p));
        out.push(v);
        if over || out.len() > limit || out.len() == max {
            return json!(out);
        }
    }
}

/// Pixels of another kind of numbers are those of 16 bits (never 65535 but where there is no colour).
fn of_kind<D: Primitive + std::fmt::Debug>(img: &RleEncodedImage) {
    let of = |n: u16| D::from(n.min(127)).unwrap();
    let wide = img.pixels::<u16>(|p| LumaA([u16::from(p.luminance / 2), u16::from(p.transparency / 2)]));
    let mut kind = img.pixels::<D>(|p| LumaA([D::from(p.luminance / 2).unwrap(), D::from(p.transparency / 2).unwrap()]));
    for p in wide {
        let want = if p[0] == u16::MAX { LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]) } else { LumaA([of(p[0]), of(p[1])]) };
        assert_eq!(kind.next(), Some(want));
    }
    assert_eq!(kind.next(), None);
}
fn render(c: &Value, img: &RleEncodedImage) -> Value {
    let (w, h) = (img.width(), img.height());
    let total = w as usize * h as usize;
    let (lt, at) = (int(c, "lt", 100) as u8, int(c, "at", 100) as u8);
    let mut r = json!({"w": w, "h": h});
    if let Some(n) = c.get("huge").and_then(Value::as_u64) {
        // Too many pixels to take them all: the lengths reported before each of the first ones.
        let limbs = |v: usize| json!([(v >> 16).min(i32::MAX as usize), v & 0xffff]);
        let lengths = guarded(|| {
            let mut it = img.iter();
            let mut wide = img.pixels::<u16>(|p| LumaA([p.luminance.into(), 0]));
            let mut out = Vec::new();
            for _ in 0..=n {
                for (len, (lo, hi)) in [(it.len(), it.size_hint()), (wide.len(), wide.size_hint())] {
                    out.push(json!([limbs(len), limbs(lo), limbs(hi.unwrap_or(usize::MAX))]));
                }
                it.next();
                wide.next();
            }
            json!(out)
        });
        r["huge"] = lengths.unwrap_or_else(|| json!("panic"));
        return r;
    }
    let get = |v: Option<Value>| v.unwrap_or_else(|| json!("panic"));
    let all = || runs(img.iter().map(|p| vec![p[0].into(), p[1].into()]));
    r["px"] = get(guarded(all));
    r["px16"] = get(guarded(|| {
        if total < 20_000 {
            of_kind::<f32>(img);
            of_kind::<f64>(img);
            of_kind::<i8>(img);
            of_kind::<i32>(img);
            of_kind::<u64>(img);
        }
        runs(img
            .pixels::<u16>(|p| LumaA([u16::from(p.luminance) * 2, u16::from(p.transparency) + 7]))
            .map(|p| vec![p[0].into(), p[1].into()]))
    }));
    if let Some(ops) = c.get("ops") {
        let show = |p: LumaA<u8>| vec![json!(p[0]), json!(p[1])];
        r["ops"] = get(guarded(|| {
            crate::iterops::script(img.iter(), ops, total + 4, show, |i| {
                let (lo, hi) = i.size_hint();
                json!([i.len(), lo, hi.map_or(-1, |x| x as i64)])
            })
        }));
        if total < 100_000 {
            let px = r["px"].clone();
            r["again"] = get(guarded(|| {
                assert_eq!(px, all());
                json!("same")
            }));
        }
        return r;
    }
    r["id"] = get(guarded(|| {
        let i = RleToImage::new(img, |p: LumaA<u8>| p).to_image();
        json!([i.width(), i.height(), runs(i.pixels().map(|p| vec![p[0].into(), p[1].into()]))])
    }));
    r["thr"] = get(guarded(|| {
        let i = RleToImage::new(img, luma_a_to_luma_convertor(at, lt)).to_image();
        json!([i.width(), i.height(), runs(i.pixels().map(|p| vec![p[0].into()]))])
    }));
    r["rgb"] = get(guarded(|| {
        let i = RleToImage::new(img, |p: LumaA<u8>| Rgb([p[0], p[1], 255 - p[0]])).to_image();
        if total < 50_000 {
            // Four channels are these and another one.
            let four = RleToImage::new(img, |p: LumaA<u8>| Rgba([p[0], p[1], 255 - p[0], p[1] ^ p[0]])).to_image();
            assert_eq!(i.dimensions(), four.dimensions());
            assert!(i.pixels().zip(four.pixels()).all(|(p, q)| q.0 == [p[0], p[1], p[2], p[1] ^ p[0]]));
        }
        json!([i.width(), i.height(), runs(i.pixels().map(|p| vec![p[0].into(), p[1].into(), p[2].into()]))])
    }));
    let opt = crate::ocr_options(c);
    r["opt"] = json!([opt.border, opt.text_color[0], opt.background_color[0]]);
    r["ocr"] = get(guarded(|| {
        let renderer = RleToImage::new(img, luma_a_to_luma_convertor(at, lt));
        let i = if total < 200_000 {
            // The renderer has been used before, with other options.
            let first = RleToImage::new(img, luma_a_to_luma_convertor(at, lt)).image(&opt);
            renderer.image(&crate::other_options(&opt));
            renderer.to_image();
            let i = renderer.image(&opt);
            assert!(first == i);
            i
        } else {
            renderer.image(&opt)
        };
        json!([i.width(), i.height(), runs(i.pixels().map(|p| vec![p[0].into()]))])
    }));
    // Lengths: [pixels taken, reported length, lower, upper] at chosen moments, then past the end.
    r["len"] = get(guarded(|| {
        let step = int(c, "step", 1).max(1) as usize;
        let mut it = img.iter();
        let mut taken = 0usize;
        let mut lens = Vec::new();
        loop {
            if taken % step == 0 || taken + 1 >= total {
                let (lo, hi) = it.size_hint();
                lens.push(json!([taken, it.len(), lo, hi.map_or(-1, |x| x as i64)]));
            }
            if it.next().is_none() || taken > total + 4 {
                break;
            }
            taken += 1;
        }
        let after: Vec<bool> = (0..3).map(|_| it.next().is_none()).collect();
        json!({"lens": lens, "taken": taken, "after": after})
    }));
    r
}

pub fn pgsimg(c: &Value) -> Value {
    let data = bytes_of(&c["bytes"]);
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(data));
    let mut out = Vec::new();
    while out.len() < 64 {
        match guarded(|| p.next()) {
            None => {
                out.push(json!({"t": "panic"}));
                break;
            }
            Some(None) => break,
            Some(Some(Err(e))) => out.push(pgs_err(&e)),
            Some(Some(Ok((_, img)))) => {
                let mut r = render(c, &img);
                r["t"] = json!("img");
                if let Some((k, _)) = r.as_object().unwrap().iter().find(|(k, v)| *k != "t" && **v == "panic") {
                    out.push(json!({"t": "panic", "d": k}));
                } else {
                    out.push(r);
                }
            }
        }
    }
    json!(out)
}

/// Several readers of the same data, requests interleaved by a schedule, and on threads.
/// An entry of the schedule: [reader, operation, count].
pub fn inter(c: &Value, scratch: &PathBuf) -> Value {
    let data = repeated(c);
    match c["kind"].as_str().unwrap() {
        "vob" => {
            let path = scratch.join("inter.sub");
            std::fs::write(&path, &data).unwrap();
            let sub = subtile::vobsub::Sub::open(&path).unwrap();
            if c["only"] == "times" {
                interleave(c, || sub.subtitles::<TimeSpan>(), |r| crate::fam_vob::sub_ev(&r))
            } else {
                interleave(c, || sub.subtitles::<(TimeSpan, subtile::vobsub::VobSubIndexedImage)>(), |r| crate::fam_vob::sub_ev(&r))
            }
        }
        "idx" => {
            // Several texts, read one after the other.
            let texts: Vec<Vec<u8>> = c["texts"].as_array().unwrap().iter().map(crate::bytes_of).collect();
            let read = |t: &Vec<u8>| {
                let mk = |source| subtile::vobsub::VobSubError::Io { source, path: "x".into() };
                let r = subtile::vobsub::Index::read_index(BufReader::new(Cursor::new(t)), &mk);
                json!({"t": if r.is_ok() { "cap" } else { "err" }, "of": crate::fam_text::index_ev(&r)})
            };
            interleave(c, || texts.iter().map(&read), |v: Value| v)
        }
        "image" => sup_readers::<DecodeTimeImage>(c, &data),
        "own" => sup_readers::<Own>(c, &data),
        _ => sup_readers::<DecodeTimeOnly>(c, &data),
    }
}
/// A decoder of ours: each byte is a caption, the end (0) or an error (255).
struct Own;
impl PgsDecoder for Own {
    type Output = TimeSpan;
    fn parse_next<R: BufRead + Seek>(reader: &mut R) -> Result<Option<TimeSpan>, PgsError> {
        let mut b = [0];
        let at = |n: u8| TimePoint::from_msecs(i64::from(n));
        Ok(match reader.read(&mut b) {
            Ok(1) if b[0] == 255 => return Err(PgsError::MissingImage),
            Ok(1) if b[0] > 0 => Some(TimeSpan::new(at(b[0]), at(b[0]))),
            _ => None,
        })
    }
}
/// With `grow`, the readers that are mixed see only so many bytes until they report the end.
fn sup_readers<D: PgsDecoder>(c: &Value, data: &[u8]) -> Value
where
    D::Output: Ev,
{
    let grow = int(c, "grow", -1);
    if grow < 0 {
        return interleave(c, || SupParser::<_, D>::new(Cursor::new(data.to_vec())), res_ev);
    }
    let grow = grow as usize;
    let there: Vec<_> = (0..int(c, "readers", 2)).map(|_| Arc::new(AtomicUsize::new(grow))).collect();
    let mk = |n: &Arc<AtomicUsize>| {
        let mut r = TestReader::new(data.to_vec(), int(c, "chunk", 0) as usize, 0, -1);
        r.there = Some(n.clone());
        SupParser::<_, D>::new(BufReader::with_capacity(int(c, "cap", 64) as usize, r))
    };
    let its = there.iter().map(|n| Some(mk(n))).collect();
    interleave_with(c, || mk(&Arc::new(AtomicUsize::new(grow))), its, |i| there[i].store(data.len(), Ordering::SeqCst), res_ev)
}
fn res_ev<T: Ev>(r: Result<T, PgsError>) -> Value {
    match r {
        Ok(v) => v.ev(),
        Err(e) => pgs_err(&e),
    }
}
fn interleave<I: Iterator>(c: &Value, mk: impl Fn() -> I + Sync, ev: impl Fn(I::Item) -> Value + Copy + Sync) -> Value {
    let its = (0..int(c, "readers", 2)).map(|_| Some(mk())).collect();
    interleave_with(c, mk, its, |_| (), ev)
}
fn interleave_with<I: Iterator>(
    c: &Value,
    mk: impl Fn() -> I + Sync,
    mut its: Vec<Option<I>>,
    ended: impl Fn(usize),
    ev: impl Fn(I::Item) -> Value + Copy + Sync,
) -> Value {
    let sched: Vec<(usize, &str, usize)> = c["sched"].as_array().unwrap().iter()
        .map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_str().unwrap(), x[2].as_u64().unwrap() as usize)).collect();
    let nb = its.len();
    let per = int(c, "alone", 0) as usize;
    let end = || json!({"t": "end"});
    let alone = || {
        let mut it = mk();
        (0..per).map(|_| guarded(|| it.next().map(ev)).map_or_else(|| json!({"t": "panic"}), |v| v.unwrap_or_else(end))).collect::<Vec<_>>()
    };
    let one = alone();
    let mut mixed: Vec<Vec<Value>> = vec![Vec::new(); nb];
    for (s, op, k) in sched {
        let slot = &mut its[s];
        let v = guarded(|| match op {
            "next" => vec![slot.as_mut().unwrap().next().map_or_else(end, ev)],
            "nth" => vec![slot.as_mut().unwrap().nth(k).map_or_else(end, ev)],
            "skip" => vec![slot.as_mut().unwrap().by_ref().skip(k).next().map_or_else(end, ev)],
            "take" => slot.as_mut().unwrap().by_ref().take(k).map(ev).collect(),
            "count" => vec![json!({"t": "count", "n": slot.take().unwrap().count()})],
            "last" => vec![slot.take().unwrap().last().map_or_else(end, ev)],
            "fold" => slot.take().unwrap().fold(Vec::new(), |mut v, x| {
                v.push(ev(x));
                v
            }),
            o => panic!("unknown operation {o}"),
        });
        let mut v = v.unwrap_or_else(|| vec![json!({"t": "panic"})]);
        if (op == "take" && v.len() < k) || v.last().is_some_and(|x| x["t"] == "end") {
            ended(s);
        }
        mixed[s].append(&mut v);
    }
    let threads = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nb).map(|_| s.spawn(alone)).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![json!({"t": "panic"})])).collect::<Vec<_>>()
    });
    json!({"alone": one, "mixed": mixed, "threads": threads})
}
