//! VobSub reader and rendering.
use crate::{bytes_of, guarded, int, ms, runs};
use image::{Luma, Rgb, Rgba};
use serde_json::{json, Value};
use std::path::Path;
use subtile::content::{Area, AreaValues};
use subtile::image::{ImageArea, ImageSize, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::time::TimeSpan;
use subtile::vobsub::{
    conv_to_rgba, palette_rgb_to_luminance, ErrorMissing, Sub, VobSubError, VobSubIndexedImage,
    VobSubOcrImage, VobSubToImage,
};

pub fn vob_err(e: &VobSubError) -> Value {
    let text = crate::told(e);
    let k = match e {
        VobSubError::MissingSubtitleParsing(m) => match m {
            ErrorMissing::StartTime => "MissStart",
            ErrorMissing::Area => "MissArea",
            ErrorMissing::Palette => "MissPalette",
            ErrorMissing::AlphaPalette => "MissAlpha",
            ErrorMissing::RleOffset => "MissOffsets",
            _ => "Other",
        },
        VobSubError::Io { .. } => "Io",
        _ => "Other",
    };
    json!({"t": "err", "k": k, "d": text.chars().take(60).collect::<String>()})
}

pub fn sub_ev(r: &Result<(TimeSpan, VobSubIndexedImage), VobSubError>) -> Value {
    match r {
        Err(e) => vob_err(e),
        Ok((t, i)) => {
            let a = i.area();
            json!({"t": "sub", "s": ms(t.start.msecs()), "e": ms(t.end.msecs()),
                "x": a.left(), "y": a.top(), "w": i.width(), "h": i.height(),
                "pal": i.palette(), "al": i.alpha(),
                "n": i.raw_image().len(),
                "px": runs(i.raw_image().iter().map(|&v| vec![u32::from(v)]))})
        }
    }
}

pub fn drive(sub: &Sub, limit: usize, extra: i64, render: bool) -> Vec<Value> {
    drive_it(&mut sub.subtitles::<(TimeSpan, VobSubIndexedImage)>(), limit, extra, render)
}
pub fn drive_it<I>(it: &mut I, limit: usize, extra: i64, render: bool) -> Vec<Value>
where
    I: Iterator<Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>>,
{
    let mut out = Vec::new();
    let pal = subtile_palette();
    loop {
        match guarded(|| it.next().map(|r| {
            let mut v = sub_ev(&r);
            if render {
                if let Ok((_, i)) = &r {
                    v["ren"] = guarded(|| {
                        let a = VobSubToImage::new(i, &pal, conv_to_rgba).to_image();
                        let l = palette_rgb_to_luminance(&pal);
                        let b = VobSubOcrImage::new(i, &l).image(&ToOcrImageOpt::default());
                        json!([a.width(), a.height(), b.width(), b.height()])
                    })
                    .unwrap_or_else(|| json!("panic"));
                    if v["ren"] == "panic" {
                        v = json!({"t": "panic", "d": "render"});
                    }
                }
            }
            v
        })) {
            None => {
                out.push(json!({"t": "panic"}));
                return out;
            }
            Some(Some(v)) => out.push(v),
            Some(None) => break,
        }
        if out.len() > limit {
            out.push(json!({"t": "runaway"}));
            return out;
        }
    }
    out.push(json!({"t": "end"}));
    for _ in 0..extra {
        out.push(match guarded(|| it.next().map(|r| sub_ev(&r))) {
            None => json!({"t": "panic"}),
            Some(Some(v)) => v,
            Some(None) => json!({"t": "end"}),
        });
    }
    out
}
fn subtile_palette() -> [Rgb<u8>; 16] {
    std::array::from_fn(|i| Rgb([i as u8 * 16, i as u8, 255 - i as u8]))
}

pub fn vob(c: &Value, scratch: &Path) -> Value {
    let data = crate::fam_pgs::repeated(c);
    let path = scratch.join("case.sub");
    std::fs::write(&path, &data).unwrap();
    let sub = Sub::open(&path).unwrap();
    crate::fam_pgs::one_period(c, drive(&sub, data.len() + 16, int(c, "extra", 0), int(c, "render", 0) > 0))
}

pub fn vobimg(c: &Value) -> Value {
    let a = |k: &str| int(c, k, 0) as u16;
    let area = Area::try_from(AreaValues { x1: a("x1"), y1: a("y1"), x2: a("x2"), y2: a("y2") }).unwrap();
    let four = |k: &str| -> [u8; 4] { bytes_of(&c[k]).try_into().unwrap() };
    // The bitmap is given as runs [value, count].
    let raw: Vec<u8> = c["raw"]
        .as_array()
        .unwrap()
        .iter()
        .flat_map(|r| vec![r[0].as_u64().unwrap() as u8; r[1].as_u64().unwrap() as usize])
        .collect();
    let img = VobSubIndexedImage::new(area, four("pal"), four("al"), raw);
    let pal: [Rgb<u8>; 16] = c["palette"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| Rgb(bytes_of(p).try_into().unwrap()))
        .collect::<Vec<_>>()
        .try_into()
        .unwrap();
    let get = |v: Option<Value>| v.unwrap_or_else(|| json!("panic"));
    let opt = crate::ocr_options(c);
    let lum = palette_rgb_to_luminance(&pal);
    let r = json!({
        "t": "ren",
        "opt": [opt.border, opt.text_color[0], opt.background_color[0]],
        "w": img.width(), "h": img.height(), "x": img.area().left(), "y": img.area().top(),
        "pal": img.palette(), "al": img.alpha(), "n": img.raw_image().len(),
        "rgba": get(guarded(|| {
            let i = VobSubToImage::new(&img, &pal, conv_to_rgba).to_image();
            json!([i.width(), i.height(), runs(i.pixels().map(|p| p.0.iter().map(|&x| x.into()).collect()))])
        })),
        "conv": get(guarded(|| {
            let f: fn(Rgb<u8>, u8) -> Rgba<u8> = |c, a| Rgba([a, c[2], c[0], 255 - c[1]]);
            let renderer = VobSubToImage::new(&img, &pal, f);
            let i = renderer.to_image();
            assert!(img.raw_image().len() > 200_000 || i == renderer.to_image());
            json!([i.width(), i.height(), runs(i.pixels().map(|p| p.0.iter().map(|&x| x.into()).collect()))])
        })),
        "luma": get(guarded(|| {
            let f: fn(Luma<u8>, u8) -> Luma<u8> = |c, a| if a > 0 { c } else { Luma([0]) };
            let i = VobSubToImage::new(&img, &lum, f).to_image();
            json!([i.width(), i.height(), runs(i.pixels().map(|p| vec![p[0].into()]))])
        })),
        "ocr": get(guarded(|| {
            let renderer = VobSubOcrImage::new(&img, &lum);
            let i = if img.raw_image().len() < 200_000 {
                // The renderer has been used before, with other options.
                let first = VobSubOcrImage::new(&img, &lum).image(&opt);
                renderer.image(&crate::other_options(&opt));
                let i = renderer.image(&opt);
                assert!(first == i);
                i
            } else {
                renderer.image(&opt)
            };
            json!([i.width(), i.height(), runs(i.pixels().map(|p| vec![p[0].into()]))])
        })),
        "lum": lum.iter().map(|l| l[0]).collect::<Vec<_>>()
    });
    if let Some((k, _)) = r.as_object().unwrap().iter().find(|(_, v)| **v == "panic") {
        return json!([{"t": "panic", "d": k}]);
    }
    json!([r])
}
