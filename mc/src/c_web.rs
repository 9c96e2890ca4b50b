//! C25: the web entry point, compiled natively against stand-ins for the browser's values.
use crate::engine::*;
use crate::rm;
use image::{DynamicImage, GenericImageView, ImageBuffer, ImageFormat};
use js_sys::Uint8Array;
use serde_json::json;
use std::io::Cursor;

// (format, name the entry point reports, kind, rows, columns, families)
const FILES: &[(ImageFormat, &str, &str, u32, u32, [usize; 3])] = &[
    (ImageFormat::Png, "Png", "L8", 216, 216, [9, 0, 0]),
    (ImageFormat::Png, "Png", "L8", 176, 256, [6, 0, 0]),
    (ImageFormat::Png, "Png", "L8", 256, 176, [9, 0, 0]),
    (ImageFormat::Png, "Png", "La8", 176, 256, [4, 0, 0]),
    (ImageFormat::Png, "Png", "L16", 216, 216, [9, 0, 0]),
    (ImageFormat::Png, "Png", "La16", 216, 216, [7, 0, 0]),
    (ImageFormat::Png, "Png", "Rgb8", 176, 256, [9, 6, 4]),
    (ImageFormat::Png, "Png", "Rgba8", 256, 176, [4, 9, 7]),
    (ImageFormat::Png, "Png", "Rgb16", 216, 216, [9, 6, 4]),
    (ImageFormat::Png, "Png", "Rgba16", 176, 256, [6, 4, 9]),
    (ImageFormat::Jpeg, "Jpeg", "L8", 176, 256, [9, 0, 0]),
    (ImageFormat::Jpeg, "Jpeg", "Rgb8", 216, 216, [9, 4, 6]),
    (ImageFormat::Gif, "Gif", "Rgba8", 176, 256, [9, 9, 9]),
    (ImageFormat::Gif, "Gif", "Rgba8", 216, 216, [4, 6, 9]),
    (ImageFormat::Bmp, "Bmp", "L8", 216, 216, [6, 0, 0]),
    (ImageFormat::Bmp, "Bmp", "Rgb8", 176, 256, [4, 9, 6]),
    (ImageFormat::Bmp, "Bmp", "Rgba8", 256, 176, [7, 4, 9]),
    (ImageFormat::Tiff, "Tiff", "L8", 176, 256, [9, 0, 0]),
    (ImageFormat::Tiff, "Tiff", "Rgb8", 256, 176, [6, 9, 4]),
    (ImageFormat::Tiff, "Tiff", "Rgba8", 216, 216, [9, 6, 7]),
    (ImageFormat::Tiff, "Tiff", "L16", 216, 216, [4, 0, 0]),
    (ImageFormat::Tiff, "Tiff", "Rgb16", 176, 256, [4, 6, 9]),
    // too small for eleven features: the library refuses, and so has the entry point
    (ImageFormat::Png, "Png", "L8", 16, 24, [9, 0, 0]),
    (ImageFormat::Bmp, "Bmp", "Rgb8", 24, 16, [9, 4, 6]),
];
const PARAMS: &[(f64, f64)] = &[(100.0, 1.0), (500.0, 1.0), (64.0, 7.0), (30.0, 200.0), (128.5, 0.25), (16.0, 16.0)];
fn picture(c: usize) -> DynamicImage {
    let (fmt, _, kind, h, w, f) = FILES[c];
    let p: Vec<_> = f.iter().map(|f| rm::image(*f, h as usize, w as usize, 40, 215, 8)).collect();
    let at = |i: usize, x: u32, y: u32| p[i][[y as usize, x as usize]];
    let deep = |i: usize, x: u32, y: u32| at(i, x, y) as u16 * 257 ^ (((x * 37 + y * 91) % 512) as u16);
    let al = |x: u32, y: u32| if fmt == ImageFormat::Gif { 255 } else { ((x * 3 + y * 5) % 256) as u8 };
    match kind {
        "L8" => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| image::Luma([at(0, x, y)]))),
        "La8" => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| image::LumaA([at(0, x, y), al(x, y)]))),
        "Rgb8" => DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| image::Rgb([at(0, x, y), at(1, x, y), at(2, x, y)]))),
        "Rgba8" => DynamicImage::ImageRgba8(ImageBuffer::from_fn(w, h, |x, y| image::Rgba([at(0, x, y), at(1, x, y), at(2, x, y), al(x, y)]))),
        "L16" => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| image::Luma([deep(0, x, y)]))),
        "La16" => DynamicImage::ImageLumaA16(ImageBuffer::from_fn(w, h, |x, y| image::LumaA([deep(0, x, y), al(x, y) as u16 * 251]))),
        "Rgb16" => DynamicImage::ImageRgb16(ImageBuffer::from_fn(w, h, |x, y| image::Rgb([deep(0, x, y), deep(1, x, y), deep(2, x, y)]))),
        _ => DynamicImage::ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| image::Rgba([deep(0, x, y), deep(1, x, y), deep(2, x, y), al(x, y) as u16 * 251]))),
    }
}
/// four bytes per pixel, pixel by pixel
fn rgba(i: &DynamicImage) -> Vec<u8> {
    let (w, h) = i.dimensions();
    let mut v = Vec::with_capacity((w * h * 4) as usize);
    for y in 0..h {
        for x in 0..w {
            v.extend(i.get_pixel(x, y).0);
        }
    }
    v
}
fn differ(a: &[u8], b: &[u8]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} bytes instead of {}", a.len(), b.len()));
    }
    a.iter().zip(b).position(|(a, b)| a != b).map(|p| format!("byte {} (component {} of pixel {}) is {} instead of {}", p, p % 4, p / 4, a[p], b[p]))
}
// [file, parameters, view]: view 0 the whole array, 1 a view into a larger buffer, 2 with bytes behind the file
fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for f in 0..FILES.len() as i64 {
        let heavy = FILES[f as usize].2.starts_with('R') && FILES[f as usize].3 > 24;
        for p in 0..PARAMS.len() as i64 {
            for view in 0..3 {
                // the quick tier takes every file with every parameter pair once for grey files, and
                // each file with a third of the pairs for colour files
                if t == Tier::Thorough || (view == (f + p) % 3 && (!heavy || (f + p) % 3 == 0)) {
                    v.push(vec![f, p, view]);
                }
            }
        }
    }
    // files with features no encoder here uses
    for n in 0..crate::files::NAMES.len() as i64 {
        v.push(vec![100 + n, n % 2, 0]);
    }
    v
}
fn show(k: &Case) -> String {
    if k[0] >= 100 {
        return format!("{} file, {:?}", crate::files::NAMES[k[0] as usize - 100], PARAMS[k[1] as usize]);
    }
    let f = FILES[k[0] as usize];
    let p = PARAMS[k[1] as usize];
    format!("{} file, {} {}x{} (families {:?}), depth {}, step {}, {}", f.1, f.2, f.4, f.3, f.5, p.0, p.1, ["given as an array", "given as a view into a larger buffer", "with bytes behind the file"][k[2] as usize])
}
fn run(k: &Case, x: &mut Ctx) -> R {
    let c = k[0] as usize;
    let (depth, step) = PARAMS[k[1] as usize];
    let (fmt, name, kind, mut file) = if c >= 100 {
        let s = crate::files::special(c - 100);
        (s.format, s.name, s.what, s.bytes)
    } else {
        let mut file = Cursor::new(vec![]);
        picture(c).write_to(&mut file, FILES[c].0).unwrap();
        (FILES[c].0, FILES[c].1, FILES[c].2, file.into_inner())
    };
    let tiff = fmt == ImageFormat::Tiff;
    let array = match k[2] {
        0 => Uint8Array::from(&file[..]),
        1 => {
            let b: Vec<u8> = [vec![0x89, b'P'], file.clone(), vec![7; 40]].concat();
            Uint8Array::from(&b[..]).subarray(2, 2 + file.len() as u32)
        }
        _ => {
            if !tiff {
                file.extend([0u8; 16]);
            }
            Uint8Array::from(&file[..])
        }
    };
    let decoded = image::load_from_memory_with_format(&file, fmt).unwrap();
    let want_source = rgba(&decoded);
    let (w, h) = decoded.dimensions();
    let lib = guard(|| watermarking::watermark(decoded.clone(), depth, step, 11));
    x.step(2);
    let web = guard(|| web::get_watermarking_process(array.clone(), depth, step));
    x.validated();
    x.state(&(k.clone(), hash(&file)));
    ensure!(array.to_vec() == file, "input-changed", "the array handed over is altered");
    let (lib, web) = match (lib, web) {
        (Err(_), Err(_)) => {
            x.outcome("refused by both");
            return Ok(());
        }
        (Err(m), Ok(_)) => return fail("not-refused", format!("the library refuses the image ({}), the entry point returns something", m)),
        (Ok(_), Err(m)) => return fail("refused", format!("the entry point fails ({}), the library watermarks the image", m)),
        (Ok(a), Ok(b)) => (a, b),
    };
    ensure!(web.get_source_format() == name, "format", "the format is reported as {:?} instead of {:?}", web.get_source_format(), name);
    for (what, m, want) in [("source", web.get_source(), &want_source), ("watermarked image", web.get_watermarked(), &rgba(&lib))] {
        ensure!((m.get_width(), m.get_height()) == (w, h), "size", "the {} has {}x{} pixels instead of {}x{}", what, m.get_width(), m.get_height(), w, h);
        let d = m.get_data().to_vec();
        if let Some(e) = differ(&d, want) {
            let also = if what == "source" && differ(&d, &rgba(&lib)).is_none() { " (it is the watermarked image)" } else { "" };
            return fail(if what == "source" { "source" } else { "watermarked" }, format!("the {} differs: {}{}", what, e, also));
        }
    }
    ensure!(rgba(&lib) != want_source, "unmarked", "the watermarked image is the source image");
    // the two images are no views of one another
    let (a, b) = (web.get_source().get_data(), web.get_watermarked().get_data());
    let kept = b.to_vec();
    a.fill(1, 0, 9);
    ensure!(b.to_vec() == kept, "shared", "source and watermarked image share their bytes");
    a.copy_from(&want_source);
    if c >= 100 {
        x.outcome(&format!("{} {}", name, kind));
        x.sample(|| show(k));
        return Ok(());
    }
    // every sequence of three setters, compared with a record of six fields
    let mut p = web;
    macro_rules! fields {
        () => {{
            let f = |(w, h, d): (u32, u32, Vec<u8>)| (w, h, d[..d.len().min(40)].to_vec());
            let (s, w) = (p.get_source(), p.get_watermarked());
            let r: Fields = (p.get_source_format(), f((s.get_width(), s.get_height(), s.get_data().to_vec())), f((w.get_width(), w.get_height(), w.get_data().to_vec())));
            r
        }};
    }
    let n = 8usize;
    let mut m = fields!();
    for s in 0..n * n * n {
        for o in [s % n, s / n % n, s / n / n] {
            match o {
                0 | 1 => p.set_source_format(["x", "Webp"][o].into()),
                6 => p.set_source(p.get_watermarked()),
                7 => p.set_watermarked(p.get_source()),
                _ => {
                    let (w, h, d) = model(o as u32);
                    let mut i = p.get_source();
                    i.set_height(h);
                    i.set_data(Uint8Array::from(&d[..]));
                    i.set_width(w);
                    if o < 4 { p.set_source(i) } else { p.set_watermarked(i) }
                }
            }
            match o {
                0 | 1 => m.0 = ["x", "Webp"][o].into(),
                2 | 3 => m.1 = model(o as u32),
                4 | 5 => m.2 = model(o as u32),
                6 => m.1 = m.2.clone(),
                _ => m.2 = m.1.clone(),
            }
            x.step(1);
            ensure!(fields!() == m, "accessors", "after setter {} of the sequence {:?} the fields are {:?} instead of {:?}", o, [s % n, s / n % n, s / n / n], fields!(), m);
        }
        x.state(&("accessors", s));
    }
    x.outcome(&format!("{} {}", name, kind));
    x.sample(|| show(k));
    Ok(())
}
type Fields = (String, (u32, u32, Vec<u8>), (u32, u32, Vec<u8>));
fn model(o: u32) -> (u32, u32, Vec<u8>) {
    (o + 10, o * 3 + 1, vec![o as u8; 5])
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C25",
        rule: "Every file of the table (format x pixel format x shape) with depth/step pairs and three ways of handing over the bytes, through the real entry point compiled natively; format, sizes and every byte of both images compared with the decoded file and the library's result; then all sequences of three of eight setters against a record of six fields.",
        cases,
        run,
        describe: show,
        bounds: |t| json!({"files": FILES.len(), "files_written_by_hand": crate::files::NAMES, "parameters": PARAMS, "combinations": if t == Tier::Thorough { "all" } else { "a third of those of colour files, one way of handing over each" }, "setter sequences": 512}),
        assumptions: &["the browser's values (arrays, typed arrays, numbers) are replaced by stand-ins with the same conversions; the generated JavaScript glue is not run"],
        timeout: 300,
        min_outcomes: 10,
    }]
}
