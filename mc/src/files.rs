//! Image files written by hand: features of the formats which the image crate's encoders do not use.
use crate::rm;
use image::ImageFormat;

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
fn chunk(name: &str, data: &[u8]) -> Vec<u8> {
    let body = [name.as_bytes(), data].concat();
    [(data.len() as u32).to_be_bytes().to_vec(), body.clone(), crc(&body).to_be_bytes().to_vec()].concat()
}
fn zlib(d: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 1];
    let n = d.chunks(65535).count();
    for (i, c) in d.chunks(65535).enumerate() {
        o.push((i + 1 == n) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    o.extend((b << 16 | a).to_be_bytes());
    o
}
/// PNG of packed samples; `get` gives a sample, extra chunks go between header and data
fn png(w: usize, h: usize, bits: usize, kind: u8, channels: usize, interlaced: bool, extra: &[Vec<u8>], get: &dyn Fn(usize, usize, usize) -> u16) -> Vec<u8> {
    let mut raw = vec![];
    let passes: &[(usize, usize, usize, usize)] = if interlaced { &[(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)] } else { &[(0, 0, 1, 1)] };
    for (x0, y0, dx, dy) in passes {
        for y in (*y0..h).step_by(*dy) {
            let mut row: Vec<bool> = vec![];
            for x in (*x0..w).step_by(*dx) {
                for c in 0..channels {
                    let v = get(c, y, x);
                    row.extend((0..bits).rev().map(|i| v >> i & 1 == 1));
                }
            }
            raw.push(0);
            raw.extend(row.chunks(8).map(|b| b.iter().enumerate().fold(0u8, |a, (i, v)| a | (*v as u8) << (7 - i))));
        }
    }
    let mut head = [(w as u32).to_be_bytes(), (h as u32).to_be_bytes()].concat();
    head.extend([bits as u8, kind, 0, 0, interlaced as u8]);
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    o.extend(chunk("IHDR", &head));
    for e in extra {
        o.extend(e);
    }
    o.extend(chunk("IDAT", &zlib(&raw)));
    o.extend(chunk("IEND", &[]));
    o
}
/// TIFF structure holding only an orientation
fn exif(orientation: u16) -> Vec<u8> {
    let mut e = b"II*\0\x08\0\0\0\x01\0".to_vec();
    e.extend([0x12, 1, 3, 0, 1, 0, 0, 0]);
    e.extend(orientation.to_le_bytes());
    e.extend([0, 0, 0, 0, 0, 0]);
    e
}
/// uncompressed TIFF with one strip
fn tiff(w: usize, h: usize, big: bool, white_is_zero: bool, orientation: u16, pages: usize, p: &[u8]) -> Vec<u8> {
    let n16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let n32 = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    let data = p.len();
    o.extend(n32(8 + data as u32));
    o.extend(p);
    for page in 0..pages {
        let mut tags: Vec<(u16, u16, u32)> = vec![(256, 4, w as u32), (257, 4, h as u32), (258, 3, 8), (259, 3, 1), (262, 3, !white_is_zero as u32), (273, 4, 8), (274, 3, orientation as u32), (277, 3, 1), (278, 4, h as u32), (279, 4, data as u32)];
        if page > 0 {
            // the other pages are shorter
            tags[1].2 = 8;
            tags[8].2 = 8;
            tags[9].2 = 8 * w as u32;
        }
        let next = if page + 1 < pages { (o.len() + 2 + tags.len() * 12 + 4) as u32 } else { 0 };
        o.extend(n16(tags.len() as u16));
        for (t, k, v) in tags {
            o.extend(n16(t));
            o.extend(n16(k));
            o.extend(n32(1));
            if k == 3 {
                o.extend(n16(v as u16));
                o.extend([0, 0]);
            } else {
                o.extend(n32(v));
            }
        }
        o.extend(n32(next));
    }
    o
}
fn bmp(w: usize, h: usize, top_down: bool, bits: u16, palette: &[[u8; 3]], get: &dyn Fn(usize, usize) -> Vec<u8>) -> Vec<u8> {
    let mut rows = vec![];
    for y in 0..h {
        let yy = if top_down { y } else { h - 1 - y };
        let mut row: Vec<u8> = (0..w).flat_map(|x| get(yy, x)).collect();
        while row.len() % 4 != 0 {
            row.push(0);
        }
        rows.extend(row);
    }
    let off = 54 + 4 * palette.len() as u32;
    let mut o = b"BM".to_vec();
    o.extend((off + rows.len() as u32).to_le_bytes());
    o.extend([0; 4]);
    o.extend(off.to_le_bytes());
    o.extend(40u32.to_le_bytes());
    o.extend((w as i32).to_le_bytes());
    o.extend((if top_down { -(h as i32) } else { h as i32 }).to_le_bytes());
    o.extend(1u16.to_le_bytes());
    o.extend(bits.to_le_bytes());
    o.extend([0; 4]);
    o.extend((rows.len() as u32).to_le_bytes());
    o.extend([0; 8]);
    o.extend((palette.len() as u32).to_le_bytes());
    o.extend([0; 4]);
    for p in palette {
        o.extend([p[0], p[1], p[2], 0]);
    }
    o.extend(rows);
    o
}
/// GIF with uncompressed-like codes (a clear code before the table grows), several frames
fn gif(w: usize, h: usize, frames: &[(usize, usize, usize, usize, Option<u8>)], looped: bool, get: &dyn Fn(usize, usize, usize) -> u8) -> Vec<u8> {
    let mut o = b"GIF89a".to_vec();
    o.extend((w as u16).to_le_bytes());
    o.extend((h as u16).to_le_bytes());
    o.extend([0xF7, 0, 0]);
    for i in 0..256usize {
        o.extend([i as u8, 255 - i as u8 / 2, (i * 7 % 256) as u8]);
    }
    if looped {
        o.extend(b"\x21\xFF\x0BNETSCAPE2.0\x03\x01\0\0\0");
    }
    for (n, (x0, y0, fw, fh, transparent)) in frames.iter().enumerate() {
        o.extend([0x21, 0xF9, 4, (1 << 2) | transparent.is_some() as u8, 10, 0, transparent.unwrap_or(0), 0, 0x2C]);
        for v in [*x0, *y0, *fw, *fh] {
            o.extend((v as u16).to_le_bytes());
        }
        o.extend([0, 8]);
        let mut bits: Vec<bool> = vec![];
        let mut code = |c: u16| bits.extend((0..9).map(|i| c >> i & 1 == 1));
        for (i, (y, x)) in (0..*fh).flat_map(|y| (0..*fw).map(move |x| (y, x))).enumerate() {
            if i % 200 == 0 {
                code(256);
            }
            code(get(n, y, x) as u16);
        }
        code(257);
        let data: Vec<u8> = bits.chunks(8).map(|b| b.iter().enumerate().fold(0u8, |a, (i, v)| a | (*v as u8) << i)).collect();
        for c in data.chunks(255) {
            o.push(c.len() as u8);
            o.extend(c);
        }
        o.push(0);
    }
    o.push(0x3B);
    o
}

pub struct Special {
    pub what: &'static str,
    pub format: ImageFormat,
    pub name: &'static str,
    pub bytes: Vec<u8>,
}
pub const NAMES: &[&str] = &[
    "jpeg-orientation-6", "jpeg-orientation-3", "jpeg-orientation-2", "jpeg-orientation-5", "jpeg-comment", "png-exif-6", "png-text", "png-gamma", "png-size", "png-interlaced", "png-interlaced-rgb",
    "png-1-bit", "png-2-bit", "png-4-bit", "png-palette", "png-palette-4", "png-palette-transparent", "png-grey-key", "png-rgb-key", "png-all-transparent", "png-alpha-opaque", "png-alpha-16", "png-two-data",
    "png-black", "png-white", "png-rgb-equal-planes", "tiff-big", "tiff-white-zero", "tiff-orientation-6", "tiff-pages", "bmp-top-down", "bmp-palette", "bmp-top-down-rgb", "gif-frames", "gif-transparent",
    "gif-part", "gif-looped",
];
pub fn extension(n: usize) -> &'static str {
    match NAMES[n].split('-').next().unwrap() {
        "jpeg" => "jpg",
        "png" => "png",
        "tiff" => "tiff",
        "bmp" => "bmp",
        _ => "gif",
    }
}
pub fn special(n: usize) -> Special {
    let what = NAMES[n];
    let (h, w) = if n % 2 == 0 { (176usize, 256usize) } else { (256, 176) };
    let grey = rm::image(9, h, w, 40, 215, 8);
    let more = [rm::image(6, h, w, 40, 215, 8), rm::image(4, h, w, 40, 215, 8), rm::image(7, h, w, 0, 255, 8)];
    let g = |_: usize, y: usize, x: usize| grey[[y, x]] as u16;
    let colour = |c: usize, y: usize, x: usize| if c == 0 { grey[[y, x]] as u16 } else { more[c - 1][[y, x]] as u16 };
    let one = |extra: Vec<u8>| png(w, h, 8, 0, 1, false, &[extra], &g);
    let jpeg = |segment: Vec<u8>| {
        let i = image::DynamicImage::ImageLuma8(image::ImageBuffer::from_fn(w as u32, h as u32, |x, y| image::Luma([grey[[y as usize, x as usize]]])));
        let mut o = std::io::Cursor::new(vec![]);
        i.write_to(&mut o, ImageFormat::Jpeg).unwrap();
        let o = o.into_inner();
        [&o[..2], &segment[..], &o[2..]].concat()
    };
    let app = |marker: u8, b: Vec<u8>| [vec![0xFF, marker], (b.len() as u16 + 2).to_be_bytes().to_vec(), b].concat();
    let orient = |o: u16| jpeg(app(0xE1, [b"Exif\0\0".to_vec(), exif(o)].concat()));
    let palette: Vec<u8> = (0..256usize).flat_map(|i| [i as u8, (i * 5 % 256) as u8, 255 - i as u8]).collect();
    let all: Vec<u8> = grey.iter().cloned().collect();
    let (format, name) = match extension(n) {
        "jpg" => (ImageFormat::Jpeg, "Jpeg"),
        "png" => (ImageFormat::Png, "Png"),
        "tiff" => (ImageFormat::Tiff, "Tiff"),
        "bmp" => (ImageFormat::Bmp, "Bmp"),
        _ => (ImageFormat::Gif, "Gif"),
    };
    let bytes = match what {
        "jpeg-orientation-6" => orient(6),
        "jpeg-orientation-3" => orient(3),
        "jpeg-orientation-2" => orient(2),
        "jpeg-orientation-5" => orient(5),
        "jpeg-comment" => jpeg([app(0xFE, b"made by hand".to_vec()), app(0xE1, b"http://ns.adobe.com/xap/1.0/\0<x/>".to_vec())].concat()),
        "png-exif-6" => one(chunk("eXIf", &exif(6))),
        "png-text" => one([chunk("tEXt", b"Comment\0watermarked"), chunk("iTXt", b"XML:com.adobe.xmp\0\0\0\0\0<x/>"), chunk("tIME", &[7, 230, 1, 1, 0, 0, 0])].concat()),
        "png-gamma" => one([chunk("gAMA", &45455u32.to_be_bytes()), chunk("cHRM", &[31270u32, 32900, 64000, 33000, 30000, 60000, 15000, 6000].iter().flat_map(|v| v.to_be_bytes()).collect::<Vec<u8>>())].concat()),
        "png-size" => one([chunk("pHYs", &[0, 0, 11, 19, 0, 0, 5, 19, 1]), chunk("bKGD", &[0, 255])].concat()),
        "png-interlaced" => png(w, h, 8, 0, 1, true, &[], &g),
        "png-interlaced-rgb" => png(w, h, 8, 2, 3, true, &[], &colour),
        "png-1-bit" => png(w, h, 1, 0, 1, false, &[], &|_, y, x| (grey[[y, x]] > 127) as u16),
        "png-2-bit" => png(w, h, 2, 0, 1, false, &[], &|_, y, x| grey[[y, x]] as u16 >> 6),
        "png-4-bit" => png(w, h, 4, 0, 1, false, &[], &|_, y, x| grey[[y, x]] as u16 >> 4),
        "png-palette" => png(w, h, 8, 3, 1, false, &[chunk("PLTE", &palette)], &g),
        "png-palette-4" => png(w, h, 4, 3, 1, false, &[chunk("PLTE", &palette[300..348])], &|_, y, x| grey[[y, x]] as u16 >> 4),
        "png-palette-transparent" => png(w, h, 8, 3, 1, false, &[chunk("PLTE", &palette), chunk("tRNS", &(0..200).collect::<Vec<u8>>())], &g),
        "png-grey-key" => png(w, h, 8, 0, 1, false, &[chunk("tRNS", &[0, 100])], &g),
        "png-rgb-key" => png(w, h, 8, 2, 3, false, &[chunk("tRNS", &[0, grey[[9, 9]], 0, more[0][[9, 9]] as u8, 0, more[1][[9, 9]] as u8])], &colour),
        "png-all-transparent" => png(w, h, 8, 6, 4, false, &[], &|c, y, x| if c == 3 { 0 } else { colour(c, y, x) }),
        "png-alpha-opaque" => png(w, h, 8, 6, 4, false, &[], &|c, y, x| if c == 3 { 255 } else { colour(c, y, x) }),
        "png-alpha-16" => png(w, h, 16, 4, 2, false, &[], &|c, y, x| colour(c, y, x) * 256 + 3),
        "png-two-data" => {
            // the data in many small chunks
            let o = png(w, h, 8, 0, 1, false, &[], &g);
            let n = u32::from_be_bytes(o[33..37].try_into().unwrap()) as usize;
            let mut p = o[..33].to_vec();
            for c in o[41..41 + n].chunks(1000) {
                p.extend(chunk("IDAT", c));
            }
            p.extend(chunk("IEND", &[]));
            p
        }
        "png-black" => png(w, h, 8, 2, 3, false, &[], &|_, _, _| 0),
        "png-white" => png(w, h, 8, 6, 4, false, &[], &|_, _, _| 255),
        "png-rgb-equal-planes" => png(w, h, 8, 2, 3, false, &[], &|_, y, x| grey[[y, x]] as u16),
        "tiff-big" => tiff(w, h, true, false, 1, 1, &all),
        "tiff-white-zero" => tiff(w, h, false, true, 1, 1, &all),
        "tiff-orientation-6" => tiff(w, h, false, false, 6, 1, &all),
        "tiff-pages" => tiff(w, h, false, false, 1, 3, &all),
        "bmp-top-down" => bmp(w, h, true, 8, &(0..256).map(|i| [i as u8; 3]).collect::<Vec<_>>(), &|y, x| vec![grey[[y, x]]]),
        "bmp-palette" => bmp(w, h, false, 8, &(0..256).map(|i| [i as u8, (i * 3) as u8, 255 - i as u8]).collect::<Vec<_>>(), &|y, x| vec![grey[[y, x]]]),
        "bmp-top-down-rgb" => bmp(w, h, true, 24, &[], &|y, x| vec![grey[[y, x]], more[0][[y, x]], more[1][[y, x]]]),
        "gif-frames" => gif(w, h, &[(0, 0, w, h, None), (0, 0, w, h, None), (8, 8, 16, 24, None)], false, &|n, y, x| if n == 0 { grey[[y, x]] } else { more[0][[y, x]] }),
        "gif-transparent" => gif(w, h, &[(0, 0, w, h, Some(100))], false, &|_, y, x| grey[[y, x]]),
        "gif-part" => gif(w, h, &[(8, 16, w - 24, h - 40, None)], false, &|_, y, x| grey[[y, x]]),
        "gif-looped" => gif(w, h, &[(0, 0, w, h, Some(7)), (0, 0, w, h, None)], true, &|n, y, x| more[n][[y, x]]),
        _ => unreachable!(),
    };
    Special { what, format, name, bytes }
}
