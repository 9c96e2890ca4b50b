//! C10, C19-C23: watermark records, watermarking and authentication of channels and images.
use crate::c_feat::bv;
use crate::engine::*;
use crate::rm;
use image::{DynamicImage, GenericImageView, GrayImage, ImageBuffer};
use ndarray::Array2;
use serde_json::json;
use watermarking::verif_hooks as wh;

const PRIVATE: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
const PUBLIC: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";
const OTHER: (&str, &str) = ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a");

// ---------------------------------------------------------------- C10
struct Rec {
    p: Vec<bool>,
    s: Vec<u8>,
    t: Vec<u8>,
}
fn rec_bytes(r: &Rec) -> Vec<u8> {
    let mut b = vec![r.p.len() as u8, r.s.len() as u8, r.t.len() as u8];
    b.extend(rm::from_bits(&r.p));
    b.extend(&r.s);
    b.extend(&r.t);
    b
}
fn rec_parse(b: &[u8]) -> Option<Rec> {
    if b.len() < 3 {
        return None;
    }
    let (p, s, t) = (b[0] as usize, b[1] as usize, b[2] as usize);
    let pe = 3 + (p + 7) / 8;
    let pb = b.get(3..pe)?;
    let sb = b.get(pe..pe + s)?;
    let tb = b.get(pe + s..pe + s + t)?;
    std::str::from_utf8(tb).ok()?;
    Some(Rec { p: rm::bits(pb)[..p].to_vec(), s: sb.to_vec(), t: tb.to_vec() })
}
fn parse(b: &[u8]) -> Result<Option<wh::Watermark>, Fail> {
    guard(|| wh::try_deserialize(&b.to_vec())).map_err(|m| Fail { key: "parse-crash".into(), msg: format!("reading {} bytes beginning {:?} fails: {}", b.len(), &b[..b.len().min(8)], m) })
}
fn parse_checked(b: &[u8], x: &mut Ctx) -> R {
    let got = parse(b)?;
    let want = rec_parse(b);
    x.step(1);
    x.validated();
    match (&got, &want) {
        (None, None) => {}
        (Some(_), None) => return fail("misread", format!("{} malformed bytes beginning {:?} are read as a record", b.len(), &b[..b.len().min(8)])),
        (None, Some(_)) => return fail("refused", format!("a well-formed record of {} bytes beginning {:?} is refused", b.len(), &b[..b.len().min(8)])),
        (Some(g), Some(w)) => {
            let gp: Vec<bool> = g.perturbation_vector.iter().map(|b| *b).collect();
            ensure!(gp == w.p, "perturbation", "header {:?}: perturbation bits are read as {:?} instead of {:?}", &b[..3], gp, w.p);
            ensure!(g.signature == w.s, "signature", "header {:?}: the signature is read as {:?} instead of {:?}", &b[..3], g.signature, w.s);
            ensure!(g.text.as_bytes() == &w.t[..], "text", "header {:?}: the text is read as {:?}", &b[..3], g.text);
        }
    }
    Ok(())
}
const PS: &[i64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 33, 63, 64, 65, 127, 128, 129, 240, 247, 248, 249, 252, 253, 254, 255];
const SS: &[i64] = &[0, 1, 7, 63, 64, 65, 127, 128, 129, 253, 254, 255];
const BIG: &[i64] = &[256, 257, 258, 300, 511, 512, 513, 767, 768, 1023, 1024, 4096, 65535, 65536, 65537, 65792];
const CHARS: &[char] = &['a', '\0', 'ß', 'Ж', '€', '漢', '\u{FFFF}', '😀', '\u{10FFFF}', '\u{301}'];
fn text_of(len: usize, p: usize) -> String {
    (0..len).map(|i| (b' ' + ((i * (p + 3) + p) % 95) as u8) as char).collect()
}
fn c10_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for &p in PS {
        for &s in SS {
            for &q in SS {
                for pat in 0..t.pick(2, 8) {
                    v.push(vec![0, p, s, q, pat]);
                }
            }
        }
    }
    for part in 0..3 {
        for &n in BIG {
            for other in [0, 1, 64, 255] {
                v.push(vec![1, part, n, other]);
            }
        }
    }
    for c in 0..CHARS.len() as i64 {
        for n in 0..=t.pick(130, 300) {
            v.push(vec![2, c, n]);
        }
    }
    for p in 0..256 {
        for s in 0..256 {
            v.push(vec![3, p, s]);
        }
    }
    for b in 0..256 {
        v.push(vec![4, b]);
    }
    for n in 0..=t.pick(10, 14) {
        v.push(vec![5, n]);
    }
    for form in 0..5 {
        for n in 0..=40 {
            v.push(vec![6, form, n]);
        }
    }
    v.push(vec![7]);
    for c in 0..0x110 {
        v.push(vec![8, c]);
    }
    for len in [64, 5] {
        for i in 0..len {
            v.push(vec![9, len, i]);
        }
        for kind in 0..rm::RUNS as i64 {
            v.push(vec![10, len, kind]);
        }
    }
    v
}
fn c10_show(k: &Case) -> String {
    match k[0] {
        0 => format!("record of {} perturbation bits, {} signature bytes, {} text bytes, pattern {}, with every truncation and several tails", k[1], k[2], k[3], k[4]),
        1 => format!("record whose part {} (0 bits, 1 signature, 2 text) has {} units, the others {}", k[1], k[2], k[3]),
        2 => format!("text of {} characters U+{:04X}", k[2], CHARS[k[1] as usize] as u32),
        3 => format!("all headers with {} bits and {} signature bytes", k[1], k[2]),
        4 => format!("texts of one, two and three bytes that begin with byte {}", k[1]),
        5 => format!("all strings of {} perturbation bits", k[1]),
        8 => format!("texts with each character from U+{:04X} on", k[1] * 4096),
        9 => format!("signatures of {} bytes with every value at place {}", k[1], k[2]),
        10 => format!("signatures and texts of {} units with runs at the ends, kind {}", k[1], k[2]),
        6 => format!("perturbation vector of {} bits in memory form {}", k[2], k[1]),
        _ => "all inputs of up to two bytes".into(),
    }
}
fn write_rec(r: &Rec) -> Result<Vec<u8>, String> {
    guard(|| wh::Watermark::new(bv(&r.p), r.s.clone(), String::from_utf8(r.t.clone()).unwrap()).serialize())
}
fn c10_round(r: &Rec, tails: bool, x: &mut Ctx) -> R {
    let what = || format!("{} bits, {} signature bytes, {} text bytes", r.p.len(), r.s.len(), r.t.len());
    let b = match write_rec(r) {
        Ok(b) => b,
        Err(m) => return fail("write-fails", format!("storing {} fails: {}", what(), m)),
    };
    ensure!(b == rec_bytes(r), "layout", "{} are stored as {:?} instead of {:?}", what(), b, rec_bytes(r));
    parse_checked(&b, x)?;
    x.state(&b);
    if tails {
        for tail in [vec![0u8], vec![255], vec![0; 7], rm::payload(0, 300), b.clone()] {
            let mut c = b.clone();
            c.extend(tail);
            parse_checked(&c, x)?;
        }
        for n in 0..b.len() {
            ensure!(parse(&b[..n])?.is_none(), "truncated", "{} truncated to {} of {} bytes are still read as a record", what(), n, b.len());
            x.step(1);
        }
    }
    Ok(())
}
fn c10_run(k: &Case, x: &mut Ctx) -> R {
    match k[0] {
        0 => {
            let pat = k[4] as usize;
            let p: Vec<bool> = (0..k[1] as usize).map(|i| match pat { 0 => rm::mix(3, i as u64, 1) & 1 == 1, 1 => true, 2 => false, 3 => i % 2 == 0, 4 => i % 3 == 0, _ => rm::mix(pat as u64, i as u64, k[1] as u64) & 1 == 1 }).collect();
            let r = Rec { p, s: rm::payload(pat, k[2] as usize), t: text_of(k[3] as usize, pat).into_bytes() };
            c10_round(&r, true, x)?;
            x.outcome(&format!("round trip, {} bits in the last byte", k[1] % 8));
        }
        1 => {
            let o = k[3] as usize;
            let n = k[2] as usize;
            let len = |i| if i == k[1] { n } else { o };
            let r = Rec { p: (0..len(0)).map(|i| i % 3 == 0).collect(), s: rm::payload(0, len(1)), t: text_of(len(2), 1).into_bytes() };
            let w = write_rec(&r);
            ensure!(w.is_err(), "stored-wrongly", "a record with {} units in part {} is stored instead of refused", n, k[1]);
            x.step(1);
            x.validated();
            x.state(&(k[1], n, o));
            x.outcome("too long: refused");
        }
        2 => {
            let c = CHARS[k[1] as usize];
            let t: String = std::iter::repeat(c).take(k[2] as usize).collect();
            for extra in 0..3usize {
                let mut u = text_of(extra, 0);
                u.push_str(&t);
                let r = Rec { p: vec![true, false, true], s: vec![7; 64], t: u.clone().into_bytes() };
                if u.len() <= 255 {
                    c10_round(&r, false, x)?;
                    x.outcome(&format!("text of {}-byte characters", c.len_utf8()));
                } else {
                    ensure!(write_rec(&r).is_err(), "stored-wrongly", "a text of {} bytes in {} characters is stored instead of refused", u.len(), u.chars().count());
                    x.outcome("text too long: refused");
                    x.step(1);
                }
            }
        }
        3 => {
            let (p, s) = (k[1] as usize, k[2] as usize);
            let ts: Vec<usize> = if x.tier == Tier::Quick && !(p < 18 || p > 240) { vec![0, 12, 255] } else { (0..256).collect() };
            let ts: Vec<usize> = if x.tier == Tier::Quick && !(s < 2 || s > 253 || s == 64) { ts.into_iter().filter(|t| [0, 1, 2, 3, 12, 127, 128, 254, 255].contains(t)).collect() } else { ts };
            for t in ts {
                let full = 3 + (p + 7) / 8 + s + t;
                for len in [3usize, full.saturating_sub(1), full, full + 1] {
                    let mut b: Vec<u8> = (0..len).map(|i| 33 + (i % 90) as u8).collect();
                    b.iter_mut().zip([p as u8, s as u8, t as u8]).for_each(|(b, h)| *b = h);
                    parse_checked(&b, x)?;
                }
            }
            x.state(&(3, p, s));
            x.outcome("headers");
        }
        4 => {
            let b0 = k[1] as u8;
            let head = |t: u8| vec![0u8, 0, t];
            let mut b = head(1);
            b.push(b0);
            parse_checked(&b, x)?;
            for b1 in 0..=255u8 {
                let mut b = head(2);
                b.extend([b0, b1]);
                parse_checked(&b, x)?;
                for b2 in [0u8, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xF5, 0xFF] {
                    let mut b = head(3);
                    b.extend([b0, b1, b2]);
                    parse_checked(&b, x)?;
                    for b3 in [0x41u8, 0x80, 0xBF, 0xC0] {
                        let mut b = head(4);
                        b.extend([b0, b1, b2, b3]);
                        parse_checked(&b, x)?;
                    }
                }
            }
            x.state(&(4, b0));
            x.outcome("text bytes");
        }
        5 => {
            for n in 0..(1u64 << k[1]) {
                let p: Vec<bool> = (0..k[1]).map(|i| n >> i & 1 == 1).collect();
                c10_round(&Rec { p, s: vec![1, 2], t: vec![] }, false, x)?;
            }
            x.outcome("all bit strings");
        }
        6 => {
            let n = k[2] as usize;
            let want: Vec<bool> = (0..n).map(|i| rm::mix(9, i as u64, n as u64) & 1 == 1).collect();
            let mut form = match k[1] {
                0 => bv(&want),
                1 => {
                    // longer one, cut: bits beyond the end stay set in memory
                    let mut l = want.clone();
                    l.extend([true; 19]);
                    let mut f = bv(&l);
                    f.truncate(n);
                    f
                }
                2 => {
                    let mut l = vec![true; 5];
                    l.extend(&want);
                    let mut f = bv(&l);
                    f.drain(..5);
                    f
                }
                3 => {
                    let mut l = vec![true; 3];
                    l.extend(&want);
                    let mut f = bv(&l);
                    f.split_off(3)
                }
                _ => {
                    let mut f = bv(&want);
                    f.reserve(1000);
                    f
                }
            };
            if k[1] == 4 {
                form.push(true);
                form.pop();
            }
            let b = guard(|| wh::Watermark::new(form, vec![9; 3], "x".into()).serialize()).map_err(|m| Fail { key: "write-fails".into(), msg: m })?;
            let r = Rec { p: want.clone(), s: vec![9; 3], t: vec![b'x'] };
            let g = parse(&b)?;
            ensure!(g.is_some(), "refused", "the record is refused after being stored");
            let g = g.unwrap();
            let gp: Vec<bool> = g.perturbation_vector.iter().map(|b| *b).collect();
            ensure!(gp == r.p && g.signature == r.s && g.text == "x", "form", "{} bits in memory form {} come back as {:?} instead of {:?}", n, k[1], gp, want);
            x.step(2);
            x.validated();
            x.state(&(k[1], n));
            x.outcome("memory forms");
        }
        8 => {
            for c in (k[1] as u32 * 4096..(k[1] as u32 + 1) * 4096).filter_map(char::from_u32) {
                for t in [format!("{}", c), format!("a{}", c), format!("{}b", c), format!(" {}{} ", c, c)] {
                    c10_round(&Rec { p: vec![true; 3], s: vec![7; 4], t: t.into_bytes() }, false, x)?;
                }
            }
            x.outcome("every character");
        }
        9 => {
            for base in 0..3 {
                for v in 0..256 {
                    let c = rm::content(10_000 + base * 65536 + k[2] as usize * 256 + v, k[1] as usize);
                    c10_round(&Rec { p: vec![false; 7], s: c, t: b"text".to_vec() }, false, x)?;
                }
            }
            x.outcome("signature values");
        }
        10 => {
            for n in 1..=k[1] as usize {
                let c = rm::content(3_000_000 + k[2] as usize * 10_000 + n, k[1] as usize);
                c10_round(&Rec { p: c.iter().map(|b| b & 1 == 1).collect(), s: c.clone(), t: vec![] }, true, x)?;
                let t: Vec<u8> = c.iter().map(|b| if *b == 255 { b'~' } else { b & 127 }).collect();
                c10_round(&Rec { p: vec![true; k[1] as usize], s: vec![3; 64], t }, true, x)?;
            }
            x.outcome("runs");
        }
        _ => {
            parse_checked(&[], x)?;
            for a in 0..=255u8 {
                parse_checked(&[a], x)?;
                for b in 0..=255u8 {
                    parse_checked(&[a, b], x)?;
                }
            }
            x.state(&7);
            x.outcome("short inputs");
        }
    }
    x.sample(|| c10_show(k));
    Ok(())
}

// ---------------------------------------------------------------- channels
fn gray(a: &Array2<u8>) -> GrayImage {
    GrayImage::from_raw(a.dim().1 as u32, a.dim().0 as u32, a.iter().cloned().collect()).unwrap()
}
fn arr(g: &GrayImage) -> Array2<u8> {
    Array2::from_shape_vec([g.height() as usize, g.width() as usize], g.as_raw().clone()).unwrap()
}
fn watermark_channel(a: &Array2<u8>, d: f64, step: f64, nf: usize, levels: usize) -> Result<Array2<u8>, Fail> {
    let g = gray(a);
    let o = guard(|| wh::watermark_channel(&g, d, step, nf, levels)).map_err(|m| Fail { key: "watermark-fails".into(), msg: format!("watermarking a channel of {}x{} fails: {}", a.dim().0, a.dim().1, m) })?;
    ensure!(o.dimensions() == g.dimensions(), "size", "a channel of {:?} becomes {:?}", g.dimensions(), o.dimensions());
    Ok(arr(&o))
}
fn authentic(a: &Array2<u8>, d: f64, step: f64, nf: usize, levels: usize) -> Result<bool, Fail> {
    let g = gray(a);
    guard(|| wh::authenticate_channel(&g, d, step, nf, levels))
        .map_err(|m| Fail { key: "authenticate-fails".into(), msg: format!("authenticating a channel of {}x{} (depth {}, step {}, {} features, {} levels) fails: {}", a.dim().0, a.dim().1, d, step, nf, levels, m) })
}
/// independent features of the equalized channel
fn features(a: &Array2<u8>, nf: usize) -> Vec<f64> {
    rm::features(&arr(&imageproc::contrast::equalize_histogram(&gray(a))), nf)
}
fn moved(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max)
}
/// bytes of a watermark record for nf features
fn record_len(nf: usize) -> usize {
    3 + (3 * nf + 7) / 8 + 64 + 12
}
fn base_image(family: usize, h: usize, w: usize, d: f64, levels: usize, spare: f64) -> Option<Array2<u8>> {
    let m = (rm::headroom(d, levels) + spare).ceil();
    if m * 2.0 + 8.0 > 255.0 {
        return None;
    }
    Some(rm::image(family, h, w, m as u8, 255 - m as u8, 1 << levels))
}
// sizes of the lowest-frequency domain: exact fits, next sizes, each error-correcting code that has room
const LL: &[(usize, usize)] = &[(21, 32), (28, 24), (32, 21), (12, 56), (26, 27), (22, 32), (27, 27), (40, 40), (45, 45), (64, 32), (64, 64), (96, 96)];
const STEPS: &[f64] = &[0.05, 0.25, 0.5, 1.0, 2.5, 7.0, 30.0, 200.0];
fn depths(levels: usize) -> &'static [f64] {
    match levels {
        1 => &[6.0, 10.0, 20.0, 30.0, 100.0],
        2 => &[10.0, 20.0, 30.0, 100.0, 170.0],
        _ => &[20.0, 30.0, 100.0, 200.0, 350.0],
    }
}

// ---------------------------------------------------------------- C19
// [levels, ll, family, depth, nf]; the steps and the bounded distortions are walked inside
fn c19_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for levels in 1..=3i64 {
        for (i, (r, c)) in LL.iter().enumerate() {
            let px = (r * c) << (2 * levels);
            for f in 0..rm::FAMILIES as i64 {
                for (j, _) in depths(levels as usize).iter().enumerate() {
                    for nf in 1..=11i64 {
                        if !rm::fits(record_len(nf as usize), rm::cap(*r, *c)) {
                            continue;
                        }
                        let w = px as i64 * nf * nf;
                        let lim = t.pick(20_000, 2_500_000);
                        // larger work only for a diagonal of families and depths
                        if w > lim && !(f == (j as i64 * 2 + nf) % 10 && w < t.pick(500_000, 6_000_000)) {
                            continue;
                        }
                        v.push(vec![levels, i as i64, f, j as i64, nf]);
                    }
                }
            }
        }
    }
    v
}
fn c19_show(k: &Case) -> String {
    let (r, c) = LL[k[1] as usize];
    format!("channel of {}x{} (rows x columns, family {}), {} levels, depth {}, {} features, all steps", r << k[0], c << k[0], k[2], k[0], depths(k[0] as usize)[k[3] as usize], k[4])
}
fn distort(a: &Array2<u8>, which: usize, levels: usize, amount: f64) -> Option<Array2<u8>> {
    // per pixel change e with |e| * 2^levels < amount
    let e = ((amount / (1u64 << levels) as f64).ceil() as i64 - 1).max(0);
    if e == 0 {
        return None;
    }
    let b = 1usize << levels;
    let w = a.dim().1;
    Some(Array2::from_shape_fn(a.dim(), |(y, x)| {
        let s = match which {
            0 => e,
            1 => -e,
            2 => if (y / b + x / b) % 2 == 0 { e } else { -e },
            _ => if x * 2 < w { e } else { 0 },
        };
        (a[[y, x]] as i64 + s).clamp(0, 255) as u8
    }))
}
fn c19_run(k: &Case, x: &mut Ctx) -> R {
    let levels = k[0] as usize;
    let (r, c) = LL[k[1] as usize];
    let d = depths(levels)[k[3] as usize];
    let nf = k[4] as usize;
    // headroom for the embedding and for the distortion afterwards
    let spare = d / 4.0 / (1u64 << levels) as f64;
    let img = match base_image(k[2] as usize, r << levels, c << levels, d, levels, spare) {
        Some(i) => i,
        None => {
            x.outcome("no headroom");
            return Ok(());
        }
    };
    let f0 = features(&img, nf);
    for &step in STEPS {
        let w = watermark_channel(&img, d, step, nf, levels)?;
        x.step(2);
        x.state(&(w.as_slice().unwrap(), step.to_bits(), nf));
        x.validated();
        let f1 = features(&w, nf);
        let m = moved(&f0, &f1);
        if m < step * 0.999 {
            ensure!(authentic(&w, d, step, nf, levels)?, "rejected", "the unmodified watermarked channel is rejected (step {}, features moved by at most {:.4})", step, m);
            x.outcome(&format!("accepted, step {}", step));
            if x.tier == Tier::Thorough || (step >= 2.5 && (k[2] + k[4]) % 3 == 0) {
                for which in 0..4 {
                    if let Some(t) = distort(&w, which, levels, d / 4.0 - (1u64 << levels) as f64 / 2.0) {
                        let f2 = features(&t, nf);
                        if moved(&f0, &f2) < step * 0.999 {
                            ensure!(authentic(&t, d, step, nf, levels)?, "copy-rejected", "a copy distorted in pattern {} by less than a quarter of the depth is rejected (step {}, features moved by {:.4})", which, step, moved(&f0, &f2));
                            x.outcome(&format!("distorted copy {} accepted", which));
                            x.step(1);
                            x.validated();
                        }
                    }
                }
            }
        } else {
            x.count("features moved by a step or more: no claim", 1);
        }
    }
    x.sample(|| format!("{}: features {:?}", c19_show(k), f0));
    Ok(())
}

// ---------------------------------------------------------------- C20
// [levels, ll, family, depth, nf, group]
const C20LL: &[(usize, usize)] = &[(21, 32), (12, 56), (26, 27), (40, 40), (64, 32), (22, 32)];
fn c20_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for levels in 1..=t.pick(2, 3i64) {
        for (i, (r, c)) in C20LL.iter().enumerate() {
            for f in 0..rm::FAMILIES as i64 {
                for (j, _) in depths(levels as usize).iter().enumerate() {
                    for nf in [1, 2, 3, 4, 5, 7, 11] {
                        if !rm::fits(record_len(nf as usize), rm::cap(*r, *c)) {
                            continue;
                        }
                        for g in 0..4 {
                            // the whole alphabet for small work, diagonals for the rest
                            let px = ((r * c) as i64) << (2 * levels);
                            if nf > 4 && px > t.pick(2_900, 12_000) || i == 5 && nf != 11 {
                                continue;
                            }
                            if nf > 4 {
                                if (f + j as i64 * 2 + nf + i as i64) % t.pick(16, 8) != t.pick(4, 2) * g {
                                    continue;
                                }
                            } else if px * nf > t.pick(3_000, 40_000) && (f + j as i64 * 3 + nf + i as i64) % t.pick(24, 4) != g {
                                continue;
                            }
                            v.push(vec![levels, i as i64, f, j as i64, nf, g]);
                        }
                    }
                }
            }
        }
    }
    v
}
fn c20_show(k: &Case) -> String {
    let (r, c) = C20LL[k[1] as usize];
    let g = ["content changes which keep the embedded bits", "arbitrary content changes", "watermarks of other images", "forged records"][k[5] as usize];
    format!("channel of {}x{} (rows x columns, family {}), {} levels, depth {}, {} features: {}", r << k[0], c << k[0], k[2], k[0], depths(k[0] as usize)[k[3] as usize], k[4], g)
}
/// content changes; those below KEEP shift whole blocks by multiples of the depth, so every bit stays readable
const KEEP: usize = 10;
const TAMPERS: usize = 22;
fn tamper(a: &Array2<u8>, which: usize, levels: usize, d: f64) -> Option<Array2<u8>> {
    let b = 1usize << levels;
    let (h, w) = a.dim();
    let unit = d / b as f64;
    if which < KEEP && (unit.fract() != 0.0 || unit > 120.0) {
        return None;
    }
    let unit = unit as i64;
    let o = Array2::from_shape_fn([h, w], |(y, x)| {
        let p = a[[y, x]] as i64;
        let (by, bx) = (y / b, x / b);
        let shift = |m: i64| p + m * unit;
        let q = match which {
            0 => shift(if x < w / 2 { 1 } else { 0 }),
            1 => shift(if y < h / 2 { -1 } else { 0 }),
            2 => shift(if (by + bx) % 2 == 0 { 1 } else { -1 }),
            3 => shift((bx * 4 / (w / b)) as i64 - 2),
            4 => shift((by * 4 / (h / b)) as i64 - 2),
            5 => shift(if by > 3 && by < 9 && bx > 3 && bx < 9 { 2 } else { 0 }),
            6 => shift(((rm::mix(5, by as u64, bx as u64) % 3) as i64) - 1),
            7 => shift(if p < 128 { -(p / unit) } else { (255 - p) / unit }),
            8 => shift(-(p / unit)),
            9 => shift(if x < w / 4 { (255 - p) / unit } else { 0 }),
            10 => 255 - p,
            11 => a[[h - 1 - y, x]] as i64,
            12 => a[[y, w - 1 - x]] as i64,
            13 => 128,
            14 => 0,
            15 => 255,
            16 => if y < h / 2 && x < w / 2 { 255 } else { p },
            17 => if y < h / 4 && x < w / 4 { 0 } else { p },
            18 => if (y, x) == (h / 2, w / 2) { 255 - p } else { p },
            19 => a[[(y + h / 2) % h, x]] as i64,
            20 => if (rm::mix(8, y as u64, x as u64) % 4) == 0 { 255 - p } else { p },
            _ => p / 2 + if x * 2 > w { 100 } else { 0 },
        };
        q.clamp(-1, 256) as i16
    });
    if which < KEEP && o.iter().any(|p| *p < 0 || *p > 255) {
        // a saturating shift would not keep the bits: shift only where there is room
        let ok = Array2::from_shape_fn([h / b, w / b], |(r, c)| (0..b * b).all(|i| { let p = o[[r * b + i / b, c * b + i % b]]; (0..=255).contains(&p) }));
        return Some(Array2::from_shape_fn([h, w], |(y, x)| if ok[[y / b, x / b]] { o[[y, x]] as u8 } else { a[[y, x]] }));
    }
    Some(o.mapv(|p| p.clamp(0, 255) as u8))
}
fn embed(a: &Array2<u8>, bytes: &[u8], d: f64, levels: usize) -> Result<Array2<u8>, Fail> {
    guard(|| embedding::embed(a.clone(), bytes.to_vec(), d, levels)).map_err(|m| Fail { key: "embed-fails".into(), msg: format!("embedding {} bytes into {:?} fails: {}", bytes.len(), a.dim(), m) })
}
/// every order of up to four values; every exchange of two, every rotation and both sorted orders of more
fn orders(q: &[i64]) -> Vec<Vec<i64>> {
    let n = q.len();
    let mut all = vec![];
    if n <= 4 {
        fn go(rest: &mut Vec<i64>, at: usize, out: &mut Vec<Vec<i64>>) {
            if at == rest.len() {
                out.push(rest.clone());
            }
            for i in at..rest.len() {
                rest.swap(at, i);
                go(rest, at + 1, out);
                rest.swap(at, i);
            }
        }
        go(&mut q.to_vec(), 0, &mut all);
    } else {
        for i in 0..n {
            for j in 0..i {
                let mut v = q.to_vec();
                v.swap(i, j);
                all.push(v);
            }
            let mut v = q.to_vec();
            v.rotate_left(i);
            all.push(v);
        }
        let mut v = q.to_vec();
        v.sort();
        all.push(v.clone());
        v.reverse();
        all.push(v);
        all.push(q.iter().rev().cloned().collect());
    }
    all
}
fn c20_run(k: &Case, x: &mut Ctx) -> R {
    let levels = k[0] as usize;
    let (r, c) = C20LL[k[1] as usize];
    let (h, w) = (r << levels, c << levels);
    let d = depths(levels)[k[3] as usize];
    let nf = k[4] as usize;
    let img = match base_image(k[2] as usize, h, w, d, levels, 0.0) {
        Some(i) => i,
        None => {
            x.outcome("no headroom");
            return Ok(());
        }
    };
    let f0 = features(&img, nf);
    let quant = |f: &[f64], step: f64| -> Vec<i64> { f.iter().map(|v| (v / step).floor() as i64).collect() };
    let sign = |q: &[i64], key: (&str, &str)| signature::sign(&q.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>(), key.0, key.1);
    let steps: &[f64] = if k[5] == 3 { &[0.25, 2.5, 30.0] } else { &[0.05, 0.25, 1.0, 2.5] };
    for &step in steps {
        let wm = watermark_channel(&img, d, step, nf, levels)?;
        x.step(1);
        // no image that moved by more than two steps is authentic, not even right after watermarking
        let mut judge = |t: &Array2<u8>, must: bool, what: &str, x: &mut Ctx| -> R {
            let m = if must { f64::INFINITY } else { moved(&f0, &features(t, nf)) };
            x.state(&(t.as_slice().unwrap(), step.to_bits(), nf));
            x.step(1);
            x.validated();
            let yes = authentic(t, d, step, nf, levels)?;
            if must || m > step * 2.001 {
                ensure!(!yes, "accepted", "{} is accepted as authentic (step {}, features moved by {:.4})", what, step, if must { moved(&f0, &features(t, nf)) } else { m });
                x.outcome(&format!("{}: rejected", what));
            } else {
                x.outcome(&format!("moved less than two steps, {}", if yes { "accepted" } else { "rejected" }));
            }
            Ok(())
        };
        match k[5] {
            0 | 1 => {
                judge(&wm, false, "the watermarked channel itself", x)?;
                for t in if k[5] == 0 { 0..KEEP } else { KEEP..TAMPERS } {
                    if let Some(a) = tamper(&wm, t, levels, d) {
                        judge(&a, false, &format!("content change {}", t), x)?;
                        if t < KEEP {
                            let mut keep = 0;
                            for (c0, c1) in rm::coefficients(&wm, levels).iter().zip(rm::coefficients(&a, levels).iter()) {
                                keep += (rm::bit_of(*c0, d).0 == rm::bit_of(*c1, d).0) as u64;
                            }
                            x.count("blocks whose bit stayed readable under a content change", keep);
                        }
                    }
                }
            }
            2 => {
                let bytes = rm::unstored(&rm::read_bytes(&wm, d, levels), rm::cap(r, c));
                ensure!(bytes.is_some(), "unreadable", "the watermark in an untouched channel is not readable");
                let bytes = bytes.unwrap();
                for f2 in 0..rm::FAMILIES {
                    if f2 == k[2] as usize {
                        continue;
                    }
                    let other = base_image(f2, h, w, d, levels, 0.0).unwrap();
                    judge(&embed(&other, &bytes, d, levels)?, false, &format!("family {} with the watermark of another image", f2), x)?;
                    judge(&other, true, "an unmarked image", x)?;
                }
            }
            _ => {
                // positive control: the genuine record, written by the harness
                let q = quant(&f0, step);
                let near = f0.iter().any(|v| { let z = v / step; (z - z.round()).abs() < 1e-6 || ((z - 0.5) - (z - 0.5).round()).abs() < 1e-6 });
                if near {
                    x.count("feature on a cell border: forged records not built", 1);
                    continue;
                }
                let p: Vec<bool> = f0.iter().zip(&q).flat_map(|(f, q)| { let m = (q - 1).rem_euclid(4); [m >> 1 & 1 == 1, m & 1 == 1, *f >= step * (*q as f64 + 0.5)] }).collect();
                let text = b"Hello world!".to_vec();
                let own = (PRIVATE, PUBLIC);
                let put = |r: Rec| embed(&img, &rec_bytes(&r), d, levels);
                let good = put(Rec { p: p.clone(), s: sign(&q, own), t: text.clone() })?;
                if moved(&f0, &features(&good, nf)) < step * 0.999 {
                    let yes = authentic(&good, d, step, nf, levels)?;
                    x.outcome(&format!("control: genuine record {}", if yes { "accepted" } else { "rejected" }));
                }
                // signatures: each bit flipped (a quarter in the quick tier), lengths, foreign key, other values
                let s = sign(&q, own);
                for b in (0..512).step_by(x.tier.pick(17, 1)) {
                    let mut t = s.clone();
                    t[b / 8] ^= 1 << (b % 8);
                    judge(&put(Rec { p: p.clone(), s: t, t: text.clone() })?, true, "a record with one signature bit flipped", x)?;
                }
                for t in [vec![], vec![0; 64], vec![255; 64], s[..63].to_vec(), s[..32].to_vec(), sign(&q, OTHER), sign(&[], own), s.iter().rev().cloned().collect()] {
                    judge(&put(Rec { p: p.clone(), s: t, t: text.clone() })?, true, "a record with a wrong signature", x)?;
                }
                let mut others = vec![];
                for i in 0..nf {
                    for e in x.tier.pick(vec![1i64, 4, 1 << 8, 1 << 32], vec![1, 2, 3, 4, 8, 1 << 8, 1 << 16, 1 << 32, 1 << 48]) {
                        for e in [e, -e] {
                            let mut q2 = q.clone();
                            q2[i] += e;
                            others.push(q2);
                        }
                    }
                    for v in [-q[i], !q[i]] {
                        let mut q2 = q.clone();
                        q2[i] = v;
                        others.push(q2);
                    }
                }
                others.extend(orders(&q));
                others.push(q.iter().map(|v| -v).collect());
                others.push(q.iter().map(|v| v + 4).collect());
                others.push(q.iter().map(|v| v.abs()).collect());
                others.push(q.iter().map(|v| v.rem_euclid(4)).collect());
                others.push(vec![q.iter().sum(); nf]);
                others.push((0..nf).map(|i| q[i] - if i > 0 { q[i - 1] } else { 0 }).collect());
                for q2 in others.iter().filter(|q2| **q2 != q) {
                    // as long as embedding moves no feature by a step, q is what the verifier restores
                    let forged = put(Rec { p: p.clone(), s: sign(q2, own), t: text.clone() })?;
                    if moved(&f0, &features(&forged, nf)) < step * 0.999 {
                        judge(&forged, true, "a record whose signature is for other features", x)?;
                    } else {
                        x.count("embedding itself moved the features by a step: no verdict", 1);
                    }
                }
                // signatures over less than, or another form of, the quantized features
                let whole: Vec<u8> = q.iter().flat_map(|v| v.to_le_bytes()).collect();
                let mut forms: Vec<Vec<u8>> = (0..nf).flat_map(|n| [whole[..8 * n].to_vec(), whole[8 * (nf - n)..].to_vec()]).collect();
                forms.extend([1, 2, 4].map(|n| q.iter().flat_map(|v| v.to_le_bytes()[..n].to_vec()).collect::<Vec<u8>>()));
                forms.push(q.iter().flat_map(|v| v.to_be_bytes()).collect());
                forms.push(f0.iter().flat_map(|v| v.to_le_bytes()).collect());
                forms.push(format!("{:?}", q).into_bytes());
                forms.push([&whole[..], &text[..]].concat());
                forms.push([&whole[..], &whole[..]].concat());
                forms.push(whole[..whole.len() - 1].to_vec());
                forms.push([&whole[..], &[0][..]].concat());
                for form in forms.iter().filter(|f| **f != whole) {
                    let forged = put(Rec { p: p.clone(), s: signature::sign(form, own.0, own.1), t: text.clone() })?;
                    judge(&forged, true, "a record whose signature is over another form of the features", x)?;
                }
                // genuinely signed records about fewer or more features
                for n in (0..nf).chain([nf + 1]) {
                    let mut q2 = q.clone();
                    q2.resize(n, 0);
                    let mut p2 = p.clone();
                    p2.resize(3 * n, false);
                    let len = rec_bytes(&Rec { p: p2.clone(), s: s.clone(), t: text.clone() }).len();
                    if rm::fits(len, rm::cap(r, c)) {
                        judge(&put(Rec { p: p2, s: sign(&q2, own), t: text.clone() })?, true, "a signed record about another number of features", x)?;
                    }
                }
                for n in [3 * nf - 1, 3 * nf - 2, 3 * nf + 1, 3 * nf + 2] {
                    let mut p2 = p.clone();
                    p2.resize(n, false);
                    judge(&put(Rec { p: p2, s: s.clone(), t: text.clone() })?, true, "a record with a wrong number of perturbation bits", x)?;
                }
            }
        }
    }
    x.sample(|| c20_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C21
fn c21_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let m = t.pick(36, 64);
    for levels in 1..=3i64 {
        for h in 0..=m {
            for w in 0..=m {
                v.push(vec![0, levels, h, w]);
            }
        }
    }
    for h in [1i64, 2, 7, 8, 9, 64, 100, 161, 168, 176, 200, 207, 208, 209, 216, 256] {
        for w in [1i64, 3, 8, 64, 67, 168, 176, 207, 208, 209, 210, 216, 256, 257, 300] {
            v.push(vec![1, h, w]);
        }
    }
    // payload shapes x size
    for p in 0..PAYLOADS {
        for s in 0..C21S.len() as i64 {
            for nf in 1..=3 {
                v.push(vec![2, p, s, nf]);
            }
        }
    }
    for g in 0..GARBAGE {
        for s in 0..C21S.len() as i64 {
            v.push(vec![3, g, s]);
        }
    }
    for d in 0..C21D.len() as i64 {
        for s in 0..C21S.len() as i64 {
            for f in 0..rm::FAMILIES as i64 {
                v.push(vec![4, d, s, f]);
            }
        }
    }
    for nf in (1..=t.pick(16, 30i64)).chain(t.pick(vec![20, 24], vec![34, 40])) {
        for f in 0..3 {
            v.push(vec![5, nf, f]);
        }
    }
    for f in 0..rm::FAMILIES as i64 {
        for bit in 0..t.pick(84, 672) {
            v.push(vec![6, f, bit]);
        }
    }
    v
}
const C21S: &[(usize, usize, usize)] = &[(1, 42, 64), (1, 64, 42), (1, 16, 16), (1, 18, 16), (1, 32, 16), (1, 64, 64), (2, 84, 128), (3, 168, 256), (1, 128, 64), (1, 192, 192)];
const C21D: &[f64] = &[0.0, -0.0, -30.0, 1e-300, 1e-9, 0.1, 0.5, 1.0, 3.0, 7.5, 30.0, 100.0, 255.0, 1e5, 1e18, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
const PAYLOADS: i64 = 60;
const GARBAGE: i64 = 48;
fn c21_payload(p: i64, nf: usize, max: usize) -> Vec<u8> {
    let n = (3 * nf) as u8;
    let good = {
        let q: Vec<u8> = vec![0; 8 * nf];
        rec_bytes(&Rec { p: vec![false; 3 * nf], s: signature::sign(&q, OTHER.0, OTHER.1), t: b"Hello world!".to_vec() })
    };
    let mut b = match p {
        0..=15 => good[..good.len() * p as usize / 16].to_vec(),
        16 => vec![],
        17 => vec![0],
        18 => vec![0, 0],
        19 => vec![0, 0, 0],
        20 => vec![n, 0, 0],
        21 => vec![n, 64, 0],
        22 => vec![255, 255, 255],
        23 => vec![0, 255, 0],
        24 => vec![0, 0, 255],
        25 => good.clone(),
        26 => [good.clone(), vec![1, 2, 3]].concat(),
        27..=42 => {
            // well-formed records whose signature has another length
            let len = [0usize, 1, 2, 31, 32, 33, 47, 48, 60, 61, 62, 63, 65, 66, 40, 16][p as usize - 27];
            rec_bytes(&Rec { p: vec![true; 3 * nf], s: vec![0; len], t: vec![] })
        }
        43..=50 => {
            let bits = [0usize, 1, 2, 3 * nf - 1, 3 * nf + 1, 8 * nf, 100, 40][p as usize - 43];
            rec_bytes(&Rec { p: vec![true; bits], s: vec![3; 64], t: vec![] })
        }
        51 => rec_bytes(&Rec { p: vec![false; 3 * nf], s: vec![0; 64], t: vec![0xFF, 0xFE] }),
        52 => rec_bytes(&Rec { p: vec![false; 3 * nf], s: vec![0xFF; 64], t: "ы".into() }),
        53 => rec_bytes(&Rec { p: vec![false; 3 * nf], s: [vec![0; 63], vec![0xE0]].concat(), t: vec![] }),
        _ => rm::payload((p - 54) as usize, max),
    };
    b.truncate(max);
    b
}
fn c21_show(k: &Case) -> String {
    match k[0] {
        0 => format!("unmarked channels of {}x{}, {} levels", k[2], k[3], k[1]),
        1 => format!("unmarked channels of {}x{}, 3 levels", k[1], k[2]),
        2 => format!("channel {:?} holding payload {} that is no signed watermark, {} features", C21S[k[2] as usize], k[1], k[3]),
        3 => format!("channel {:?} holding raw bytes {}", C21S[k[2] as usize], k[1]),
        4 => format!("channel {:?} family {} authenticated with depth {}", C21S[k[2] as usize], k[3], C21D[k[1] as usize]),
        5 => format!("unmarked and marked channel authenticated with {} features", k[1]),
        _ => format!("watermarked channel (family {}) with stored bit {} of every byte flipped", k[1], k[2]),
    }
}
fn c21_run(k: &Case, x: &mut Ctx) -> R {
    let mut no = |a: &Array2<u8>, d: f64, step: f64, nf: usize, levels: usize, x: &mut Ctx| -> R {
        x.step(1);
        x.validated();
        x.state(&(a.dim(), a.iter().cloned().collect::<Vec<u8>>(), d.to_bits(), step.to_bits(), nf, levels));
        ensure!(!authentic(a, d, step, nf, levels)?, "accepted", "a channel of {:?} without a well-formed signed watermark is accepted (depth {}, step {}, {} features)", a.dim(), d, step, nf);
        Ok(())
    };
    match k[0] {
        0 | 1 => {
            let (levels, h, w) = if k[0] == 0 { (k[1] as usize, k[2] as usize, k[3] as usize) } else { (3, k[1] as usize, k[2] as usize) };
            for f in [1, 5, 7, 9] {
                let a = rm::image(f, h, w, if f == 1 { 0 } else { 3 }, 255, 4);
                no(&a, 30.0, 1.0, 1, levels, x)?;
                if k[0] == 0 {
                    no(&a, 30.0, 1.0, 3, levels, x)?;
                    no(&a.mapv(|_| 255), 0.7, 1.0, 2, levels, x)?;
                }
            }
            let b = 1usize << levels;
            x.outcome(&format!("unmarked: {}", if h * w == 0 { "empty" } else if h % b != 0 || w % b != 0 { "sides do not divide" } else if rm::cap(h / b, w / b) < 9 { "too small" } else { "large enough" }));
        }
        2 => {
            let (levels, h, w) = C21S[k[2] as usize];
            let nf = k[3] as usize;
            let max = match rm::max_payload(rm::cap(h >> levels, w >> levels)) {
                Some(m) => m,
                None => return Ok(()),
            };
            let a = rm::image(9, h, w, 70, 180, 4);
            let b = c21_payload(k[1], nf, max);
            let e = embed(&a, &b, 40.0, levels)?;
            for step in [0.01, 1.0, 1e6] {
                no(&e, 40.0, step, nf, levels, x)?;
            }
            x.outcome(&format!("other payload, parsed: {}", rec_parse(&b).is_some()));
        }
        3 => {
            let (levels, h, w) = C21S[k[2] as usize];
            let cap = rm::cap(h >> levels, w >> levels);
            let mut b = rm::payload((k[1] % 8) as usize, cap);
            let heads: [[u8; 4]; 6] = [[0, 0, 0, 0], [255, 255, 255, 255], [0, 1, 0, 0], [0, 2, 1, 0], [0, 4, 0xFF, 0xFF], [(cap >> 8) as u8, cap as u8, 2, 0]];
            b[..4].copy_from_slice(&heads[(k[1] / 8) as usize]);
            let a = rm::image(6, h, w, 70, 180, 4);
            let e = rm::write_bytes(&a, &b, 40.0, levels);
            for nf in 1..=2 {
                no(&e, 40.0, 1.0, nf, levels, x)?;
            }
            x.outcome(&format!("raw bytes, header {}", k[1] / 8));
        }
        4 => {
            let (levels, h, w) = C21S[k[2] as usize];
            let d = C21D[k[1] as usize];
            for (lo, hi) in [(0, 255), (100, 140), (0, 0), (255, 255)] {
                let a = rm::image(k[3] as usize, h, w, lo, hi, 1 << levels);
                for step in [1.0, 0.0, -1.0, f64::NAN, f64::INFINITY] {
                    no(&a, d, step, 1, levels, x)?;
                }
            }
            x.outcome(&format!("depth {}", d));
        }
        5 => {
            let nf = k[1] as usize;
            let a = rm::image([9, 7, 1][k[2] as usize], 42, 64, 60, 190, 2);
            no(&a, 30.0, 1.0, nf, 1, x)?;
            // carrying a record signed by somebody else, or (for 0) by the real key about other features
            for own in [false, true] {
                let n = nf.min(85);
                let q: Vec<u8> = vec![0x5A; 8 * n];
                let s = if own { signature::sign(&q, PRIVATE, PUBLIC) } else { signature::sign(&vec![0; 8 * n], OTHER.0, OTHER.1) };
                let big = rm::image([9, 7, 1][k[2] as usize], 64, 64, 60, 190, 2);
                let b = rec_bytes(&Rec { p: vec![false; 3 * n], s, t: vec![] });
                if rm::fits(b.len(), rm::cap(32, 32)) {
                    no(&embed(&big, &b, 30.0, 1)?, 30.0, 1.0, nf, 1, x)?;
                }
                let huge = rm::image([9, 7, 1][k[2] as usize], 96, 64, 60, 190, 2);
                if rm::fits(b.len(), rm::cap(48, 32)) {
                    no(&embed(&huge, &b, 30.0, 1)?, 30.0, 1.0, nf, 1, x)?;
                }
            }
            x.outcome(&format!("{} features", if nf > 11 { "more than 11".into() } else { nf.to_string() }));
        }
        _ => {
            // a genuine watermark with one stored bit after the other inverted
            let a = rm::image(k[1] as usize, 42, 64, 60, 190, 2);
            let e = watermark_channel(&a, 30.0, 1.0, 1, 1)?;
            let i = k[2] as usize * if x.tier == Tier::Quick { 8 } else { 1 };
            for j in i..i + x.tier.pick(8, 1) {
                let s = rm::read_bytes(&e, 30.0, 1);
                let mut t = s.clone();
                t[j / 8] ^= 1 << (j % 8);
                // move exactly that block to the other side of the decision border
                let mut m = e.clone();
                let (r, c) = (j / 32, j % 32);
                let down = e[[2 * r, 2 * c]] as u32 + e[[2 * r + 1, 2 * c]] as u32 > 256;
                for q in 0..4 {
                    let p = &mut m[[2 * r + q / 2, 2 * c + q % 2]];
                    // half a depth of the coefficient: 30 / 2 / 2 per pixel
                    *p = if down { *p - 7 - (q as u8 & 1) } else { *p + 7 + (q as u8 & 1) };
                }
                ensure!(rm::read_bytes(&m, 30.0, 1) == t, "harness", "the harness did not flip bit {}", j);
                let genuine = rm::unstored(&s, 84).and_then(|b| rec_parse(&b));
                let now = rm::unstored(&t, 84).and_then(|b| rec_parse(&b));
                // what is signed by the record is its signature; the perturbation bits decide what is restored
                let same = match (&genuine, &now) {
                    (Some(a), Some(b)) => a.s == b.s && a.p.len() == b.p.len() && a.p.len() == 3,
                    _ => false,
                };
                if same {
                    // text, unused bits and the perturbation bits themselves: only that there is a verdict
                    authentic(&m, 30.0, 1.0, 1, 1)?;
                    x.step(1);
                    x.outcome("bit outside the signature: a verdict");
                } else {
                    no(&m, 30.0, 1.0, 1, 1, x)?;
                    x.outcome("corrupted record: negative");
                }
            }
        }
    }
    x.sample(|| c21_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C22, C23
const KINDS: [&str; 10] = ["L8", "La8", "Rgb8", "Rgba8", "L16", "La16", "Rgb16", "Rgba16", "Rgb32F", "Rgba32F"];
const SIZES: &[(usize, usize)] = &[
    (208, 208), (168, 256), (256, 168), (96, 448), (216, 216),
    // large ones
    (512, 768), (1024, 96), (80, 1600), (808, 1208),
    // sides which the block size does not divide, and too small ones: may be refused
    (209, 208), (208, 210), (215, 217), (212, 212), (207, 208), (208, 204), (300, 301), (1, 1), (8, 8), (16, 16), (7, 300), (200, 199),
];
const UNSUITABLE: usize = 9;
/// plane content; low byte noise for the 16-bit kinds is added separately
fn plane(id: usize, h: usize, w: usize, m: u8) -> Array2<u8> {
    match id {
        0..=9 => rm::image(id, h, w, m, 255 - m, 8),
        10 => rm::image(7, h, w, 0, 255, 8),
        11 => Array2::zeros([h, w]),
        12 => Array2::from_elem([h, w], 255),
        _ => rm::image(5, h, w, 0, 255, 8),
    }
}
fn build(kind: usize, p: [&Array2<u8>; 4]) -> DynamicImage {
    let (h, w) = p[0].dim();
    let (w32, h32) = (w as u32, h as u32);
    let at = |i: usize, x: u32, y: u32| p[i][[y as usize, x as usize]];
    // 16-bit samples: the high byte is the plane, the low byte varies
    let at16 = |i: usize, x: u32, y: u32| {
        let v = at(i, x, y) as u32 * 257;
        (v as i64 + (rm::mix(3, y as u64, x as u64) % 200) as i64 - 100).clamp(0, 65535) as u16
    };
    let atf = |i: usize, x: u32, y: u32| at(i, x, y) as f32 / 255.0;
    match kind {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w32, h32, |x, y| image::Luma([at(0, x, y)]))),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w32, h32, |x, y| image::LumaA([at(0, x, y), at(3, x, y)]))),
        2 => DynamicImage::ImageRgb8(ImageBuffer::from_fn(w32, h32, |x, y| image::Rgb([at(0, x, y), at(1, x, y), at(2, x, y)]))),
        3 => DynamicImage::ImageRgba8(ImageBuffer::from_fn(w32, h32, |x, y| image::Rgba([at(0, x, y), at(1, x, y), at(2, x, y), at(3, x, y)]))),
        4 => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w32, h32, |x, y| image::Luma([at16(0, x, y)]))),
        5 => DynamicImage::ImageLumaA16(ImageBuffer::from_fn(w32, h32, |x, y| image::LumaA([at16(0, x, y), at16(3, x, y)]))),
        6 => DynamicImage::ImageRgb16(ImageBuffer::from_fn(w32, h32, |x, y| image::Rgb([at16(0, x, y), at16(1, x, y), at16(2, x, y)]))),
        7 => DynamicImage::ImageRgba16(ImageBuffer::from_fn(w32, h32, |x, y| image::Rgba([at16(0, x, y), at16(1, x, y), at16(2, x, y), at16(3, x, y)]))),
        8 => DynamicImage::ImageRgb32F(ImageBuffer::from_fn(w32, h32, |x, y| image::Rgb([atf(0, x, y), atf(1, x, y), atf(2, x, y)]))),
        _ => DynamicImage::ImageRgba32F(ImageBuffer::from_fn(w32, h32, |x, y| image::Rgba([atf(0, x, y), atf(1, x, y), atf(2, x, y), atf(3, x, y)]))),
    }
}
fn watermark(i: &DynamicImage, d: f64, step: f64, nf: usize) -> Result<DynamicImage, Fail> {
    let (w, h) = i.dimensions();
    guard(|| watermarking::watermark(i.clone(), d, step, nf)).map_err(|m| Fail { key: "watermark-fails".into(), msg: format!("watermarking a {:?} image of {}x{} fails: {}", i.color(), w, h, m) })
}
fn is_gray(k: usize) -> bool {
    [0, 1, 4, 5].contains(&k)
}
fn has_alpha(k: usize) -> bool {
    [1, 3, 5, 7, 9].contains(&k)
}
const D22: &[f64] = &[20.0, 50.0, 100.0, 300.0];
// [kind, size, depth, plane set, nf]
fn c22_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for kind in 0..10i64 {
        for s in 0..t.pick(3, 5i64) {
            for d in 0..D22.len() as i64 {
                for set in 0..14i64 {
                    // quick: every pair of (kind, plane set), (kind, depth), (kind, size)
                    if t == Tier::Quick && (set + s * 5 + d * 3) % 4 != 0 && !(set == 7 && d == 2) {
                        continue;
                    }
                    v.push(vec![kind, s, d, set, 1]);
                }
            }
        }
    }
    for kind in 0..t.pick(4, 10i64) {
        v.push(vec![kind, 4, 2, 9, 2]);
    }
    for kind in 0..10i64 {
        for s in 5..SIZES.len() as i64 {
            let large = s < UNSUITABLE as i64;
            for set in t.pick(vec![9i64], vec![9, 7, 12]) {
                if t == Tier::Quick && large && (kind + s) % 4 != 0 {
                    continue;
                }
                v.push(vec![kind, s, [2, 1][(kind + s) as usize % 2], set, if large && kind == 3 { 2 } else { 1 }]);
            }
        }
    }
    v
}
fn c22_show(k: &Case) -> String {
    let (h, w) = SIZES[k[1] as usize];
    format!("{} image of {}x{} (rows x columns), planes {}, depth {}, {} features", KINDS[k[0] as usize], h, w, k[3], D22[k[2] as usize], k[4])
}
fn c22_run(k: &Case, x: &mut Ctx) -> R {
    let kind = k[0] as usize;
    let (h, w) = SIZES[k[1] as usize];
    let d = D22[k[2] as usize];
    let m = rm::headroom(d, 3).ceil() as u8;
    let set = k[3] as usize;
    let planes: Vec<Array2<u8>> = (0..4).map(|i| plane(if i == 3 { [7, 10, 11, 12, 13, 5, 3, 6, 9, 4, 8, 2, 1, 10][set] } else { (set + 3 * i) % 14 }, h, w, m)).collect();
    let img = build(kind, [&planes[0], &planes[1], &planes[2], &planes[3]]);
    x.step(1);
    x.validated();
    x.state(&(kind, img.dimensions(), img.as_bytes()));
    let out = match watermark(&img, d, 1.0, k[4] as usize) {
        Err(_) if k[1] as usize >= UNSUITABLE => {
            x.outcome("unsuitable size refused");
            return Ok(());
        }
        o => o?,
    };
    ensure!(out.dimensions() == img.dimensions(), "size", "the image of {:?} becomes {:?}", img.dimensions(), out.dimensions());
    ensure!(out.color().has_color() == !is_gray(kind), "kind", "the {} image becomes {:?}", KINDS[kind], out.color());
    ensure!(out.color().has_alpha() == has_alpha(kind), "alpha-kind", "the {} image becomes {:?}", KINDS[kind], out.color());
    let (a, b) = (img.to_rgba8(), out.to_rgba8());
    let bound = 0.75 * d / 8.0 + 1.0;
    for (xx, yy, p) in a.enumerate_pixels() {
        let q = b.get_pixel(xx, yy);
        ensure!(p[3] == q[3], "alpha", "the alpha of pixel ({}, {}) changes from {} to {}", xx, yy, p[3], q[3]);
        for c in 0..3 {
            let e = (p[c] as i64 - q[c] as i64).abs();
            ensure!(e as f64 <= bound, "change", "sample {} of pixel ({}, {}) changes from {} to {}, the depth {} allows {}", c, xx, yy, p[c], q[c], d, bound);
        }
    }
    if is_gray(kind) {
        ensure!(b.pixels().all(|p| p[0] == p[1] && p[1] == p[2]), "gray", "the grey image is not grey any more");
    }
    x.maximum("largest change of a sample", a.iter().zip(b.iter()).map(|(p, q)| (*p as i64 - *q as i64).unsigned_abs()).max().unwrap_or(0));
    x.outcome(&format!("{} depth {}", KINDS[kind], d));
    x.sample(|| format!("{} -> {:?}", c22_show(k), out.color()));
    Ok(())
}

// C23 [kind, size, content of plane 0, 1, 2, alpha content, nf, depth, step * 100]
fn c23_cases(t: Tier) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let few = [9i64, 11, 12, 7, 8];
    let many: Vec<i64> = t.pick(vec![9, 11, 12, 7, 8, 13, 0], (0..14).collect());
    let alphas = |k: i64| if has_alpha(k as usize) { vec![7i64, 11, 12] } else { vec![7] };
    for kind in 0..10i64 {
        if is_gray(kind as usize) {
            for s in 0..t.pick(3, 4i64) {
                for c in 0..14 {
                    for al in alphas(kind) {
                        if t == Tier::Thorough || kind < 2 || (c + s + al) % 3 == 0 {
                            v.push(vec![kind, s, c, c, c, al, 1, 2, 100]);
                        }
                    }
                }
            }
            continue;
        }
        for s in 5..t.pick(6i64, UNSUITABLE as i64) {
            v.push(vec![kind, s, 9, 6, 7, 7, 1, 2, 100]);
        }
        // 8 bits: every triple of contents; the others: a Latin square of triples (every pair of planes sees every pair of contents)
        let full = kind == 2 || kind == 3 || t == Tier::Thorough;
        for (i, a) in few.iter().enumerate() {
            for (j, b) in few.iter().enumerate() {
                for (l, c) in few.iter().enumerate() {
                    let square = (i + 2 * j + l) % few.len() == 0;
                    if full || square {
                        for al in if t == Tier::Thorough || square { alphas(kind) } else { vec![7] } {
                            if t == Tier::Thorough || kind < 4 || al == [7, 11, 12][(i + j) % 3] || !has_alpha(kind as usize) {
                                v.push(vec![kind, 0, *a, *b, *c, al, 1, 2, 100]);
                            }
                        }
                    }
                }
            }
        }
        for (i, a) in many.iter().enumerate() {
            let n = many.len();
            for r in 0..t.pick(1, 4usize) {
                // equal planes, and three different ones, at other sizes and with other parameters
                let (b, c) = if r % 2 == 0 { (many[(i + 1 + r) % n], many[(i + 3) % n]) } else { (*a, *a) };
                for (s, nf, d, step) in [(1, 1, 2, 100), (2, 1, 2, 100), (0, 2, 2, 50), (0, 1, 1, 100), (0, 1, 3, 1000), (3, 1, 0, 30)] {
                    let turn = (i as i64 + s + d) % 3;
                    if t == Tier::Thorough || kind < 4 || turn == 0 {
                        v.push(vec![kind, s, *a, b, c, 7, nf, d, step]);
                    }
                }
                v.push(vec![kind, 1, *a, *a, *a, 7, 1, 2, 100]);
                v.push(vec![kind, 0, *a, *a, many[(i + 1) % n], 7, 1, 2, 100]);
                v.push(vec![kind, 0, many[(i + 1) % n], *a, *a, 7, 1, 2, 100]);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn c23_show(k: &Case) -> String {
    let (h, w) = SIZES[k[1] as usize];
    format!("{} image of {}x{} (rows x columns): the planes hold contents {}, {}, {}, alpha {}; depth {}, {} features, step {}", KINDS[k[0] as usize], h, w, k[2], k[3], k[4], k[5], D22[k[7] as usize], k[6], k[8] as f64 / 100.0)
}
fn plane_of(i: &DynamicImage, c: usize) -> Array2<u8> {
    let r = i.to_rgba8();
    Array2::from_shape_fn([r.height() as usize, r.width() as usize], |(y, x)| r.get_pixel(x as u32, y as u32)[c])
}
type AloneKey = (Vec<u8>, usize, usize, i64, i64);
static ALONE: std::sync::LazyLock<std::sync::Mutex<std::collections::HashMap<AloneKey, (Array2<u8>, bool)>>> = std::sync::LazyLock::new(Default::default);
/// one plane watermarked as an image of its own, and whether it is authentic then
fn alone(p: &Array2<u8>, d: f64, step: f64, nf: usize) -> Result<(Array2<u8>, bool), Fail> {
    let key = (p.iter().cloned().collect(), p.dim().0, nf, (d * 100.0) as i64, (step * 100.0) as i64);
    if let Some(r) = ALONE.lock().unwrap().get(&key) {
        return Ok(r.clone());
    }
    let out = plane_of(&watermark(&build(0, [p, p, p, p]), d, step, nf)?, 0);
    let r = (out.clone(), authentic(&out, d, step, nf, 3)?);
    ALONE.lock().unwrap().insert(key, r.clone());
    Ok(r)
}
fn c23_run(k: &Case, x: &mut Ctx) -> R {
    let kind = k[0] as usize;
    let (h, w) = SIZES[k[1] as usize];
    let (d, step, nf) = (D22[k[7] as usize], k[8] as f64 / 100.0, k[6] as usize);
    let m = rm::headroom(d, 3).ceil() as u8;
    let ps: Vec<Array2<u8>> = (2..5).map(|i| plane(k[i] as usize, h, w, m)).collect();
    let al = plane(k[5] as usize, h, w, 0);
    let img = build(kind, [&ps[0], &ps[1], &ps[2], &al]);
    let out = watermark(&img, d, step, nf)?;
    x.step(1);
    x.validated();
    x.state(&(kind, img.as_bytes()));
    let mut verdicts = vec![];
    for i in 0..if is_gray(kind) { 1 } else { 3 } {
        let original = plane_of(&img, i);
        let (want, verdict) = alone(&original, d, step, nf)?;
        let got = plane_of(&out, i);
        x.step(1);
        if let Some((p, _)) = got.indexed_iter().find(|(p, v)| want[*p] != **v) {
            return fail("plane", format!("at row {}, column {} plane {} of the watermarked image has {}, the plane watermarked alone has {} (original {})", p.0, p.1, i, got[p], want[p], original[p]));
        }
        verdicts.push(verdict);
    }
    if is_gray(kind) {
        let got = plane_of(&out, 0);
        for c in 1..3 {
            ensure!(plane_of(&out, c) == got, "gray", "grey image: plane {} differs from plane 0", c);
        }
    }
    x.outcome(&format!("{}, authentic planes {:?}", KINDS[kind], verdicts));
    x.sample(|| c23_show(k));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C10",
            rule: "Product of boundary sizes of the three parts with every truncation and several tails; every over-long size; texts of 1 to 4 byte characters of every length; header triples with exact, short and long bodies; all texts of one and two bytes; all perturbation strings up to a length. Written bytes and read records are compared with an independent record model.",
            cases: c10_cases,
            run: c10_run,
            describe: c10_show,
            bounds: |t| json!({"sizes": "31 x 12 x 12 boundary sizes", "patterns": t.pick(2, 8), "bit_strings": t.pick("all up to 10", "all up to 14"), "headers": t.pick("256 x 256 with boundary text lengths", "all 256^3"), "texts": "all 1- and 2-byte strings, 3- and 4-byte class representatives, every Unicode character in four places"}),
            assumptions: &["part contents come from a pattern alphabet; validity of text is judged by std::str::from_utf8"],
            timeout: 120,
            min_outcomes: 10,
        },
        Check {
            id: "C19",
            rule: "Product of level counts, channel shapes (exact fits, each error-correcting code with room), image families, depths, numbers of features and steps: the real code watermarks, an independent implementation of the features decides whether the claim's condition holds, and then the real code must accept; repeated for copies distorted below the margin.",
            cases: c19_cases,
            run: c19_run,
            describe: c19_show,
            bounds: |t| json!({"levels": "1..3", "domains": LL.len(), "depths": 5, "steps": STEPS, "features": "1..11", "families": rm::FAMILIES, "tier": format!("{:?}", t), "work_limit": "larger products on a diagonal of families and depths"}),
            assumptions: &["feature movement is judged by the independent features of the histogram-equalized channel with 0.1% margin", "histogram equalization (imageproc) is shared with the code under test"],
            timeout: 300,
            min_outcomes: 8,
        },
        Check {
            id: "C20",
            rule: "For every watermarked channel of the product: 10 content changes which shift blocks by whole depths (all bits stay readable), 12 others, transplants of its watermark into the nine other images, and forged records (signature bits, lengths, foreign keys, other values, other numbers of features). Each must be rejected when the independent features moved by more than two steps, forged ones always.",
            cases: c20_cases,
            run: c20_run,
            describe: c20_show,
            bounds: |t| json!({"levels": t.pick("1..2", "1..3"), "domains": C20LL.len(), "depths": 5, "features": "1..11", "families": rm::FAMILIES, "signature_bits": t.pick("every 17th", "all 512")}),
            assumptions: &["as C19"],
            timeout: 300,
            min_outcomes: 30,
        },
        Check {
            id: "C21",
            rule: "Unmarked channels of every size up to a bound (empty and indivisible ones included) and around the smallest usable size, well-formed and malformed payloads and raw bytes with hostile headers in ten channel shapes, every depth and step of an alphabet with 0, negative, huge and non-finite values, 1 to 16 (30) features, and every stored bit of genuine watermarks inverted: a verdict must come, and be negative.",
            cases: c21_cases,
            run: c21_run,
            describe: c21_show,
            bounds: |t| json!({"sizes": t.pick("all up to 36x36 with 1..3 levels, 240 larger", "all up to 64x64 with 1..3 levels, 240 larger"), "payloads": PAYLOADS, "raw": GARBAGE, "depths": C21D.iter().map(|d| d.to_string()).collect::<Vec<_>>(), "features": t.pick("1..16, 20, 24", "1..30, 34, 40")}),
            assumptions: &["channel contents from four to ten families"],
            timeout: 120,
            min_outcomes: 25,
        },
        Check {
            id: "C22",
            rule: "Every pixel kind (10) x sizes x depths x plane contents (saturated, constant, noisy ones included): dimensions, kind, alpha and the change of every sample are compared with the 8-bit original.",
            cases: c22_cases,
            run: c22_run,
            describe: c22_show,
            bounds: |t| json!({"kinds": KINDS, "sizes": SIZES, "depths": D22, "plane_sets": 14, "tier": format!("{:?}", t), "quick": "a quarter of the product that contains every pair"}),
            assumptions: &["the 8-bit original is the image crate's to_rgba8"],
            timeout: 120,
            min_outcomes: 20,
        },
        Check {
            id: "C23",
            rule: "Every pixel kind x triples of plane contents (every triple for 8-bit colour, a Latin square of triples otherwise; black, white, equal and distinct planes) x alpha content, plus sizes and parameters: every plane of the watermarked image must be what watermarking it alone as a grey image gives.",
            cases: c23_cases,
            run: c23_run,
            describe: c23_show,
            bounds: |t| json!({"kinds": KINDS, "sizes": t.pick(4, 8), "contents": t.pick(7, 14), "triples": "all 125 of 5 contents for Rgb8 and Rgba8, 25 for the other kinds (thorough: all)", "alphas": 3, "parameters": 6}),
            assumptions: &["one or two features; depths 20 to 300; steps 0.3 to 10"],
            timeout: 120,
            min_outcomes: 15,
        },
    ]
}
