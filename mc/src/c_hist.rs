//! C27, C28: call histories and concurrent calls. An operation is a call of the library with fixed
//! arguments; its result is a byte string. Reference: the result of the operation alone in a fresh
//! process.
use crate::c_feat::bv;
use crate::engine::*;
use crate::rm;
use crate::sys;
use image::{DynamicImage, GrayImage};
use image_features::feature_types::FeaturesType;
use ndarray::Array2;
use serde_json::json;
use std::collections::HashMap;
use std::sync::Mutex;
use watermarking::verif_hooks as wh;

type Op = (&'static str, bool, fn() -> Vec<u8>);
const KEYS: [(&str, &str); 5] = [
    ("e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60", "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6"),
    ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"),
    // like the first one: last bit, first digit, two bytes exchanged
    ("e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d61", "3f011b3c23003dc4a7987f216f8ccf78c23338431eeef0a894d50c579a69a4ef"),
    ("f1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60", "a01674cbecb88ff0394f5c007ad44227aafa0e141566fcd3d1fdaa22658af94c"),
    ("e1ec996318bead7d94b60bf64469b98d861515b3676d4fa5b4e7c36dc4951d60", "9bc158f0b258641ef95d78ab4bce64f0e291911c028df00b74cbd746030a6eed"),
];
/// the same matrix with one element changed, or with two elements exchanged
fn ch(mut a: Array2<u8>, y: usize, x: usize) -> Array2<u8> {
    a[[y, x]] ^= 7;
    a
}
fn xc(mut a: Array2<u8>) -> Array2<u8> {
    let (h, w) = a.dim();
    a.swap([0, 1], [h - 1, w - 2]);
    a
}
/// the same values turned by 180 degrees, mirrored, in exchanged 2x2 blocks, or in another shape
fn turned(a: Array2<u8>) -> Array2<u8> {
    let (h, w) = a.dim();
    Array2::from_shape_fn([h, w], |(y, x)| a[[h - 1 - y, w - 1 - x]])
}
fn mirrored(a: Array2<u8>) -> Array2<u8> {
    let (h, w) = a.dim();
    Array2::from_shape_fn([h, w], |(y, x)| a[[y, w - 1 - x]])
}
fn blocks(mut a: Array2<u8>, n: usize) -> Array2<u8> {
    let (h, w) = a.dim();
    for y in 0..n {
        for x in 0..n {
            a.swap([y, x], [h - n + y, w - 2 * n + x]);
        }
    }
    a
}
fn reshaped(a: Array2<u8>) -> Array2<u8> {
    let (h, w) = a.dim();
    Array2::from_shape_vec([w, h], a.into_raw_vec()).unwrap()
}
fn pay(p: usize, len: usize, change: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut v = rm::payload(p, len);
    change(&mut v);
    v
}
fn embv(a: Array2<u8>, p: Vec<u8>, d: f64, l: usize) -> Vec<u8> {
    embedding::embed(a, p, d, l).into_raw_vec()
}
fn sgx(d: &[u8], a: usize, b: usize) -> Vec<u8> {
    signature::sign(&d.to_vec(), KEYS[a].0, KEYS[b].1)
}
fn rec(bits: &[bool], sig: Vec<u8>, text: &str) -> Vec<u8> {
    wh::Watermark::new(bv(bits), sig, text.into()).serialize()
}
fn im(f: usize, h: usize, w: usize) -> Array2<u8> {
    rm::image(f, h, w, 60, 195, 2)
}
fn emb(a: Array2<u8>, p: usize, len: usize, d: f64, l: usize) -> Vec<u8> {
    let o = embedding::embed(a, rm::payload(p, len), d, l);
    let mut v = vec![o.dim().0 as u8, o.dim().1 as u8];
    v.extend(o.iter());
    v
}
/// an image written by the independent writer
fn stored(f: usize, h: usize, w: usize, p: usize, len: usize, d: f64, l: usize) -> Array2<u8> {
    rm::write_bytes(&im(f, h, w), &rm::stored(&rm::payload(p, len), rm::cap(h >> l, w >> l)), d, l)
}
fn ext(a: Array2<u8>, d: f64, l: usize) -> Vec<u8> {
    embedding::try_extract(a, d, l).map(|mut v| { v.push(1); v }).unwrap_or_default()
}
fn ft(a: Array2<u8>, n: usize) -> Vec<u8> {
    image_features::calculate_features(&a, FeaturesType::MomentsZernike, n).iter().flat_map(|f| f.to_bits().to_le_bytes()).collect()
}
fn fl(v: &Array2<f64>) -> Vec<u8> {
    v.iter().flat_map(|f| f.to_bits().to_le_bytes()).collect()
}
fn q(f: &[f64], step: f64) -> Vec<u8> {
    let (a, b) = three_bit_quantization::three_bit_quantization(&f.to_vec(), step);
    let mut v: Vec<u8> = a.iter().flat_map(|x| x.to_le_bytes()).collect();
    v.extend(b.iter().map(|b| *b as u8));
    v
}
fn dq(f: &[f64], bits: &[bool], step: f64) -> Vec<u8> {
    three_bit_quantization::three_bit_dequantization(&f.to_vec(), &bv(bits), step).iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn gray(a: &Array2<u8>) -> GrayImage {
    GrayImage::from_raw(a.dim().1 as u32, a.dim().0 as u32, a.iter().cloned().collect()).unwrap()
}
fn wmc(a: Array2<u8>, d: f64, s: f64, n: usize, l: usize) -> Vec<u8> {
    wh::watermark_channel(&gray(&a), d, s, n, l).into_raw()
}
fn sg(d: &[u8], k: usize) -> Vec<u8> {
    signature::sign(&d.to_vec(), KEYS[k].0, KEYS[k].1)
}
fn vf(d: &[u8], s: Vec<u8>, k: usize) -> Vec<u8> {
    vec![signature::verify(&d.to_vec(), &s, KEYS[k].1) as u8]
}
fn rd(b: &[u8]) -> Vec<u8> {
    match wh::try_deserialize(&b.to_vec()) {
        Some(w) => [w.perturbation_vector.iter().map(|b| *b as u8).collect(), w.signature, w.text.into_bytes()].concat(),
        None => b"none".to_vec(),
    }
}
fn rgb(a: [usize; 3]) -> DynamicImage {
    let p: Vec<_> = a.iter().map(|f| im(*f, 208, 208)).collect();
    DynamicImage::ImageRgb8(image::ImageBuffer::from_fn(208, 208, |x, y| image::Rgb([p[0][[y as usize, x as usize]], p[1][[y as usize, x as usize]], p[2][[y as usize, x as usize]]])))
}
const F1: &[f64] = &[1.12, 3.73, -26.024, -32.51];
const F2: &[f64] = &[1.9, 3.2, -26.9, -31.7];
const B1: &[bool] = &[false, false, false, true, false, true, false, false, true, true, false, false];
// (name, light, body)
static OPS: &[Op] = &[
    ("embed 16x18 level 1 depth 30", true, || emb(im(7, 16, 18), 0, 3, 30.0, 1)),
    ("embed the same, other payload", true, || emb(im(7, 16, 18), 2, 1, 30.0, 1)),
    ("embed the same, depth 20", true, || emb(im(7, 16, 18), 0, 3, 20.0, 1)),
    ("embed another image of that size", true, || emb(im(9, 16, 18), 0, 3, 30.0, 1)),
    ("embed 18x16", true, || emb(im(7, 18, 16), 0, 3, 30.0, 1)),
    ("embed 32x36 level 2", true, || emb(im(7, 32, 36), 0, 3, 30.0, 2)),
    ("embed 32x16 level 1 (LDPC)", true, || emb(im(7, 32, 16), 0, 4, 30.0, 1)),
    ("embed 16x32 level 1 (LDPC)", true, || emb(im(7, 16, 32), 0, 4, 30.0, 1)),
    ("embed empty payload", true, || emb(im(7, 16, 18), 0, 0, 30.0, 1)),
    ("embed too much (refused)", true, || emb(im(7, 16, 18), 0, 30, 30.0, 1)),
    ("embed into too small an image (refused)", true, || emb(im(7, 8, 8), 0, 1, 30.0, 1)),
    ("extract 16x18", true, || ext(stored(7, 16, 18, 0, 4, 30.0, 1), 30.0, 1)),
    ("extract 16x18, other payload", true, || ext(stored(7, 16, 18, 5, 2, 30.0, 1), 30.0, 1)),
    ("extract 16x18 depth 20", true, || ext(stored(7, 16, 18, 0, 4, 20.0, 1), 20.0, 1)),
    ("extract with a wrong depth", true, || ext(stored(7, 16, 18, 0, 4, 30.0, 1), 23.0, 1)),
    ("extract 32x36 level 2", true, || ext(stored(7, 32, 36, 0, 4, 30.0, 2), 30.0, 2)),
    ("extract 16x32 (LDPC)", true, || ext(stored(7, 16, 32, 0, 4, 30.0, 1), 30.0, 1)),
    ("extract from an unmarked image", true, || ext(im(9, 16, 18), 30.0, 1)),
    ("extract from an empty image", true, || ext(im(9, 0, 0), 30.0, 1)),
    ("encode 5 bytes for 16", true, || encoding::encode(rm::payload(0, 5), 16)),
    ("encode 5 bytes for 32", true, || encoding::encode(rm::payload(0, 5), 32)),
    ("encode 5 bytes for 40", true, || encoding::encode(rm::payload(0, 5), 40)),
    ("encode 9 bytes for 64", true, || encoding::encode(rm::payload(2, 9), 64)),
    ("encode too much (refused)", true, || encoding::encode(rm::payload(2, 65536), 64)),
    ("decode for 16 with an error", true, || { let mut b = rm::code_encode(&rm::payload(0, 5), 16); b[3] ^= 4; encoding::decode(b, 16) }),
    ("decode for 32", true, || encoding::decode(rm::code_encode(&rm::payload(0, 5), 32), 32)),
    ("decode for 40", true, || encoding::decode(rm::code_encode(&rm::payload(0, 5), 40), 40)),
    ("decode garbage", true, || encoding::try_decode(vec![255; 64], 64).unwrap_or_default()),
    ("features 8x8 n=2", true, || ft(im(7, 8, 8), 2)),
    ("features 8x8 n=3", true, || ft(im(7, 8, 8), 3)),
    ("features 8x8 n=2, other image", true, || ft(im(9, 8, 8), 2)),
    ("features 6x8 n=2", true, || ft(im(7, 6, 8), 2)),
    ("features 8x6 n=2", true, || ft(im(7, 8, 6), 2)),
    ("features 9x9 n=1", true, || ft(im(7, 9, 9), 1)),
    ("quantize", true, || q(F1, 1.0)),
    ("quantize with another step", true, || q(F1, 0.5)),
    ("quantize other features", true, || q(F2, 1.0)),
    ("restore", true, || dq(F2, B1, 1.0)),
    ("restore with another step", true, || dq(F2, B1, 0.5)),
    ("restore other features", true, || dq(F1, B1, 1.0)),
    ("pack 12 bits", true, || three_bit_quantization::perturbation_vector_as_bytes(&bv(B1))),
    ("pack 5 bits", true, || three_bit_quantization::perturbation_vector_as_bytes(&bv(&B1[..5]))),
    ("unpack 12 bits", true, || three_bit_quantization::perturbation_vector_from_bytes(&vec![0xA5, 0x3C], 12).iter().map(|b| *b as u8).collect()),
    ("sign a with key 0", true, || sg(b"aaaa", 0)),
    ("sign a with key 1", true, || sg(b"aaaa", 1)),
    ("sign b with key 0", true, || sg(b"bbbbbbbbbbbbbbbbbbbbb", 0)),
    ("verify a", true, || vf(b"aaaa", sg(b"aaaa", 0), 0)),
    ("verify a with another's key", true, || vf(b"aaaa", sg(b"aaaa", 0), 1)),
    ("verify altered b", true, || { let mut s = sg(b"bbbb", 0); s[5] ^= 1; vf(b"bbbb", s, 0) }),
    ("verify malformed signature", true, || vf(b"aaaa", vec![1; 63], 0)),
    ("generate keys from fixed entropy", true, || { let (k, _) = sys::with_entropy((0..32).collect(), 0, signature::verif_hooks::generate); (k.0 + &k.1).into_bytes() }),
    ("read wrong hexadecimal text", true, || format!("{:?}", utils::format::decode_hex("0g").is_err()).into_bytes()),
    ("convert integers", true, || { let b = utils::bytes::vec_i64_to_bytes(&vec![-1, 5, i64::MIN]); [b.clone(), utils::bytes::vec_i64_from_bytes(&b).iter().map(|x| *x as u8).collect()].concat() }),
    ("wavelet forward 8x4", true, || fl(&embedding::verif_hooks::dwt_2d(im(7, 8, 4).mapv(|v| v as f64), 1, false))),
    ("wavelet backward 4x8 level 2", true, || fl(&embedding::verif_hooks::dwt_2d(im(7, 4, 8).mapv(|v| v as f64), 2, true))),
    ("write a record", true, || wh::Watermark::new(bv(B1), vec![7; 9], "Grüße".into()).serialize()),
    ("write too long a record (refused)", true, || wh::Watermark::new(bv(B1), vec![7; 256], "x".into()).serialize()),
    ("read a record", true, || rd(&[3, 2, 1, 5, 9, 9, b'x', 0])),
    ("read a broken record", true, || rd(&[3, 2, 9, 5, 9, 9, b'x', 0])),
    // calls whose arguments differ from those of another one in one small place ("~"): a result kept
    // under a key which does not tell them apart is found out
    ("~sign a, key differs in the last bit", false, || sg(b"aaaa", 2)),
    ("~sign a, key differs in the first digit", false, || sg(b"aaaa", 3)),
    ("~sign a, key with two bytes exchanged", false, || sg(b"aaaa", 4)),
    ("~sign a, private key of another pair", false, || sgx(b"aaaa", 2, 0)),
    ("~sign a, public key of another pair", false, || sgx(b"aaaa", 0, 2)),
    ("~sign aaab", false, || sg(b"aaab", 0)),
    ("~sign baaa", false, || sg(b"baaa", 0)),
    ("~sign aaba", false, || sg(b"aaba", 0)),
    ("~sign aaaaa", false, || sg(b"aaaaa", 0)),
    ("~verify aaab, signature of a", false, || vf(b"aaab", sg(b"aaaa", 0), 0)),
    ("~verify baaa, signature of a", false, || vf(b"baaa", sg(b"aaaa", 0), 0)),
    ("~verify aaaaa, signature of a", false, || vf(b"aaaaa", sg(b"aaaa", 0), 0)),
    ("~verify a, first bit of the signature altered", false, || { let mut s = sg(b"aaaa", 0); s[0] ^= 1; vf(b"aaaa", s, 0) }),
    ("~verify a, last bit of the signature altered", false, || { let mut s = sg(b"aaaa", 0); s[63] ^= 1; vf(b"aaaa", s, 0) }),
    ("~verify a, public key differs little", false, || vf(b"aaaa", sg(b"aaaa", 2), 2)),
    ("~encode for 16, last byte changed", false, || encoding::encode(pay(0, 5, |v| v[4] ^= 1), 16)),
    ("~encode for 16, first byte changed", false, || encoding::encode(pay(0, 5, |v| v[0] ^= 1), 16)),
    ("~encode for 16, bytes exchanged", false, || encoding::encode(pay(0, 5, |v| v.swap(0, 4)), 16)),
    ("~encode for 40, last byte changed", false, || encoding::encode(pay(0, 5, |v| v[4] ^= 1), 40)),
    ("~encode for 64, last byte changed", false, || encoding::encode(pay(2, 9, |v| v[8] ^= 1), 64)),
    ("~decode for 16, other byte", false, || encoding::decode(rm::code_encode(&pay(0, 5, |v| v[4] ^= 1), 16), 16)),
    ("~decode for 16, error elsewhere", false, || { let mut b = rm::code_encode(&rm::payload(0, 5), 16); b[15] ^= 64; encoding::decode(b, 16) }),
    ("~decode for 40, other byte", false, || encoding::decode(rm::code_encode(&pay(0, 5, |v| v[2] ^= 1), 40), 40)),
    ("~embed 16x18, one pixel differs", false, || embv(ch(im(7, 16, 18), 15, 17), rm::payload(0, 3), 30.0, 1)),
    ("~embed 16x18, first pixel differs", false, || embv(ch(im(7, 16, 18), 0, 0), rm::payload(0, 3), 30.0, 1)),
    ("~embed 16x18, pixels exchanged", false, || embv(xc(im(7, 16, 18)), rm::payload(0, 3), 30.0, 1)),
    ("~embed 16x18, payload differs in the last byte", false, || embv(im(7, 16, 18), pay(0, 3, |v| v[2] ^= 1), 30.0, 1)),
    ("~embed 16x18, payload differs in the first byte", false, || embv(im(7, 16, 18), pay(0, 3, |v| v[0] ^= 1), 30.0, 1)),
    ("~embed 16x18, payload of two bytes", false, || embv(im(7, 16, 18), rm::payload(0, 2), 30.0, 1)),
    ("~embed 16x18, depth 30.5", false, || embv(im(7, 16, 18), rm::payload(0, 3), 30.5, 1)),
    ("~embed 16x36 level 1", false, || embv(im(7, 16, 36), rm::payload(0, 3), 30.0, 1)),
    ("~embed 32x36 level 1", false, || embv(im(7, 32, 36), rm::payload(0, 3), 30.0, 1)),
    ("~extract 16x18, one byte differs", false, || ext(rm::write_bytes(&im(7, 16, 18), &rm::stored(&pay(0, 4, |v| v[3] ^= 1), 9), 30.0, 1), 30.0, 1)),
    ("~extract 16x18, other image, same payload", false, || ext(stored(9, 16, 18, 0, 4, 30.0, 1), 30.0, 1)),
    ("~extract 16x18, depth 30.5", false, || ext(stored(7, 16, 18, 0, 4, 30.5, 1), 30.5, 1)),
    ("~features 8x8 n=2, one pixel differs", false, || ft(ch(im(7, 8, 8), 7, 7), 2)),
    ("~features 8x8 n=2, first pixel differs", false, || ft(ch(im(7, 8, 8), 0, 0), 2)),
    ("~features 8x8 n=2, pixels exchanged", false, || ft(xc(im(7, 8, 8)), 2)),
    ("~features 8x8 n=1", false, || ft(im(7, 8, 8), 1)),
    ("~features 5x8 n=2", false, || ft(im(7, 5, 8), 2)),
    ("~quantize, last feature differs", false, || q(&[1.12, 3.73, -26.024, -31.51], 1.0)),
    ("~quantize, first feature differs", false, || q(&[2.12, 3.73, -26.024, -32.51], 1.0)),
    ("~quantize, features exchanged", false, || q(&[3.73, 1.12, -26.024, -32.51], 1.0)),
    ("~quantize, step 1.2", false, || q(F1, 1.2)),
    ("~restore, last feature differs", false, || dq(&[1.9, 3.2, -26.9, -35.7], B1, 1.0)),
    ("~restore, last bits differ", false, || dq(F2, &[false, false, false, true, false, true, false, false, true, false, true, true], 1.0)),
    ("~restore, first bits differ", false, || dq(F2, &[true, true, true, true, false, true, false, false, true, true, false, false], 1.0)),
    ("~restore, step 1.2", false, || dq(F2, B1, 1.2)),
    ("~pack 12 other bits", false, || three_bit_quantization::perturbation_vector_as_bytes(&bv(&[false, false, false, true, false, true, false, false, true, true, false, true]))),
    ("~unpack 12 other bits", false, || three_bit_quantization::perturbation_vector_from_bytes(&vec![0xA5, 0x34], 12).iter().map(|b| *b as u8).collect()),
    ("~unpack 11 bits", false, || three_bit_quantization::perturbation_vector_from_bytes(&vec![0xA5, 0x3C], 11).iter().map(|b| *b as u8).collect()),
    ("~write a record, other text", false, || rec(B1, vec![7; 9], "Grüsse")),
    ("~write a record, other signature", false, || rec(B1, vec![7, 7, 7, 7, 7, 7, 7, 7, 8], "Grüße")),
    ("~write a record, other bits", false, || rec(&[true; 12], vec![7; 9], "Grüße")),
    ("~read a record, other text", false, || rd(&[3, 2, 1, 5, 9, 9, b'y', 0])),
    ("~read a record, other bits", false, || rd(&[3, 2, 1, 2, 9, 9, b'x', 0])),
    ("~wavelet forward 8x4, one element differs", false, || fl(&embedding::verif_hooks::dwt_2d(ch(im(7, 8, 4), 7, 3).mapv(|v| v as f64), 1, false))),
    ("~wavelet backward 8x4", false, || fl(&embedding::verif_hooks::dwt_2d(im(7, 8, 4).mapv(|v| v as f64), 1, true))),
    ("~wavelet forward 8x4 level 2", false, || fl(&embedding::verif_hooks::dwt_2d(im(7, 8, 4).mapv(|v| v as f64), 2, false))),
    ("~wavelet forward 4x8", false, || fl(&embedding::verif_hooks::dwt_2d(im(7, 4, 8).mapv(|v| v as f64), 1, false))),
    ("~wavelet forward 8x8", false, || fl(&embedding::verif_hooks::dwt_2d(im(7, 8, 8).mapv(|v| v as f64), 1, false))),
    ("~convert other integers", false, || { let b = utils::bytes::vec_i64_to_bytes(&vec![-1, 5, i64::MIN + 1]); [b.clone(), utils::bytes::vec_i64_from_bytes(&b).iter().map(|x| *x as u8).collect()].concat() }),
    ("~watermark 42x64 n=1, one pixel differs", false, || wmc(ch(im(9, 42, 64), 41, 63), 30.0, 1.0, 1, 1)),
    ("~watermark 42x64 n=1, depth 30.5", false, || wmc(im(9, 42, 64), 30.5, 1.0, 1, 1)),
    ("~watermark 42x64 n=1, step 1.2", false, || wmc(im(9, 42, 64), 30.0, 1.2, 1, 1)),
    ("~authenticate, depth 30 and 30.5", false, || { let o = wh::watermark_channel(&gray(&im(6, 42, 64)), 30.5, 200.0, 1, 1); vec![wh::authenticate_channel(&o, 30.5, 200.0, 1, 1) as u8, wh::authenticate_channel(&gray(&ch(im(6, 42, 64), 1, 1)), 30.0, 200.0, 1, 1) as u8] }),
    ("~embed 16x18, turned", false, || embv(turned(im(7, 16, 18)), rm::payload(0, 3), 30.0, 1)),
    ("~embed 16x18, mirrored", false, || embv(mirrored(im(7, 16, 18)), rm::payload(0, 3), 30.0, 1)),
    ("~embed 16x18, blocks exchanged", false, || embv(blocks(im(7, 16, 18), 2), rm::payload(0, 3), 30.0, 1)),
    ("~embed 16x18, the same values as 18x16", false, || embv(reshaped(im(7, 16, 18)), rm::payload(0, 3), 30.0, 1)),
    ("~embed 16x18, payload turned around", false, || embv(im(7, 16, 18), pay(0, 3, |v| v.reverse()), 30.0, 1)),
    ("~extract 16x18, turned", false, || ext(turned(stored(7, 16, 18, 0, 4, 30.0, 1)), 30.0, 1)),
    ("~extract 16x18, mirrored", false, || ext(mirrored(stored(7, 16, 18, 0, 4, 30.0, 1)), 30.0, 1)),
    ("~extract 16x18, blocks exchanged", false, || ext(blocks(stored(7, 16, 18, 0, 4, 30.0, 1), 2), 30.0, 1)),
    ("~extract 16x18, the same values as 18x16", false, || ext(reshaped(stored(7, 16, 18, 0, 4, 30.0, 1)), 30.0, 1)),
    ("~extract 16x18, bytes of the payload exchanged", false, || ext(rm::write_bytes(&im(7, 16, 18), &rm::stored(&pay(0, 4, |v| v.swap(1, 2)), 9), 30.0, 1), 30.0, 1)),
    ("~extract 16x18, one pixel far off", false, || { let mut a = stored(7, 16, 18, 0, 4, 30.0, 1); let v = &mut a[[2, 2]]; *v = if *v > 127 { *v - 60 } else { *v + 60 }; ext(a, 30.0, 1) }),
    ("~features 8x8 n=2, turned", false, || ft(turned(im(7, 8, 8)), 2)),
    ("~features 8x8 n=2, mirrored", false, || ft(mirrored(im(7, 8, 8)), 2)),
    ("~features 6x8 n=2, the same values as 8x6", false, || ft(reshaped(im(7, 6, 8)), 2)),
    ("~encode for 16, bytes turned around", false, || encoding::encode(pay(0, 5, |v| v.reverse()), 16)),
    ("~encode for 40, bytes turned around", false, || encoding::encode(pay(0, 5, |v| v.reverse()), 40)),
    ("~decode for 40, bytes exchanged", false, || encoding::decode(rm::code_encode(&pay(0, 5, |v| v.swap(0, 4)), 40), 40)),
    ("~quantize, features turned around", false, || q(&[-32.51, -26.024, 3.73, 1.12], 1.0)),
    ("~quantize, signs exchanged", false, || q(&[-1.12, -3.73, 26.024, 32.51], 1.0)),
    ("~restore, features turned around", false, || dq(&[-31.7, -26.9, 3.2, 1.9], B1, 1.0)),
    ("~wavelet forward 8x4, turned", false, || fl(&embedding::verif_hooks::dwt_2d(turned(im(7, 8, 4)).mapv(|v| v as f64), 1, false))),
    ("~wavelet forward, the same values as 4x8", false, || fl(&embedding::verif_hooks::dwt_2d(reshaped(im(7, 8, 4)).mapv(|v| v as f64), 1, false))),
    ("~watermark 42x64 n=1, turned", false, || wmc(turned(im(9, 42, 64)), 30.0, 1.0, 1, 1)),
    ("~watermark 42x64 n=1, the same values as 64x42", false, || wmc(reshaped(im(9, 42, 64)), 30.0, 1.0, 1, 1)),
    ("~authenticate turned", false, || vec![wh::authenticate_channel(&gray(&turned(im(9, 42, 64))), 30.0, 200.0, 1, 1) as u8]),
    ("~watermark, then authenticate with blocks exchanged", false, || { let o = wh::watermark_channel(&gray(&im(6, 42, 64)), 30.0, 200.0, 1, 1); let a = Array2::from_shape_vec([42, 64], o.into_raw()).unwrap(); vec![wh::authenticate_channel(&gray(&a), 30.0, 200.0, 1, 1) as u8, wh::authenticate_channel(&gray(&blocks(a.clone(), 2)), 30.0, 200.0, 1, 1) as u8, wh::authenticate_channel(&gray(&a), 30.0, 200.0, 1, 1) as u8] }),
    ("watermark 42x64 n=1", false, || wmc(im(9, 42, 64), 30.0, 1.0, 1, 1)),
    ("watermark 42x64 n=1 step 3", false, || wmc(im(9, 42, 64), 30.0, 3.0, 1, 1)),
    ("watermark 42x64 n=1, other image", false, || wmc(im(6, 42, 64), 30.0, 1.0, 1, 1)),
    ("watermark 64x42 n=1", false, || wmc(im(9, 64, 42), 30.0, 1.0, 1, 1)),
    ("watermark 80x80 n=4", false, || wmc(im(9, 80, 80), 20.0, 7.0, 4, 1)),
    ("watermark too small (refused)", false, || wmc(im(9, 32, 32), 20.0, 7.0, 2, 1)),
    ("watermark and authenticate 42x64", false, || { let o = wh::watermark_channel(&gray(&im(6, 42, 64)), 30.0, 200.0, 1, 1); vec![wh::authenticate_channel(&o, 30.0, 200.0, 1, 1) as u8, wh::authenticate_channel(&o, 23.0, 200.0, 1, 1) as u8] }),
    ("authenticate unmarked", false, || vec![wh::authenticate_channel(&gray(&im(9, 42, 64)), 30.0, 200.0, 1, 1) as u8]),
    ("authenticate empty", false, || vec![wh::authenticate_channel(&GrayImage::new(0, 0), 30.0, 200.0, 1, 1) as u8]),
    ("watermark a grey picture", false, || watermarking::watermark(DynamicImage::ImageLuma8(gray(&im(9, 208, 208))), 100.0, 1.0, 1).into_bytes()),
    ("watermark a colour picture", false, || watermarking::watermark(rgb([9, 6, 7]), 100.0, 1.0, 1).into_bytes()),
    ("watermark a colour picture, planes exchanged", false, || watermarking::watermark(rgb([7, 9, 6]), 100.0, 1.0, 1).into_bytes()),
    ("watermark too small a picture (refused)", false, || watermarking::watermark(DynamicImage::ImageLuma8(gray(&im(9, 16, 16))), 100.0, 1.0, 1).into_bytes()),
];
fn perform(i: usize) -> Vec<u8> {
    match guard(OPS[i].2) {
        Ok(v) => [vec![1], v].concat(),
        Err(_) => b"refused".to_vec(),
    }
}
static BASE: Mutex<Option<HashMap<usize, Vec<u8>>>> = Mutex::new(None);
/// the result of an operation in a process that did nothing else
fn alone(i: usize) -> Result<Vec<u8>, Fail> {
    let mut g = BASE.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if !m.contains_key(&i) {
        match in_fresh_process(|| perform(i)) {
            Some(b) => m.insert(i, b),
            None => return fail("crash", format!("'{}' alone ends its process", OPS[i].0)),
        };
    }
    Ok(m[&i].clone())
}
fn sequence(s: &[usize], x: &mut Ctx) -> R {
    let r = in_fresh_process(|| {
        let mut o = vec![];
        for i in s {
            let b = perform(*i);
            o.extend((b.len() as u32).to_le_bytes());
            o.extend(b);
        }
        o
    });
    let names = || s.iter().take(5).map(|i| OPS[*i].0).collect::<Vec<_>>().join("; ") + if s.len() > 5 { "; ..." } else { "" };
    let r = match r {
        Some(r) => r,
        None => return fail("crash", format!("the process ends during: {}", names())),
    };
    let mut o = 0;
    for (n, i) in s.iter().enumerate() {
        let len = u32::from_le_bytes(r[o..o + 4].try_into().unwrap()) as usize;
        let got = &r[o + 4..o + 4 + len];
        o += 4 + len;
        let want = alone(*i)?;
        if got != &want[..] {
            let p = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail("history", format!("call {} ('{}') of the history [{}] gives {} bytes, alone {} bytes; first difference at byte {}", n, OPS[*i].0, names(), got.len(), want.len(), p));
        }
        x.step(1);
    }
    x.state(&s);
    x.validated();
    Ok(())
}
/// families of calls with very many different arguments: what is kept for a few of them, and thrown
/// out or mixed up when there are more, shows in their histories. (name, light, body)
static FAMILIES: &[(&str, bool, fn(usize) -> Vec<u8>)] = &[
    ("embed images of many shapes", true, |i| emb(im(7, 6 + 2 * (i % 17), 24 + 2 * (i / 17)), 0, 1, 30.0, 1)),
    ("embed many payloads", true, |i| embv(im(7, 16, 18), vec![i as u8, (i >> 8) as u8], 30.0, 1)),
    ("embed with many depths", true, |i| emb(im(7, 16, 18), 0, 2, 20.0 + i as f64 / 16.0, 1)),
    ("embed many payloads (LDPC)", true, |i| embv(im(7, 16, 32), vec![i as u8, (i >> 8) as u8], 30.0, 1)),
    ("embed many images", true, |i| emb(ch(ch(im(7, 16, 18), i % 16, i / 16 % 18), 3 + i / 288 % 9, 5), 0, 3, 30.0, 1)),
    ("extract many payloads", true, |i| ext(rm::write_bytes(&im(7, 16, 18), &rm::stored(&[i as u8, (i >> 8) as u8, 9], 9), 30.0, 1), 30.0, 1)),
    ("extract from many shapes", true, |i| ext(stored(7, 6 + 2 * (i % 17), 24 + 2 * (i / 17), 0, 1, 30.0, 1), 30.0, 1)),
    ("encode for many capacities", true, |i| encoding::encode(rm::payload(0, 5), 9 + i)),
    ("encode many lengths", true, |i| encoding::encode(rm::payload(0, i), 32)),
    ("decode many contents", true, |i| encoding::decode(rm::code_encode(&[i as u8, (i >> 8) as u8, 7], 64), 64)),
    ("decode for many capacities", true, |i| encoding::decode(rm::code_encode(&rm::payload(0, 5), 9 + i), 9 + i)),
    ("features of many images", true, |i| ft(ch(ch(im(7, 8, 8), i % 8, i / 8 % 8), (1 + i) % 8, (i / 64) % 8), 2)),
    ("features of many shapes", true, |i| ft(im(7, 2 + i % 17, 2 + i / 17), 1 + i % 3)),
    ("many numbers of features", false, |i| ft(im(7, 3, 4), 1 + i % 12)),
    ("moments of many kinds", true, |i| { use moments::MomentFeaturesCalculator; let n = i % 24; let m = n % 2 + 2 * (i / 24 % (n / 2 + 1)); let c = zernike::ZernikeFeaturesCalculator {}.calculate_moment(&im(9, 6, 7), m, n); [c.re.to_bits().to_le_bytes(), c.im.to_bits().to_le_bytes()].concat() }),
    ("quantize with many steps", true, |i| q(F1, 0.1 + i as f64 / 32.0)),
    ("quantize many vectors", true, |i| q(&[i as f64 / 8.0, -3.5, i as f64], 1.0)),
    ("restore with many steps", true, |i| dq(F2, B1, 0.1 + i as f64 / 32.0)),
    ("restore many vectors", true, |i| dq(&[i as f64 / 8.0, -3.5, i as f64, 0.1], B1, 1.0)),
    ("sign many data", true, |i| sg(&[i as u8, (i >> 8) as u8, 3], 0)),
    ("sign data of many lengths", true, |i| sg(&vec![7; i], 1)),
    ("generate many key pairs and sign", true, |i| { let (k, _) = sys::with_entropy((0..32).map(|b| rm::mix(b, i as u64, 5) as u8).collect(), 0, signature::verif_hooks::generate); let s = signature::sign(&vec![1, 2, 3], &k.0, &k.1); let v = signature::verify(&vec![1, 2, 3], &s, &k.1); [(k.0 + &k.1).into_bytes(), s, vec![v as u8]].concat() }),
    ("verify many data", true, |i| [vf(&[i as u8, (i >> 8) as u8], sg(&[i as u8, (i >> 8) as u8], 0), 0), vf(&[i as u8 ^ 1, (i >> 8) as u8], sg(&[i as u8, (i >> 8) as u8], 0), 0)].concat()),
    ("write many records", true, |i| rec(&B1[..i % 13], vec![i as u8; i / 13 % 40], "text")),
    ("read many records", true, |i| rd(&[3, 2, 1, 5 ^ (i as u8 & 7), (i >> 3) as u8, 9, b'a' + (i >> 11) as u8, 0])),
    ("pack many bit strings", true, |i| three_bit_quantization::perturbation_vector_as_bytes(&bv(&(0..i % 40).map(|j| rm::mix(i as u64, j as u64, 1) & 1 == 1).collect::<Vec<_>>()))),
    ("unpack many lengths", true, |i| three_bit_quantization::perturbation_vector_from_bytes(&rm::payload(5, 200), i).iter().map(|b| *b as u8).collect()),
    ("wavelets of many shapes", true, |i| { let a = im(7, 2 + 2 * (i % 16), 2 + 2 * (i / 16)).mapv(|v| v as f64); [fl(&embedding::verif_hooks::dwt_2d(a.clone(), 1, false)), fl(&embedding::verif_hooks::dwt_2d(a, 1, true))].concat() }),
    ("convert many integers", true, |i| utils::bytes::vec_i64_to_bytes(&vec![i as i64, -(i as i64), (i as i64) << 40])),
    ("hexadecimal texts", true, |i| { let h = utils::format::encode_hex(&[i as u8, (i >> 8) as u8, 0xA0]); [utils::format::decode_hex(&h).unwrap(), h.into_bytes()].concat() }),
    ("watermark many channels", false, |i| wmc(ch(im(9, 42, 64), i % 42, i / 42), 30.0, 1.0, 1, 1)),
    ("watermark channels of many shapes", false, |i| wmc(im(9, 52 + 2 * (i % 7), 52 + 2 * (i / 7)), 30.0, 1.0, 1, 1)),
    ("authenticate many channels", false, |i| { let o = wh::watermark_channel(&gray(&ch(im(6, 42, 64), i % 42, i / 42)), 30.0, 200.0, 1, 1); let mut p = o.clone(); p.put_pixel(3, 3, image::Luma([255 - o.get_pixel(3, 3).0[0]])); vec![wh::authenticate_channel(&o, 30.0, 200.0, 1, 1) as u8, wh::authenticate_channel(&p, 30.0, 200.0, 1, 1) as u8] }),
];
fn family(f: usize, i: usize) -> Vec<u8> {
    match guard(|| FAMILIES[f].2(i)) {
        Ok(v) => [vec![1], v].concat(),
        Err(_) => b"refused".to_vec(),
    }
}
fn many(f: usize, n: usize, x: &mut Ctx) -> R {
    let mut want = vec![];
    for i in 0..n {
        match in_fresh_process(|| family(f, i)) {
            Some(b) => want.push(b),
            None => return fail("crash", format!("'{}', number {}, alone ends its process", FAMILIES[f].0, i)),
        }
    }
    ensure!(want.iter().any(|w| w != b"refused"), "refused", "every call of '{}' is refused", FAMILIES[f].0);
    let mut orders: Vec<(&str, Vec<usize>)> = vec![("upwards, downwards, upwards", (0..n).chain((0..n).rev()).chain(0..n).collect())];
    orders.push(("each followed by its predecessors at distance 1, 8, 64", (0..n).flat_map(|i| [i, i.saturating_sub(1), i.saturating_sub(8), i.saturating_sub(64)]).collect()));
    orders.push(("the first one between all others", (0..n).flat_map(|i| [i, 0]).collect()));
    let mut stride: Vec<usize> = (0..n).map(|i| i * 7 % n.max(1)).collect();
    stride.extend((0..n).map(|i| i * 17 % n.max(1)));
    orders.push(("in strides of 7 and 17", stride));
    for (name, o) in orders {
        let r = match in_fresh_process(|| {
            for (k, i) in o.iter().enumerate() {
                let b = family(f, *i);
                if b != want[*i] {
                    return (k as u64 + 1).to_le_bytes().to_vec();
                }
            }
            0u64.to_le_bytes().to_vec()
        }) {
            Some(r) => u64::from_le_bytes(r[..8].try_into().unwrap()) as usize,
            None => return fail("crash", format!("the process ends during '{}' {}", FAMILIES[f].0, name)),
        };
        ensure!(r == 0, "history", "'{}' {}: call {} (number {} of the family) differs from the call alone", FAMILIES[f].0, name, r - 1, o[r - 1]);
        x.step(o.len() as u64);
        x.validated();
        x.state(&(f, name));
    }
    x.outcome("a family of calls");
    Ok(())
}
// ---------------------------------------------------------------- C27
// [7, a, n]: a n times;  [6, f, n]: a family of n calls in several orders; [0, a]: alone, twice; [1, a, b]: the sequence a b; [2, a, b]: a b c for every light c;
// [3, a]: a many times, then everything; [4, k]: all operations in rotated / reversed order
fn variant(a: i64) -> bool {
    OPS[a as usize].0.starts_with('~')
}
fn c27_cases(t: Tier) -> Vec<Case> {
    let n = OPS.len() as i64;
    let mut v = vec![];
    for (f, g) in FAMILIES.iter().enumerate() {
        v.push(vec![6, f as i64, if g.1 { t.pick(300, 1500) } else { t.pick(40, 160) }]);
    }
    for a in LONG {
        v.push(vec![7, OPS.iter().position(|o| o.0 == *a).unwrap() as i64, t.pick(66_000, 400_000)]);
    }
    for a in 0..n {
        v.push(vec![0, a]);
        v.push(vec![3, a]);
        v.push(vec![4, a, 0]);
        v.push(vec![4, a, 1]);
        for b in 0..n {
            v.push(vec![1, a, b]);
            if OPS[a as usize].1 && OPS[b as usize].1 {
                v.push(vec![2, a, b]);
            } else if t == Tier::Thorough && !variant(a) && !variant(b) {
                v.push(vec![5, a, b]);
            }
        }
    }
    v
}
/// very short operations, repeated beyond what 16 bits can count
const LONG: &[&str] = &["embed 16x18 level 1 depth 30", "extract 16x18", "encode 5 bytes for 16", "decode for 16 with an error", "features 8x8 n=2", "quantize", "restore", "unpack 12 bits", "sign a with key 0", "verify a", "read a record", "write a record", "convert integers", "wavelet forward 8x4"];
fn c27_show(k: &Case) -> String {
    let o = |i: usize| OPS[k[i] as usize].0;
    match k[0] {
        7 => format!("'{}' {} times", o(1), k[2]),
        6 => format!("{} calls '{}' in several orders", k[2], FAMILIES[k[1] as usize].0),
        0 => format!("'{}' twice", o(1)),
        1 => format!("'{}' then '{}'", o(1), o(2)),
        2 => format!("'{}' then '{}' then each light operation", o(1), o(2)),
        3 => format!("'{}' many times, then every operation", o(1)),
        4 => format!("all operations from '{}' on, {}", o(1), if k[2] == 0 { "upwards" } else { "downwards" }),
        _ => format!("'{}' then '{}' then each operation", o(1), o(2)),
    }
}
fn c27_run(k: &Case, x: &mut Ctx) -> R {
    let n = OPS.len();
    match k[0] {
        6 => many(k[1] as usize, k[2] as usize, x)?,
        7 => {
            let a = k[1] as usize;
            let want = alone(a)?;
            let r = in_fresh_process(|| {
                for i in 0..k[2] as u64 {
                    if perform(a) != want {
                        return (i + 1).to_le_bytes().to_vec();
                    }
                }
                vec![0; 8]
            });
            let r = match r {
                Some(r) => u64::from_le_bytes(r[..8].try_into().unwrap()),
                None => return fail("crash", format!("the process ends during many calls of '{}'", OPS[a].0)),
            };
            ensure!(r == 0, "history", "call {} of '{}' in a row differs from the first", r, OPS[a].0);
            x.step(k[2] as u64);
            x.validated();
            x.state(&k);
            x.outcome("more than 65536 repetitions");
        }
        0 => {
            let a = k[1] as usize;
            sequence(&[a, a], x)?;
            let r = alone(a)?;
            x.outcome(if r == b"refused" { "refused operation" } else { "answered operation" });
            if OPS[a].0.contains("(refused)") {
                ensure!(r == b"refused", "not-refused", "'{}' is not refused", OPS[a].0);
            } else {
                ensure!(r != b"refused", "refused", "'{}' is refused", OPS[a].0);
            }
        }
        1 => {
            sequence(&[k[1] as usize, k[2] as usize], x)?;
            x.outcome("two operations");
        }
        2 => {
            for c in 0..n {
                if OPS[c].1 {
                    sequence(&[k[1] as usize, k[2] as usize, c], x)?;
                }
            }
            x.outcome("three operations");
        }
        3 => {
            let reps = if OPS[k[1] as usize].1 { x.tier.pick(300, 3000) } else { x.tier.pick(10, 70) };
            let mut s = vec![k[1] as usize; reps];
            s.extend(0..n);
            sequence(&s, x)?;
            x.outcome("many repetitions");
        }
        4 => {
            let s: Vec<usize> = (0..n).map(|i| if k[2] == 0 { (k[1] as usize + i) % n } else { (k[1] as usize + n - i) % n }).collect();
            sequence(&s, x)?;
            x.outcome("all operations in one history");
        }
        _ => {
            for c in 0..n {
                if OPS[c].1 || OPS[c].0.contains("42") {
                    sequence(&[k[1] as usize, k[2] as usize, c], x)?;
                }
            }
            x.outcome("three operations, heavy ones included");
        }
    }
    x.sample(|| c27_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C28
// [a, b, first]: every schedule with up to the bound of preemptions
fn body(i: usize) -> Vec<u8> {
    perform(i)
}
/// schedules with two preemptions only switch at accesses to shared memory and system calls
struct Ran {
    results: Vec<Vec<u8>>,
    steps: Vec<u64>,
    switches: u64,
    lost: bool,
}
fn run_schedule(args: &[usize], first: i32, pre: &[(i32, i64, i32)], shared_only: bool) -> Option<Ran> {
    let r = in_fresh_process(|| {
        sys::SHARED_ONLY.store(shared_only, std::sync::atomic::Ordering::SeqCst);
        let o = sys::run_threads(first, pre, body, args);
        let mut v = (o.lost_control as u64).to_le_bytes().to_vec();
        v.extend(o.switches.to_le_bytes());
        for n in &o.steps {
            v.extend(n.to_le_bytes());
        }
        for r in &o.results {
            v.extend((r.len() as u64).to_le_bytes());
        }
        for r in &o.results {
            v.extend(r);
        }
        v
    })?;
    let n = |i: usize| u64::from_le_bytes(r[8 * i..8 * i + 8].try_into().unwrap());
    let t = args.len();
    let mut at = 8 * (2 + 2 * t);
    let results = (0..t)
        .map(|i| {
            let l = n(2 + t + i) as usize;
            at += l;
            r[at - l..at].to_vec()
        })
        .collect();
    Some(Ran { results, steps: (0..t).map(|i| n(2 + i)).collect(), switches: n(1), lost: n(0) != 0 })
}
const CONC: &[&str] = &[
    "embed 16x18 level 1 depth 30",
    "embed the same, depth 20",
    "embed 18x16",
    "embed 16x32 level 1 (LDPC)",
    "embed too much (refused)",
    "extract 16x18",
    "extract 16x32 (LDPC)",
    "encode 5 bytes for 16",
    "decode for 16 with an error",
    "decode garbage",
    "features 8x8 n=2",
    "features 8x8 n=3",
    "features 6x8 n=2",
    "quantize",
    "restore",
    "unpack 12 bits",
    "sign a with key 0",
    "sign a with key 1",
    "verify a",
    "read a record",
    "write a record",
    "convert integers",
    "watermark 42x64 n=1",
    "watermark 64x42 n=1",
    "watermark 42x64 n=1, other image",
    "watermark and authenticate 42x64",
    "authenticate unmarked",
    "wavelet forward 8x4",
];
fn conc(i: usize) -> usize {
    OPS.iter().position(|o| o.0 == CONC[i]).unwrap()
}
fn c28_cases(t: Tier) -> Vec<Case> {
    let n = CONC.len() as i64;
    let mut v = vec![];
    // (a, b), preempting thread `first`, slice of the preemption points
    let slices = t.pick(4, 16);
    for a in 0..n {
        for b in a..n {
            for first in 0..2 {
                if a == b && first == 1 {
                    continue;
                }
                for s in 0..slices {
                    v.push(vec![a, b, first, s, slices, 1]);
                    v.push(vec![a, b, first, s, slices, 2]);
                }
            }
        }
    }
    // three threads: calls of one kind
    for g in GROUPS {
        for a in g.clone() {
            for b in g.clone() {
                for c in b..g.end {
                    v.push(vec![a, b, c, t.pick(150, 2500), 0, 3]);
                }
            }
        }
    }
    v
}
const GROUPS: &[std::ops::Range<i64>] = &[0..4, 5..7, 7..10, 10..13, 13..16, 16..19, 19..22, 22..26, 27..28];
fn c28_show(k: &Case) -> String {
    if k[5] == 3 {
        return format!("'{}', '{}' and '{}' in three threads, the first two stopped once each while the next one starts", CONC[k[0] as usize], CONC[k[1] as usize], CONC[k[2] as usize]);
    }
    format!("'{}' in thread 0 and '{}' in thread 1, starting with thread {}, schedules with {} preemption(s), slice {} of {}", CONC[k[0] as usize], CONC[k[1] as usize], k[2], k[5], k[3], k[4])
}
fn c28_run(k: &Case, x: &mut Ctx) -> R {
    let three = k[5] == 3;
    let args: Vec<usize> = if three { vec![conc(k[0] as usize), conc(k[1] as usize), conc(k[2] as usize)] } else { vec![conc(k[0] as usize), conc(k[1] as usize)] };
    let (a, b) = (args[0], args[1]);
    let first = if three { 0 } else { k[2] as i32 };
    let want: Vec<Vec<u8>> = args.iter().map(|a| alone(*a)).collect::<Result<_, _>>()?;
    let mut one = |pre: &[(i32, i64, i32)], shared: bool, x: &mut Ctx| -> Result<Vec<u64>, Fail> {
        let what = || format!("schedule starting with thread {}, preempted at (thread, step, next thread) {:?}{}", first, pre, if shared { " (counting accesses to shared memory and system calls only)" } else { "" });
        let r = match run_schedule(&args, first, pre, shared) {
            Some(r) => r,
            None => return fail("stuck", format!("the process with the calls dies or waits forever under the {}", what())),
        };
        x.step(r.steps.iter().sum());
        if r.lost {
            x.count("schedules given up (no verdict)", 1);
        }
        for (i, g) in r.results.iter().enumerate() {
            ensure!(*g == want[i], "disturbed", "thread {} ('{}') gets {} under the {}", i, OPS[args[i]].0, if g == b"refused" { "a failure" } else { "another result than alone" }, what());
        }
        x.validated();
        x.state(&(&args, first, pre, shared));
        x.maximum("switches in one schedule", r.switches);
        x.count("schedules", 1);
        Ok(r.steps)
    };
    if three {
        // the first thread is stopped at each of its points, the second one then at each of its, then
        // the third one runs; over the limit of products the points of the second one are thinned out
        let n = one(&[], true, x)?;
        let (n0, n1) = (n[0] as i64, n[1] as i64);
        let lim = k[3];
        let s0 = (n0 + lim - 1) / lim;
        let s1 = (n1 * ((n0 + s0 - 1) / s0.max(1)) + lim - 1) / lim;
        let mut p = 0;
        let mut turn = 0;
        while p < n0 {
            let mut q = turn % s1.max(1);
            while q < n1 {
                one(&[(0, p, 1), (1, q, 2)], true, x)?;
                q += s1.max(1);
            }
            p += s0.max(1);
            turn += 1;
        }
        x.outcome(if s0 > 1 || s1 > 1 { "three threads, points thinned out" } else { "three threads" });
        x.sample(|| c28_show(k));
        return Ok(());
    }
    let (slice, slices) = (k[3], k[4]);
    let heavy = !OPS[a].1 || !OPS[b].1;
    if k[5] == 1 {
        let n = one(&[], false, x)?[first as usize] as i64;
        x.maximum("scheduling points of one call", n as u64);
        // long calls: the quick tier visits every point which touches shared memory or the system
        let s = if n > x.tier.pick(1500, 20000) { one(&[], true, x)?[first as usize] as i64 } else { 0 };
        let (n, shared) = if s > 0 { (s, true) } else { (n, false) };
        let mut p = slice;
        while p < n {
            one(&[(first, p, 1 - first)], shared, x)?;
            p += slices;
        }
        x.outcome(if shared { "one preemption, at shared accesses" } else { "one preemption, everywhere" });
    } else {
        // two preemptions: out of the first thread and, later, out of the second
        let n = one(&[], true, x)?;
        let (n0, n1) = (n[first as usize] as i64, n[1 - first as usize] as i64);
        let lim = if heavy { x.tier.pick(0, 60_000) } else { x.tier.pick(900, 60_000) };
        if n0 * n1 > lim {
            x.count("pairs with more than the limit of two-preemption schedules (not visited)", 1);
            return Ok(());
        }
        for p in 0..n0 {
            for r in 0..n1 {
                if (p * n1 + r) % slices == slice {
                    one(&[(first, p, 1 - first), (1 - first, r, first)], true, x)?;
                }
            }
        }
        x.outcome("two preemptions");
    }
    x.sample(|| c28_show(k));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C27",
            rule: "All sequences of one and two operations of the whole alphabet, all of three light operations, 300 (3000) repetitions followed by every operation, all rotations of the whole alphabet in both directions, and families of hundreds of calls with different arguments in four orders; each in a fresh process, every result compared with the operation alone in a fresh process. Refused (panicking) operations are part of the alphabet.",
            cases: c27_cases,
            run: c27_run,
            describe: c27_show,
            bounds: |t| json!({"operations": OPS.len(), "names": OPS.iter().map(|o| o.0).collect::<Vec<_>>(), "families": FAMILIES.iter().map(|o| o.0).collect::<Vec<_>>(), "calls_per_family": t.pick("300, heavy ones 40", "1500, heavy ones 160"), "depth": "2 (all), 3 (light operations)", "repetitions": t.pick("300; 66000 of 14 short operations", "3000; 400000 of 14 short operations")}),
            assumptions: &["state that outlives the process (files) is covered by the command line checks only"],
            timeout: 300,
            min_outcomes: 6,
        },
        Check {
            id: "C28",
            rule: "Every pair of operations in two threads under a cooperative scheduler: every schedule with one preemption at every scheduling point (global memory access of the library's code, allocation, lock wait, write), and two preemptions at shared accesses where their number allows; every triple of operations of one kind in three threads of which two are stopped once each; each schedule in a fresh process, both results compared with the calls alone; a deadlock or a dead process is a violation.",
            cases: c28_cases,
            run: c28_run,
            describe: c28_show,
            bounds: |t| json!({"operations": CONC, "threads": "2; 3 for calls of one kind", "preemptions": "1 (all points), 2 (shared accesses)", "points": "loads and stores of global variables in the library's crates (compiler instrumentation), allocations, futex waits, writes", "limit_two": t.pick(900, 60000)}),
            assumptions: &["sequentially consistent memory; two threads, three with one stop each for calls of one kind", "the calls do not share arguments"],
            timeout: 900,
            min_outcomes: 2,
        },
    ]
}
