//! C08, C09: the error-correcting coding layer.
use crate::c_embed::{do_embed, do_extract, short, Cfg};
use crate::engine::*;
use crate::rm;
use serde_json::json;

fn enc(p: &[u8], cap: usize) -> Result<Vec<u8>, String> {
    guard(|| encoding::encode(p.to_vec(), cap))
}
fn dec(p: &[u8], cap: usize) -> Result<Vec<u8>, String> {
    guard(|| encoding::decode(p.to_vec(), cap))
}
fn fillers(n: usize) -> Vec<(usize, u8)> {
    let mut v = vec![(0, 0), (1, 0), (1, 255), (2, 0x55), (7, 1)];
    for l in [n - 1, n, n + 1, 2 * n, 3 * n + 5] {
        for b in [0, 255, 0xA5] {
            v.push((l, b));
        }
    }
    v
}
// case: [cap, len, pattern, all_fillers]
fn c08_cases(t: Tier) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let caps = [16i64, 32, 64, 128, 256, 512, 1024, 40];
    for cap in caps {
        for len in 0..=t.pick(340, 700) {
            for pattern in [0, 5] {
                v.push(vec![cap, len, pattern, (len < 80 && cap != 1024) as i64]);
            }
        }
    }
    // code choice for every capacity
    for cap in (1..=t.pick(1100, 2200)).chain([4095, 4096, 5000, 8191, 8192, 65535, 65536, 100000, 1 << 20]) {
        for len in [0, 1, 6, 7, 30, 31] {
            v.push(vec![cap, len, 5, 0]);
        }
    }
    for cap in [16i64, 32, 64, 128, 256, 512, 1024, 2048, 40, 4000] {
        let (k, _) = rm::kn(cap as usize).unwrap_or((256, 0));
        for w in t.pick(vec![1, 2, 3, 4, 5, 8, 16, 31], (1..40).collect::<Vec<_>>()) {
            for d in -4i64..=3 {
                v.push(vec![cap, (w * k as i64 + d).max(0), 0, 1]);
            }
        }
        for len in [65535i64, 65534, 65533, 32768, 32767, 65280, 65279, 256, 255, 254, 253] {
            v.push(vec![cap, len, 5, 0]);
        }
        for len in [65536i64, 65537, 65540, 70000, 131072] {
            v.push(vec![cap, len, 5, 2]);
        }
    }
    for b in 0..256 {
        for len in 1..=4 {
            for cap in caps {
                v.push(vec![cap, len, 100 + b, 0]);
            }
        }
    }
    for hi in 0..256 {
        v.push(vec![16, -1, hi, 0]); // all two-byte contents with this first byte
        v.push(vec![40, -1, hi, 0]);
        v.push(vec![1, -1, hi, 0]);
    }
    // every value at every place, runs at both ends
    for cap in t.pick(vec![16i64, 32, 40, 1], vec![16i64, 32, 64, 40, 1]) {
        let len = match cap { 16 => 14, 32 => 22, _ => 34 };
        for base in 0..t.pick(1, 3) {
            for n in 0..256 * len {
                v.push(vec![cap, len, 10_000 + base * 65536 + n, 0]);
            }
        }
        for kind in 0..rm::RUNS as i64 {
            for n in 1..=len {
                v.push(vec![cap, len, 3_000_000 + kind * 10_000 + n, 0]);
            }
        }
    }
    for kind in 0..rm::RUNS as i64 {
        for len in [300i64, 520] {
            for n in [1, 2, 3, 16, 17, 255, 256, 257, 298, 299, 300] {
                for cap in [16i64, 64, 256, 1024, 40] {
                    v.push(vec![cap, len, 3_000_000 + kind * 10_000 + n, 0]);
                }
            }
        }
    }
    v
}
fn c08_show(k: &Case) -> String {
    format!("capacity {} bytes, {} data bytes of pattern {}{}", k[0], k[1], k[2], match k[3] { 0 => "", 1 => ", all trailing fillers", _ => ", must be refused" })
}
fn content(pattern: i64, len: usize) -> Vec<u8> {
    rm::content(pattern as usize, len)
}
fn c08_one(p: &[u8], cap: usize, fill: &[(usize, u8)], x: &mut Ctx) -> R {
    let e = match enc(p, cap) {
        Ok(e) => e,
        Err(m) => return fail("encode-fails", format!("encoding {} bytes fails: {}", p.len(), m)),
    };
    ensure!(e.len() == rm::encoded_len(p.len(), cap), "size", "{} bytes are encoded to {} instead of {}", p.len(), e.len(), rm::encoded_len(p.len(), cap));
    x.state(&(cap, &e));
    for (l, b) in fill {
        let mut s = e.clone();
        s.extend((0..*l).map(|i| if *b == 0xA5 { rm::mix(3, i as u64, 9) as u8 } else { *b }));
        x.step(1);
        match dec(&s, cap) {
            Ok(d) => ensure!(d == p, "round-trip", "{} with {} trailing bytes {:#x} is decoded to {}", short(p), l, b, short(&d)),
            Err(m) => return fail("decode-fails", format!("decoding {} with {} trailing bytes {:#x} fails: {}", short(p), l, b, m)),
        }
        x.validated();
    }
    Ok(())
}
fn c08_run(k: &Case, x: &mut Ctx) -> R {
    let cap = k[0] as usize;
    if k[1] == -1 {
        for lo in 0..=255u8 {
            c08_one(&[k[2] as u8, lo], cap, &[(0, 0)], x)?;
        }
        x.outcome("all two-byte contents");
        return Ok(());
    }
    let p = content(k[2], k[1] as usize);
    if k[3] == 2 {
        x.step(1);
        x.state(&k);
        if let Ok(e) = enc(&p, cap) {
            return fail("accepted-oversize", format!("{} bytes, more than a header can tell, are encoded to {} bytes", p.len(), e.len()));
        }
        x.outcome("refused");
        x.validated();
        return Ok(());
    }
    let n = rm::kn(cap).map(|a| a.1).unwrap_or(16);
    let f = if k[3] == 1 { fillers(n) } else { vec![(0, 0), (n, 255)] };
    c08_one(&p, cap, &f, x)?;
    x.outcome(&format!("code word {:?}", rm::kn(cap)));
    x.sample(|| c08_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C09
// case: [kind, cap, len, pattern, a, b]
// kind 0: flip bit a..b of word 0 one at a time; kind 1: two words, bit a of word 0 with every bit in a stride of word 1;
// kind 2: all words at once, bit (a+i*7) of word i; kind 3: end to end, block flips
fn c09_cases(t: Tier) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for cap in [16usize, 32, 64, 128, 256, 512, 1024, 2048] {
        let (k, n) = rm::kn(cap).unwrap();
        let bits = n * 8;
        let chunk = if n >= 1024 { 64 } else { 128 };
        for (len, pattern) in if n >= 1024 { vec![(300, 5)] } else { vec![(k - 2, 5), (k - 2, 1), (k - 2, 2), (1, 0), (0, 0)] } {
            if cap == 2048 && t == Tier::Quick {
                continue;
            }
            for a in (0..bits).step_by(chunk) {
                v.push(vec![0, cap as i64, len as i64, pattern, a as i64, (a + chunk) as i64]);
            }
        }
        if n < 1024 {
            // one error in each of two words
            let step = match n {
                16 => 1,
                32 => t.pick(2, 1),
                64 => t.pick(8, 1),
                _ => t.pick(64, 8),
            };
            for a in (0..bits).step_by(step) {
                v.push(vec![1, cap as i64, (2 * k - 2) as i64, 5, a as i64, step as i64]);
            }
        }
        // one error in every word
        for a in (0..bits).step_by(match n { 1024 => t.pick(512, 64), 256 => t.pick(32, 4), _ => 1 }) {
            v.push(vec![2, cap as i64, (5 * k - 2) as i64, 0, a as i64, 0]);
        }
    }
    // every capacity with a code
    for cap in (0..=t.pick(1100i64, 2200)).chain([4095, 4096, 5000, 8191, 8192, 65535, 65536, 65537, 100000, 131072, 1 << 20, 1 << 24, 1 << 40]).filter(|c| rm::kn(*c as usize).is_some()) {
        let (k, n) = rm::kn(cap as usize).unwrap();
        for len in [1, k as i64 - 2, 3 * k as i64 - 2] {
            if n >= 1024 && cap % t.pick(16, 4) > 1 && len > 1 {
                continue;
            }
            for a in [0, n as i64 * 4 + 3, n as i64 * 8 - 1] {
                v.push(vec![2, cap, len, 5, a, 0]);
            }
        }
    }
    // end to end: r, c, levels are derived from the capacity
    for (r, c, l) in [(8, 16, 1), (8, 16, 2), (16, 16, 1), (16, 32, 1), (32, 32, 1), (32, 32, 3), (32, 64, 1), (64, 64, 1), (64, 128, 1), (128, 128, 1)] {
        let bits = rm::kn(rm::cap(r, c)).unwrap().1 * 8;
        let step = match bits {
            128 | 256 => 1,
            512 => t.pick(4, 1),
            2048 => t.pick(64, 8),
            _ => t.pick(1024, 128),
        };
        for a in (0..bits).step_by(step) {
            v.push(vec![3, r as i64, c as i64, l, a as i64, 0]);
        }
    }
    v
}
fn c09_show(k: &Case) -> String {
    match k[0] {
        0 => format!("capacity {}, {} data bytes (pattern {}), each single bit {}..{} of the first codeword flipped", k[1], k[2], k[3], k[4], k[5]),
        1 => format!("capacity {}, {} data bytes, bit {} of the first and every {}th bit of the second codeword flipped", k[1], k[2], k[4], k[5]),
        2 => format!("capacity {}, {} data bytes, one bit of every codeword flipped, starting at {}", k[1], k[2], k[4]),
        _ => format!("image of {}x{} coefficients, levels {}, one block of every codeword flipped, starting at {}", k[1], k[2], k[3], k[4]),
    }
}
fn flip(e: &mut [u8], bit: usize) {
    e[bit / 8] ^= 1 << (bit % 8);
}
fn c09_run(k: &Case, x: &mut Ctx) -> R {
    if k[0] == 3 {
        let (r, c, l) = (k[1] as usize, k[2] as usize, k[3] as usize);
        let cap = rm::cap(r, c);
        let cfg = Cfg { r, c, l, depth_m: if l == 3 { 100000 } else { 60000 }, family: 9, pattern: 5, len: rm::max_payload(cap).unwrap() };
        let (img, p) = (cfg.image(), cfg.payload());
        let mut e = match do_embed(&img, &p, cfg.depth(), l) {
            Ok(e) => e,
            Err(m) => return fail("embed-fails", m),
        };
        let n = rm::kn(cap).unwrap().1;
        let s = 1usize << l;
        let shift = (cfg.depth() / 2.0 / s as f64).round() as i64; // half a depth: the opposite bit
        let before = rm::read_bytes(&e, cfg.depth(), l);
        let words = rm::stored(&p, cap).len() / n;
        for w in 0..words {
            let bit = w * n * 8 + (k[4] as usize + 37 * w) % (n * 8);
            let (by, bx) = (bit / c * s, bit % c * s);
            let up = (0..s * s).all(|i| e[[by + i / s, bx + i % s]] as i64 + shift <= 255);
            for i in 0..s * s {
                let q = &mut e[[by + i / s, bx + i % s]];
                *q = (*q as i64 + if up { shift } else { -shift }) as u8;
            }
        }
        let after = rm::read_bytes(&e, cfg.depth(), l);
        let flipped = rm::bits(&before).iter().zip(rm::bits(&after)).filter(|(a, b)| **a != *b).count();
        assert!(flipped == words, "harness: {} blocks flipped instead of {}", flipped, words);
        x.step(2);
        x.state(&e.iter().cloned().collect::<Vec<u8>>());
        match do_extract(&e, cfg.depth(), l) {
            Ok(g) => ensure!(g == p, "uncorrected", "{} flipped blocks, one per codeword, turn {} into {}", words, short(&p), short(&g)),
            Err(m) => return fail("extract-fails", format!("{} flipped blocks, one per codeword, make extraction fail: {}", words, m)),
        }
        x.validated();
        x.outcome(&format!("end to end {} words of {:?}", words, rm::kn(cap).unwrap()));
        return Ok(());
    }
    let (cap, len) = (k[1] as usize, k[2] as usize);
    let p = rm::payload(k[3] as usize, len);
    let n = rm::kn(cap).unwrap().1;
    let e = match enc(&p, cap) {
        Ok(e) => e,
        Err(m) => return fail("encode-fails", m),
    };
    let mut check = |f: &[usize], x: &mut Ctx| -> R {
        let mut s = e.clone();
        for b in f {
            flip(&mut s, *b);
        }
        x.step(1);
        x.state(&(cap, f.to_vec(), len, k[3]));
        match dec(&s, cap) {
            Ok(d) => ensure!(d == p, "uncorrected", "with the bits {:?} flipped {} is decoded to {}", f, short(&p), short(&d)),
            Err(m) => return fail("decode-fails", format!("with the bits {:?} flipped decoding fails: {}", f, m)),
        }
        x.validated();
        Ok(())
    };
    match k[0] {
        0 => {
            for b in k[4]..k[5] {
                check(&[b as usize], x)?;
            }
        }
        1 => {
            for b in (0..n * 8).step_by(k[5] as usize) {
                check(&[k[4] as usize, n * 8 + b], x)?;
            }
        }
        _ => {
            let f: Vec<usize> = (0..e.len() / n).map(|w| w * n * 8 + (k[4] as usize + 7 * w) % (n * 8)).collect();
            check(&f, x)?;
        }
    }
    x.outcome(&format!("kind {} {:?}", k[0], rm::kn(cap).unwrap()));
    x.sample(|| c09_show(k));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C08",
            rule: "Every length up to the bound for each code class, every capacity up to the bound, all codeword boundaries and the 16-bit limit; contents and trailing fillers from an alphabet; encode then decode with the real code and compare.",
            cases: c08_cases, run: c08_run, describe: c08_show,
            bounds: |t| json!({"lengths": t.pick("all 0..340 for 8 capacities", "all 0..700 for 8 capacities"), "capacities": t.pick("all 1..1100", "all 1..2200"), "contents": "all two-byte contents, every value at every place of three lengths, runs at both ends", "trailing": "up to 20 fillers, 0 to 3 codewords long"}),
            assumptions: &["payload contents: 8 patterns, all byte values; thorough: all two-byte contents"],
            timeout: 120, min_outcomes: 5,
        },
        Check {
            id: "C09",
            rule: "Every single-bit error position of every code (fault enumeration); all or a stride of pairs with one error in each of two words; one error in every word of longer data; and the same as block flips in a watermarked image.",
            cases: c09_cases, run: c09_run, describe: c09_show,
            bounds: |t| json!({"single": "all bit positions of all five codes", "pairs": t.pick("all for TC128, strides for the others", "all for TC128, TC256 and TC512, stride 8 for TM2048")}),
            assumptions: &["a block reads as the opposite bit when its coefficient is moved by half a depth"],
            timeout: 120, min_outcomes: 8,
        },
    ]
}
