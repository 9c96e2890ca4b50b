//! C17, C18, C29: signatures and conversions.
use crate::engine::*;
use crate::rm;
use crate::sys;
use serde_json::json;

// the key pair built into the watermarking code, and two RFC 8032 test pairs
const KEYS: [(&str, &str); 3] = [
    ("e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60", "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6"),
    ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"),
    ("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"),
];
fn sign(d: &[u8], k: (&str, &str)) -> Result<Vec<u8>, Fail> {
    guard(|| signature::sign(&d.to_vec(), k.0, k.1)).map_err(|m| Fail { key: "sign-fails".into(), msg: format!("signing {} bytes fails: {}", d.len(), m) })
}
fn verify(d: &[u8], s: &[u8], k: &str) -> Result<bool, Fail> {
    guard(|| signature::verify(&d.to_vec(), &s.to_vec(), k)).map_err(|m| Fail { key: "verify-fails".into(), msg: format!("verifying {} bytes with a signature of {} bytes fails: {}", d.len(), s.len(), m) })
}
// case: [kind, a, b, c]; kind 0: key, length, pattern; 1: entropy pattern, mode; 2: known answers
fn c17_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![vec![2, 0, 0, 0]];
    for len in (0..=t.pick(140, 600)).chain([255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 200000]) {
        for k in 0..3 {
            for p in [0, 1, 2] {
                v.push(vec![0, k, len, p]);
            }
        }
    }
    for e in 17..=t.pick(22, 25) {
        for d in -1..=1 {
            v.push(vec![0, e % 3, (1 << e) + d, 1]);
        }
    }
    for b in 0..256 {
        v.push(vec![0, b % 3, 1, 100 + b]);
        v.push(vec![0, (b + 1) % 3, 8, 100 + b]);
    }
    for e in 0..(3 + 32 * t.pick(3, 8) + 16) {
        for mode in 0..3 {
            v.push(vec![1, e, mode, 0]);
        }
    }
    v
}
fn c17_show(k: &Case) -> String {
    match k[0] {
        0 => format!("key pair {} signs {} bytes of pattern {}", k[1], k[2], k[3]),
        1 => format!("key generation from entropy pattern {} delivered in mode {}", k[1], k[2]),
        _ => "RFC 8032 known answers".into(),
    }
}
fn entropy(e: i64) -> Vec<u8> {
    match e {
        0 => vec![0; 32],
        1 => vec![255; 32],
        2 => (0..32).collect(),
        e => {
            let i = (e - 3) as usize;
            let mut b: Vec<u8> = (0..32).map(|i| i as u8 ^ 0x5A).collect();
            b[i % 32] ^= [1u8, 0x80, 0x18, 2, 4, 8, 0x20, 0x40][(i / 32) % 8];
            b
        }
    }
}
fn hexkey(s: &str) -> bool {
    s.len() == 64 && s.chars().all(|c| c.is_ascii_hexdigit())
}
fn generate(e: i64, mode: usize) -> Result<(String, String), Fail> {
    // a new thread, so that no generator seeded earlier is left over
    let (r, used) = sys::with_entropy(entropy(e), mode, || std::thread::spawn(|| guard(signature::verif_hooks::generate)).join());
    let k = match r {
        Ok(Ok(k)) => k,
        Ok(Err(m)) => return fail("generate-fails", format!("key generation fails: {}", m)),
        Err(_) => return fail("generate-fails", "key generation fails".into()),
    };
    ensure!(used > 0, "not-random", "key generation uses no randomness of the operating system");
    Ok(k)
}
fn c17_run(k: &Case, x: &mut Ctx) -> R {
    let check = |key: (&str, &str), d: &[u8], x: &mut Ctx| -> R {
        let s = sign(d, key)?;
        ensure!(s.len() == 64, "length", "the signature of {} bytes has {} bytes", d.len(), s.len());
        ensure!(verify(d, &s, key.1)?, "rejected", "the signature of {} bytes does not verify", d.len());
        ensure!(sign(d, key)? == s, "not-deterministic", "signing {} bytes twice gives different signatures", d.len());
        x.step(3);
        x.state(&(d, &s));
        x.validated();
        Ok(())
    };
    match k[0] {
        0 => {
            let d = if k[3] >= 100 { vec![(k[3] - 100) as u8; k[2] as usize] } else { rm::payload([5, 1, 2][k[3] as usize], k[2] as usize) };
            check(KEYS[k[1] as usize], &d, x)?;
            // keys may be written in capitals
            let (a, b) = (KEYS[k[1] as usize].0.to_uppercase(), KEYS[k[1] as usize].1.to_uppercase());
            let s = sign(&d, (&a, &b))?;
            ensure!(s == sign(&d, KEYS[k[1] as usize])?, "capitals", "the same key in capitals signs differently");
            ensure!(verify(&d, &s, &b)?, "capitals", "the same key in capitals does not verify");
            x.outcome(&format!("key {} length class {}", k[1], (d.len() as f64 + 1.0).log2() as u32));
        }
        1 => {
            let (a, b) = generate(k[1], k[2] as usize)?;
            ensure!(hexkey(&a) && hexkey(&b), "form", "generated keys are {:?} and {:?}", a, b);
            for d in [vec![], vec![1, 2, 3], rm::payload(5, 300)] {
                check((&a, &b), &d, x)?;
                ensure!(!verify(&d, &sign(&d, (&a, &b))?, KEYS[0].1)?, "foreign", "a generated key's signature verifies under another key");
            }
            // differs from the keys made from every other entropy string of the neighbourhood
            for o in [0, 1, 2, 3, k[1] + 1, (k[1] + 32) % 96 + 3] {
                if entropy(o) == entropy(k[1]) {
                    continue;
                }
                let (c, d) = generate(o, k[2] as usize)?;
                ensure!(a != c && b != d, "same-keys", "different randomness ({} and {}) gives the same keys", k[1], o);
                x.step(1);
            }
            x.outcome(&format!("generated, delivery mode {}", k[2]));
        }
        _ => {
            for (key, msg, sig) in [
                (KEYS[1], vec![], "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"),
                (KEYS[2], vec![0x72u8], "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"),
            ] {
                let s = sign(&msg, key)?;
                let h: String = s.iter().map(|b| format!("{:02x}", b)).collect();
                ensure!(h == sig, "known-answer", "the signature is {} instead of {}", h, sig);
                x.validated();
            }
            x.outcome("known answers");
        }
    }
    x.sample(|| c17_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C18
// case: [kind, len, a]
fn c18_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let lens = [0i64, 1, 2, 8, 24, 31, 32, 63, 64, 65, 88, 127, 128];
    for len in lens.iter().cloned().chain(t.pick(vec![], (3..40).collect())) {
        for kind in 0..=5 {
            v.push(vec![kind, len, 0]);
        }
    }
    for len in 0..=t.pick(140, 400) {
        v.push(vec![6, len, 0]);
    }
    for a in 0..t.pick(40, 200) {
        v.push(vec![7, 32, a]);
    }
    for len in [88, 200, 1000] {
        v.push(vec![0, len, 0]);
    }
    for e in 9..=t.pick(21, 24) {
        for d in -1..=1 {
            v.push(vec![8, (1 << e) + d, 0]);
        }
    }
    for len in [1000, 3000, 5000, 10000, 100000] {
        v.push(vec![8, len, 0]);
    }
    v
}
fn c18_show(k: &Case) -> String {
    format!(
        "{} bytes of data, {}",
        k[1],
        ["every bit of the data flipped in turn", "data of every other length (shortened, extended, rotated)", "every bit of the signature flipped in turn", "signatures of other lengths made from the real one", "every other key", "signatures of other data", "malformed signatures of this length", "special signature values", "a bit flipped near the ends and near every power of two, bytes cut off and added"][k[0] as usize]
    )
}
fn c18_run(k: &Case, x: &mut Ctx) -> R {
    let n = k[1] as usize;
    let d = rm::payload(5, n);
    let key = KEYS[0];
    let s = sign(&d, key)?;
    ensure!(verify(&d, &s, key.1)?, "rejected", "harness: genuine signature rejected");
    let mut no = |d2: &[u8], s2: &[u8], p: &str, what: String, x: &mut Ctx| -> R {
        x.step(1);
        x.state(&(d2, s2, p));
        ensure!(!verify(d2, s2, p)?, "forged", "{} is accepted", what);
        x.validated();
        Ok(())
    };
    match k[0] {
        8 => {
            let mut at: Vec<usize> = vec![0, 1, n / 3, n / 2, n - 2, n - 1];
            for e in 5..30 {
                at.extend([(1usize << e) - 1, 1 << e, n.wrapping_sub(1 << e)]);
            }
            at.sort();
            at.dedup();
            for i in at.into_iter().filter(|i| *i < n) {
                for b in [0, 7] {
                    let mut e = d.clone();
                    e[i] ^= 1 << b;
                    no(&e, &s, key.1, format!("data of {} bytes with bit {} of byte {} flipped", n, b, i), x)?;
                }
            }
            no(&d[..n - 1], &s, key.1, format!("data cut to {} bytes", n - 1), x)?;
            no(&[d.clone(), vec![0]].concat(), &s, key.1, "data with a zero byte appended".into(), x)?;
            no(&[d.clone(), d.clone()].concat(), &s, key.1, "the data twice".into(), x)?;
        }
        0 => {
            for b in 0..n * 8 {
                let mut e = d.clone();
                e[b / 8] ^= 1 << (b % 8);
                no(&e, &s, key.1, format!("data with bit {} of {} flipped", b, n * 8), x)?;
            }
            no(&[d.clone(), vec![0]].concat(), &s, key.1, "data with a zero byte appended".into(), x)?;
        }
        1 => {
            for m in 0..n {
                no(&d[..m], &s, key.1, format!("data cut to {} bytes", m), x)?;
                no(&d[n - m..], &s, key.1, format!("the last {} bytes of the data", m), x).or_else(|f| if d[n - m..] == d[..] { Ok(()) } else { Err(f) })?;
            }
            for e in [vec![0], vec![255], vec![0; 8], vec![0; 64]] {
                no(&[d.clone(), e.clone()].concat(), &s, key.1, format!("data extended by {:?}", e), x)?;
                no(&[e.clone(), d.clone()].concat(), &s, key.1, format!("data preceded by {:?}", e), x)?;
            }
            // one byte more, anywhere, of any value; one byte less, anywhere; turned round
            for i in [0, 1, n / 2, n.saturating_sub(1), n] {
                for b in 0..=255u8 {
                    if i <= n {
                        let mut e = d.clone();
                        e.insert(i, b);
                        no(&e, &s, key.1, format!("data with a byte {} inserted at {}", b, i), x)?;
                    }
                }
            }
            for i in 0..n {
                let mut e = d.clone();
                e.remove(i);
                no(&e, &s, key.1, format!("data without byte {}", i), x)?;
                let mut e = d.clone();
                e[i] = 0;
                if e != d {
                    no(&e, &s, key.1, format!("data with byte {} zeroed", i), x)?;
                }
                let mut e = d.clone();
                e.rotate_left(i);
                if e != d {
                    no(&e, &s, key.1, format!("data rotated by {}", i), x)?;
                }
            }
            let e: Vec<u8> = d.iter().rev().cloned().collect();
            if e != d {
                no(&e, &s, key.1, "reversed data".into(), x)?;
            }
            for i in 0..n.saturating_sub(1) {
                let mut e = d.clone();
                e.swap(i, i + 1);
                if e != d {
                    no(&e, &s, key.1, format!("data with bytes {} and {} exchanged", i, i + 1), x)?;
                }
            }
        }
        2 => {
            for b in 0..512 {
                let mut e = s.clone();
                e[b / 8] ^= 1 << (b % 8);
                no(&d, &e, key.1, format!("a signature with bit {} flipped", b), x)?;
            }
        }
        3 => {
            for m in 0..64 {
                no(&d, &s[..m], key.1, format!("a signature cut to {} bytes", m), x)?;
                no(&d, &s[64 - m..], key.1, format!("the last {} bytes of a signature", m), x)?;
            }
            for e in [1usize, 2, 31, 32, 64, 128] {
                no(&d, &[s.clone(), vec![0; e]].concat(), key.1, format!("a signature extended by {} bytes", e), x)?;
                no(&d, &[vec![0; e], s.clone()].concat(), key.1, format!("a signature preceded by {} bytes", e), x)?;
                no(&d, &s.iter().cloned().cycle().take(64 + e).collect::<Vec<u8>>(), key.1, format!("a signature repeated to {} bytes", 64 + e), x)?;
            }
            no(&d, &[&s[32..], &s[..32]].concat(), key.1, "a signature with its halves exchanged".into(), x)?;
        }
        4 => {
            for p in [KEYS[1].1, KEYS[2].1] {
                no(&d, &s, p, "another pair's public key".into(), x)?;
            }
            for i in 1..3 {
                let s2 = sign(&d, KEYS[i])?;
                no(&d, &s2, KEYS[0].1, "another pair's signature".into(), x)?;
                ensure!(verify(&d, &s2, KEYS[i].1)?, "rejected", "the signature of key {} does not verify", i);
            }
        }
        5 => {
            for m in 0..=40usize {
                let o = rm::payload(0, m);
                if o != d {
                    let s2 = sign(&o, key)?;
                    no(&d, &s2, key.1, format!("the signature of {} other bytes", m), x)?;
                    // halves of two genuine signatures
                    no(&d, &[&s[..32], &s2[32..]].concat(), key.1, "a signature spliced from two".into(), x)?;
                    no(&d, &[&s2[..32], &s[32..]].concat(), key.1, "a signature spliced from two".into(), x)?;
                }
            }
        }
        6 => {
            for fill in [0u8, 1, 0x0F, 0x10, 0x7F, 0x80, 0xEF, 0xFF] {
                no(&rm::payload(5, 32), &vec![fill; n], key.1, format!("{} bytes {:#x} as a signature", n, fill), x)?;
            }
            no(&rm::payload(5, 32), &rm::payload(5, n), key.1, format!("{} mixed bytes as a signature", n), x)?;
        }
        _ => {
            let mut e = vec![0u8; 64];
            let a = k[2] as usize;
            match a {
                0..=31 => e[32 + a] = 1,
                32 => e = s[..32].iter().cloned().chain([0u8; 32]).collect(),
                33 => e = [0u8; 32].iter().cloned().chain(s[32..].iter().cloned()).collect(),
                34 => e[0] = 1,
                35 => {
                    // S + group order: the same number modulo the order
                    let l: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
                    e = s.clone();
                    let mut c = 0u16;
                    for i in 0..32 {
                        c += e[32 + i] as u16 + l[i] as u16;
                        e[32 + i] = c as u8;
                        c >>= 8;
                    }
                }
                _ => e = rm::payload(5, 64 + a).split_off(a),
            }
            no(&d, &e, key.1, format!("special signature {}", a), x)?;
        }
    }
    x.outcome(&format!("rejected, kind {}", k[0]));
    x.sample(|| c18_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C29
fn c29_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for hi in 0..256 {
        v.push(vec![0, hi]); // 16-bit values
        v.push(vec![1, hi]); // byte strings starting with hi
        if hi < 128 + OTHERS.len() as i64 {
            v.push(vec![4, hi]); // texts of two characters
        }
    }
    for b in 0..64 {
        v.push(vec![2, b]);
    }
    for n in (0..=t.pick(90, 400)).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131_072, 131_073]) {
        v.push(vec![3, n]);
    }
    v
}
fn c29_show(k: &Case) -> String {
    format!("{} {}", ["all 16-bit values with high byte", "all two-byte strings starting with", "64-bit values around bit", "lists and strings of length", "texts whose first character is"][k[0] as usize], k[1])
}
fn c29_i64(v: &[i64], x: &mut Ctx) -> R {
    use utils::bytes::*;
    let b = guard(|| vec_i64_to_bytes(&v.to_vec())).map_err(|m| Fail { key: "fails".into(), msg: m })?;
    let want: Vec<u8> = v.iter().flat_map(|i| (0..8).map(move |s| (i >> (8 * s)) as u8)).collect();
    ensure!(b == want, "i64-bytes", "{:?} becomes {:?}", &v[..v.len().min(3)], &b[..b.len().min(24)]);
    let r = guard(|| vec_i64_from_bytes(&b)).map_err(|m| Fail { key: "fails".into(), msg: m })?;
    ensure!(r == v, "i64-back", "{:?} comes back as {:?}", &v[..v.len().min(3)], &r[..r.len().min(3)]);
    x.step(2);
    x.state(&v);
    x.validated();
    Ok(())
}
fn c29_u16(v: &[u16], x: &mut Ctx) -> R {
    use utils::bytes::*;
    let b = guard(|| vec_u16_to_bytes(&v.to_vec())).map_err(|m| Fail { key: "fails".into(), msg: m })?;
    let want: Vec<u8> = v.iter().flat_map(|i| [(*i & 255) as u8, (*i >> 8) as u8]).collect();
    ensure!(b == want, "u16-bytes", "{:?} becomes {:?}", &v[..v.len().min(3)], &b[..b.len().min(6)]);
    let r = guard(|| vec_u16_from_bytes(&b)).map_err(|m| Fail { key: "fails".into(), msg: m })?;
    ensure!(r == v, "u16-back", "{:?} comes back as {:?}", &v[..v.len().min(3)], &r[..r.len().min(3)]);
    x.step(2);
    x.state(&v);
    x.validated();
    Ok(())
}
/// ASCII, then letters and digits of other scripts
const OTHERS: [char; 10] = ['\u{80}', 'é', 'ß', '٣', '०', '０', 'Ａ', 'ｆ', '\u{10FFFF}', '😀'];
fn hex_char(i: i64) -> char {
    if i < 128 { i as u8 as char } else { OTHERS[i as usize - 128] }
}
fn c29_hex(v: &[u8], x: &mut Ctx) -> R {
    use utils::format::*;
    let h = guard(|| encode_hex(v)).map_err(|m| Fail { key: "fails".into(), msg: m })?;
    let want: String = v.iter().flat_map(|b| [b >> 4, b & 15]).map(|n| b"0123456789abcdef"[n as usize] as char).collect();
    ensure!(h == want, "hex", "{} bytes {:?} are written {}", v.len(), &v[..v.len().min(8)], &h[..h.len().min(20)]);
    for t in [h.clone(), h.to_uppercase()] {
        let r = guard(|| decode_hex(&t)).map_err(|m| Fail { key: "fails".into(), msg: m })?;
        ensure!(r.as_deref() == Ok(v), "unhex", "{} characters {} are read as {:?}", t.len(), &t[..t.len().min(20)], r.map(|r| r.into_iter().take(10).collect::<Vec<u8>>()));
        x.step(1);
    }
    x.state(&v);
    x.validated();
    Ok(())
}
fn c29_run(k: &Case, x: &mut Ctx) -> R {
    match k[0] {
        0 => {
            for lo in 0..256i64 {
                c29_u16(&[(k[1] * 256 + lo) as u16], x)?;
                c29_u16(&[1, (k[1] * 256 + lo) as u16, 0xFF00], x)?;
            }
        }
        1 => {
            c29_hex(&[k[1] as u8], x)?;
            for lo in 0..256i64 {
                c29_hex(&[k[1] as u8, lo as u8], x)?;
            }
        }
        2 => {
            let p = 1i64.wrapping_shl(k[1] as u32);
            for v in [p, p.wrapping_sub(1), p.wrapping_add(1), !p, p.wrapping_neg(), p ^ i64::MAX, p | i64::MIN] {
                c29_i64(&[v], x)?;
                c29_i64(&[0, v, -1, v.wrapping_neg()], x)?;
            }
        }
        3 => {
            let n = k[1] as u64;
            c29_i64(&(0..n).map(|i| rm::mix(i, n, 1) as i64).collect::<Vec<_>>(), x)?;
            c29_i64(&(0..n).map(|i| i as i64 - 20).collect::<Vec<_>>(), x)?;
            c29_u16(&(0..n).map(|i| rm::mix(i, n, 2) as u16).collect::<Vec<_>>(), x)?;
            c29_hex(&(0..n).map(|i| rm::mix(i, n, 3) as u8).collect::<Vec<_>>(), x)?;
            c29_hex(&vec![0; n as usize], x)?;
        }
        _ => {
            use utils::format::*;
            let a = hex_char(k[1]);
            for n in 0..128 + OTHERS.len() as i64 {
                let b = hex_char(n);
                // a pair, alone and between others; a lone digit at the end
                for (t, paired) in [(format!("{}{}", a, b), true), (format!("00{}{}ff", a, b), true), (format!("00{}{}f", a, b), false), (format!("{}", a), false), (format!("00{}", a), false)] {
                    let r = guard(|| decode_hex(&t)).map_err(|m| Fail { key: "fails".into(), msg: format!("{:?}: {}", t, m) })?;
                    x.step(1);
                    if paired && a.is_ascii_hexdigit() && b.is_ascii_hexdigit() {
                        let v = (a.to_digit(16).unwrap() * 16 + b.to_digit(16).unwrap()) as u8;
                        let want = if t.len() == 2 { vec![v] } else { vec![0, v, 255] };
                        ensure!(r == Ok(want), "unhex", "{:?} is read as {:?}", t, r);
                        x.outcome("digits");
                    } else {
                        ensure!(r.is_err(), "not-hex", "{:?} is read as {:?}", t, r);
                        x.outcome(if paired { "refused" } else { "refused, lone digit" });
                    }
                    x.state(&t);
                    x.validated();
                }
            }
        }
    }
    x.outcome(&format!("kind {}", k[0]));
    x.sample(|| c29_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C16
const SEEDS: [usize; 14] = [0, 1, 2, 3, 4, 100, 131, 132, 1 << 17, (1 << 31) - 1, 1 << 32, 1 << 53, usize::MAX / 2, usize::MAX - 4096];
const RANGES: [(f64, f64); 9] = [(0.0, 1.0), (-2.0, 5.0), (5.0, -2.0), (3.0, 3.0), (0.0, 1e-300), (-1e150, 1e150), (1e9, 1e9 + 1.0), (-7.0, -6.5), (0.0, 1e300)];
const DRAWS: usize = 4110;
/// what a generator made for this seed and used for nothing else gives
fn unit(seed: usize, draws: usize) -> f64 {
    use utils::pseudo_random::{Generate, PseudoRandom};
    static TABLE: std::sync::OnceLock<Vec<Vec<f64>>> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        SEEDS.iter().chain(&[7]).map(|s| {
            let mut g = PseudoRandom { seed: *s };
            (0..DRAWS.min(usize::MAX - s)).map(|_| g.generate_unit()).collect()
        }).collect()
    });
    t[SEEDS.iter().position(|s| *s == seed).unwrap_or(SEEDS.len())][draws - 1]
}
// [0, seed, pattern]: one generator; operations are coded in base 5: 0 unit, 1..2 a range, 3 seed it again, 4 draw from another generator
fn c16_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for s in 0..SEEDS.len() as i64 {
        for first in 0..25 {
            v.push(vec![0, s, first, t.pick(4, 6)]);
        }
        v.push(vec![1, s, t.pick(4000, 4090)]);
    }
    for block in 0..t.pick(1 << 8, 1 << 11) {
        v.push(vec![2, block]);
    }
    v
}
fn c16_show(k: &Case) -> String {
    if k[0] == 2 {
        return format!("the first number after each seed from {} to {}", k[1] << 20, ((k[1] + 1) << 20) - 1);
    }
    if k[0] == 0 { format!("all histories of {} operations starting with pattern {}, seed {}", k[3] + 2, k[2], SEEDS[k[1] as usize]) } else { format!("{} numbers drawn after seed {}", k[2], SEEDS[k[1] as usize]) }
}
fn c16_run(k: &Case, x: &mut Ctx) -> R {
    use utils::pseudo_random::{Generate, PseudoRandom};
    let failed = |m: String| Fail { key: "fails".into(), msg: m };
    let s0 = if k[0] == 2 { 0 } else { SEEDS[k[1] as usize] };
    let judge = |got: f64, seed: usize, draws: usize, range: Option<(f64, f64)>| -> R {
        let u = unit(seed, draws);
        match range {
            None => {
                ensure!((0.0..1.0).contains(&got), "unit-range", "number {} after seed {} is {}", draws, seed, got);
                ensure!(got == u, "sequence", "number {} after seed {} is {} instead of {}", draws, seed, got, u);
            }
            Some((a, b)) => {
                let (lo, hi) = (a.min(b), a.max(b));
                ensure!(got >= lo && got <= hi, "range", "number {} after seed {} between {} and {} is {}", draws, seed, a, b, got);
                let want = a + u * (b - a);
                let tol = 1e-12 * (a.abs().max(b.abs())).max((b - a).abs());
                ensure!((got - want).abs() <= tol, "scale", "number {} after seed {} between {} and {} is {} instead of {}", draws, seed, a, b, got, want);
            }
        }
        Ok(())
    };
    if k[0] == 2 {
        let mut g = PseudoRandom { seed: 0 };
        for seed in (k[1] as usize) << 20..(k[1] as usize + 1) << 20 {
            g.seed(seed);
            let got = g.generate_unit();
            ensure!((0.0..1.0).contains(&got), "unit-range", "the first number after seed {} is {}", seed, got);
        }
        x.step(1 << 21);
        x.state(&(2, k[1]));
        x.outcome("seeds one after another");
        return Ok(());
    }
    if k[0] == 1 {
        let mut g = PseudoRandom { seed: s0 };
        for i in 1..=k[2] as usize {
            let got = guard(|| g.generate_unit()).map_err(failed)?;
            judge(got, s0, i, None)?;
            let r = RANGES[i % RANGES.len()];
            // the same place reached through a long past, and drawn as a range
            if i <= 300 || i % 97 == 0 {
                let mut h = PseudoRandom { seed: i };
                h.generate_unit();
                h.seed(s0);
                for _ in 1..i {
                    h.generate(r.1, r.0);
                }
                let got = guard(|| h.generate(r.0, r.1)).map_err(failed)?;
                judge(got, s0, i, Some(r))?;
                x.step(i as u64);
            }
            x.step(1);
            x.validated();
            x.state(&(s0, i));
        }
        x.outcome("long run");
        return Ok(());
    }
    let depth = k[3] as u32;
    for rest in 0..5i64.pow(depth) {
        let mut code = rest * 25 + k[2];
        let (mut g, mut h) = (PseudoRandom { seed: s0 }, PseudoRandom { seed: 7 });
        let (mut seed, mut draws, mut other) = (s0, 0usize, 0usize);
        for step in 0..depth + 2 {
            let op = code % 5;
            code /= 5;
            let r = RANGES[(step as usize * 2 + op as usize) % RANGES.len()];
            match op {
                0 => {
                    draws += 1;
                    judge(guard(|| g.generate_unit()).map_err(failed)?, seed, draws, None)?;
                }
                1 | 2 => {
                    draws += 1;
                    judge(guard(|| g.generate(r.0, r.1)).map_err(failed)?, seed, draws, Some(r))?;
                }
                3 => {
                    seed = SEEDS[(k[1] as usize + step as usize) % SEEDS.len()];
                    draws = 0;
                    guard(|| g.seed(seed)).map_err(failed)?;
                }
                _ => {
                    other += 1;
                    judge(guard(|| h.generate_unit()).map_err(failed)?, 7, other, None)?;
                }
            }
            x.step(1);
            x.outcome(["unit", "range", "another range", "seeded again", "another generator"][op as usize]);
        }
        x.validated();
        x.state(&(s0, k[2], rest));
    }
    x.sample(|| c16_show(k));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            rule: "Every data length up to the bound for three key pairs; every entropy pattern of the alphabet (each byte position changed in turn) answered to an intercepted getrandom in full, in short reads and with interruptions; RFC 8032 known answers.",
            cases: c17_cases, run: c17_run, describe: c17_show,
            bounds: |t| json!({"lengths": t.pick("0..140, 13 larger, around each power of two to 2^22", "0..600, 13 larger, around each power of two to 2^25"), "entropy_patterns": t.pick(115, 275), "delivery_modes": 3}),
            assumptions: &["the operating system's randomness is intercepted at the getrandom system call"], timeout: 120, min_outcomes: 8,
        },
        Check {
            id: "C18",
            rule: "Fault enumeration: every single-bit flip of data and signature, every truncation, extensions, exchanges, splices, other keys, and malformed signatures of every length up to the bound.",
            cases: c18_cases, run: c18_run, describe: c18_show,
            bounds: |t| json!({"data_lengths": t.pick("21 lengths to 100000, around each power of two to 2^21", "all to 40, 21 to 100000, around each power of two to 2^24"), "signature_lengths": t.pick("0..140", "0..400")}),
            assumptions: &["forgeries that need breaking Ed25519 are out of reach of enumeration"], timeout: 120, min_outcomes: 8,
        },
        Check {
            id: "C29",
            rule: "All 16-bit values, all one- and two-byte strings, all 64-bit values next to a power of two, all lists up to the bound, all texts of two characters (ASCII and ten others), alone, between digits and with a lone digit behind.",
            cases: c29_cases, run: c29_run, describe: c29_show,
            bounds: |t| json!({"lists": t.pick("0..90 and 29 larger to 131073", "0..400 and 29 larger")}),
            assumptions: &["characters outside ASCII are represented by ten"], timeout: 120, min_outcomes: 6,
        },
        Check {
            id: "C16",
            rule: "All histories of drawing a unit number, drawing from a range, seeding again and drawing from a second generator up to a depth, from each seed of an alphabet, and long runs; every number compared with what a generator with that seed and no other past gives, and ranges with the number scaled to them; the first number after every seed of an interval.",
            cases: c16_cases, run: c16_run, describe: c16_show,
            bounds: |t| json!({"seeds": SEEDS.len(), "ranges": RANGES.len(), "history_length": t.pick(6, 8), "long_run": t.pick(4000, 4090), "seeds_one_by_one": t.pick("0..2^28", "0..2^31")}),
            assumptions: &["numbers drawn from a range may be rounded differently (1e-12 of the bounds)"],
            timeout: 120, min_outcomes: 7,
        },
    ]
}
