//! C24, C30: the command line tool, run as a process in scratch folders.
use crate::engine::*;
use crate::rm;
use image::{DynamicImage, GenericImageView, ImageBuffer, ImageFormat};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- input files
/// (extension, kind, rows, columns, families); one or three planes of eleven features each
const CONTENTS: &[(&str, &str, u32, u32, [usize; 3])] = &[
    ("png", "L8", 216, 216, [9, 0, 0]),
    ("png", "L8", 176, 256, [6, 0, 0]),
    ("png", "L8", 256, 176, [3, 0, 0]),
    ("png", "La8", 216, 216, [8, 0, 0]),
    ("png", "Rgb8", 176, 256, [9, 6, 3]),
    ("png", "Rgba8", 216, 216, [4, 9, 6]),
    ("png", "L16", 216, 216, [9, 0, 0]),
    ("jpg", "L8", 216, 216, [9, 0, 0]),
    ("jpeg", "Rgb8", 216, 216, [9, 4, 3]),
    ("bmp", "L8", 216, 216, [7, 0, 0]),
    ("bmp", "Rgb8", 256, 176, [9, 4, 3]),
    ("gif", "Rgba8", 216, 216, [9, 9, 9]),
    ("tiff", "L8", 176, 256, [4, 0, 0]),
    ("tif", "Rgb8", 216, 216, [9, 4, 3]),
    ("pgm", "L8", 216, 216, [6, 0, 0]),
    ("ppm", "Rgb8", 216, 216, [4, 4, 9]),
    ("png", "Rgb16", 216, 216, [6, 4, 9]),
];
/// the extension of a content; those behind the table are files with features no encoder here uses
fn ext(c: usize) -> &'static str {
    CONTENTS.get(c).map(|c| c.0).unwrap_or_else(|| crate::files::extension(c - CONTENTS.len()))
}
fn encoded(c: usize) -> Vec<u8> {
    if c >= CONTENTS.len() {
        return crate::files::special(c - CONTENTS.len()).bytes;
    }
    let mut file = Cursor::new(vec![]);
    picture(c).write_to(&mut file, format_of(ext(c))).unwrap();
    file.into_inner()
}
fn picture(c: usize) -> DynamicImage {
    let (_, kind, h, w, f) = CONTENTS[c];
    let p: Vec<_> = f.iter().map(|f| rm::image(*f, h as usize, w as usize, 40, 215, 8)).collect();
    let at = |i: usize, x: u32, y: u32| p[i][[y as usize, x as usize]];
    let al = |x: u32, y: u32| ((x * 3 + y * 5) % 256) as u8;
    match kind {
        "L8" => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| image::Luma([at(0, x, y)]))),
        "La8" => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| image::LumaA([at(0, x, y), al(x, y)]))),
        "Rgb8" => DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| image::Rgb([at(0, x, y), at(1, x, y), at(2, x, y)]))),
        "Rgba8" => DynamicImage::ImageRgba8(ImageBuffer::from_fn(w, h, |x, y| image::Rgba([at(0, x, y), at(1, x, y), at(2, x, y), if CONTENTS[c].0 == "gif" { 255 } else { al(x, y) }]))),
        "L16" => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| image::Luma([at(0, x, y) as u16 * 257 ^ 0x35]))),
        _ => DynamicImage::ImageRgb16(ImageBuffer::from_fn(w, h, |x, y| image::Rgb([at(0, x, y) as u16 * 257, at(1, x, y) as u16 * 257 ^ 0x11, at(2, x, y) as u16 * 257]))),
    }
}
fn format_of(ext: &str) -> ImageFormat {
    ImageFormat::from_extension(ext).unwrap()
}
struct Content {
    file: Vec<u8>,
    /// the library's watermarked image, encoded and decoded again in the input's format
    want: DynamicImage,
}
static TABLE: Mutex<BTreeMap<usize, Arc<Result<Content, String>>>> = Mutex::new(BTreeMap::new());
fn prepare(ids: &[usize]) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    // the library prints; keep that out of the check's output
    let kept = unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        let k = libc::dup(1);
        libc::dup2(n, 1);
        libc::close(n);
        k
    };
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= ids.len() {
                    break;
                }
                let c = ids[i];
                let r = guard(|| {
                    let fmt = format_of(ext(c));
                    let file = encoded(c);
                    let source = image::load_from_memory_with_format(&file, fmt).unwrap();
                    let mut out = Cursor::new(vec![]);
                    watermarking::watermark(source, 100.0, 1.0, 11).write_to(&mut out, fmt).unwrap();
                    Content { file, want: image::load_from_memory_with_format(out.get_ref(), fmt).unwrap() }
                });
                TABLE.lock().unwrap().insert(c, Arc::new(r));
            });
        }
    });
    flush();
    unsafe {
        libc::dup2(kept, 1);
        libc::close(kept);
    }
}
fn content(c: usize) -> Result<Arc<Result<Content, String>>, Fail> {
    let r = TABLE.lock().unwrap().get(&c).cloned().expect("prepared");
    if let Err(m) = &*r {
        return fail("library", format!("the library does not watermark the image ({}): {}", CONTENTS.get(c).map(|c| c.1).unwrap_or_else(|| crate::files::NAMES[c - CONTENTS.len()]), m));
    }
    Ok(r)
}

// ---------------------------------------------------------------- scratch folders
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        for n in 0.. {
            let p = std::env::temp_dir().join(format!("siamc-{}-{}", std::process::id(), n));
            if std::fs::create_dir(&p).is_ok() {
                return Scratch(p.canonicalize().unwrap());
            }
        }
        unreachable!()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// path -> Some(bytes), None for folders; symbolic links are followed by nobody and noted as text
fn tree(p: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(root: &Path, p: &Path, o: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(p).unwrap() {
            let e = e.unwrap();
            let name = e.path().strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let t = e.file_type().unwrap();
            if t.is_symlink() {
                o.insert(name, Some(format!("link to {:?}", std::fs::read_link(e.path()).unwrap()).into_bytes()));
            } else if t.is_dir() {
                o.insert(name, None);
                walk(root, &e.path(), o);
            } else {
                o.insert(name, Some(std::fs::read(e.path()).unwrap()));
            }
        }
    }
    let mut o = BTreeMap::new();
    walk(p, p, &mut o);
    o
}
fn tool() -> String {
    format!("{}/target/cli/release/cli", std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))
}
/// the working directory of the tool inside the scratch folder
const CWD: &str = "work";

#[derive(Clone, Default)]
struct Scene {
    /// files to create besides the inputs: (path in the scratch folder, bytes)
    others: Vec<(String, Vec<u8>)>,
    dirs: Vec<String>,
    links: Vec<(String, String)>,
    /// inputs as given on the command line, with their place in the scratch folder and content
    inputs: Vec<(String, String, usize)>,
    args: Vec<String>,
    /// announced files, place in the scratch folder -> content, in order; None: writes nothing
    outputs: Vec<(String, usize)>,
    new_dirs: Vec<String>,
    fails: bool,
    label: String,
}
impl Scene {
    fn build(&self, s: &Scratch) {
        std::fs::create_dir_all(s.0.join(CWD)).unwrap();
        for d in &self.dirs {
            std::fs::create_dir_all(s.0.join(d)).unwrap();
        }
        for (f, b) in &self.others {
            let p = s.0.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, b).unwrap();
        }
        for (_, place, c) in &self.inputs {
            let p = s.0.join(place);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            if let Ok(c) = &**TABLE.lock().unwrap().get(c).unwrap() {
                std::fs::write(p, &c.file).unwrap();
            }
        }
        for (l, t) in &self.links {
            std::os::unix::fs::symlink(t, s.0.join(l)).unwrap();
        }
    }
    fn arguments(&self, s: &Scratch) -> Vec<String> {
        self.args.iter().map(|a| a.replace("@ROOT@", s.0.to_str().unwrap())).collect()
    }
    fn command(&self, s: &Scratch) -> Command {
        let mut c = Command::new(tool());
        c.args(self.arguments(s)).current_dir(s.0.join(CWD)).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", &s.0).env("LANG", "C.UTF-8").env("RUST_BACKTRACE", "0");
        c
    }
}
fn complete(bytes: &[u8], c: usize) -> Result<(), String> {
    let fmt = format_of(ext(c));
    let r = content(c).map_err(|f| f.msg)?;
    let want = match &*r {
        Ok(c) => &c.want,
        Err(m) => return Err(m.clone()),
    };
    match image::guess_format(bytes) {
        Ok(f) if f == fmt => {}
        other => return Err(format!("it is of format {:?} instead of {:?}", other.ok(), fmt)),
    }
    let got = match guard(|| image::load_from_memory_with_format(bytes, fmt)) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return Err(format!("it can not be decoded: {}", e)),
        Err(e) => return Err(format!("decoding it fails: {}", e)),
    };
    if got.dimensions() != want.dimensions() || got.color() != want.color() {
        return Err(format!("it holds a {:?} image of {:?} instead of {:?} of {:?}", got.color(), got.dimensions(), want.color(), want.dimensions()));
    }
    if got.as_bytes() != want.as_bytes() {
        let n = got.as_bytes().iter().zip(want.as_bytes()).filter(|(a, b)| a != b).count();
        return Err(format!("{} of {} samples differ from the watermarked image", n, want.as_bytes().len()));
    }
    Ok(())
}
/// PNG, GIF and JPEG files end with a mark; a file cut at its end may decode nevertheless
fn whole(bytes: &[u8], c: usize) -> Result<(), String> {
    complete(bytes, c)?;
    let end: &[u8] = match ext(c) {
        "png" => b"IEND\xaeB`\x82",
        "gif" => b"\x3b",
        "jpg" | "jpeg" => b"\xff\xd9",
        _ => b"",
    };
    if !bytes.ends_with(end) {
        return Err("its end is missing".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- C24
fn s(x: &str) -> String {
    x.to_string()
}
const OLD: usize = 3 << 20;
/// (given name, place, stem, extension); the content decides the real extension when it is "*"
const NAMES: &[(&str, &str, &str, &str)] = &[
    ("pic.png", "work/pic.png", "pic", "png"),
    ("in/pic.png", "work/in/pic.png", "pic", "png"),
    ("a.b.c.png", "work/a.b.c.png", "a.b.c", "png"),
    (".hidden.png", "work/.hidden.png", ".hidden", "png"),
    ("grün ß.png", "work/grün ß.png", "grün ß", "png"),
    ("PIC.PNG", "work/PIC.PNG", "PIC", "PNG"),
    ("@ROOT@/far/away.png", "far/away.png", "away", "png"),
    ("../side/x.png", "side/x.png", "x", "png"),
    ("./x-w.png", "work/x-w.png", "x-w", "png"),
    ("in.png/deep/p.Png", "work/in.png/deep/p.Png", "p", "Png"),
    (" a..png", "work/ a..png", " a.", "png"),
    ("tab\t'q\"$x\\*.png", "work/tab\t'q\"$x\\*.png", "tab\t'q\"$x\\*", "png"),
    ("w-w-0.w.png", "work/w-w-0.w.png", "w-w-0.w", "png"),
    ("a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name.png", "work/a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name.png", "a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name", "png"),
];
const SUFFIXES: &[&str] = &["w", "", "a-b", "x.y", "ü 1", "watermarked", "0", "..", "%s{}"];
/// (given, place); place None: the current folder
const OUTS: &[(Option<&str>, &str, u8)] = &[
    (None, "work", 0),
    (Some("out"), "work/out", 1),           // missing
    (Some("out"), "work/out", 2),           // existing, with other files
    (Some("o/p/q"), "work/o/p/q", 1),       // nested, missing
    (Some("./out/"), "work/out", 1),
    (Some("@ROOT@/elsewhere"), "elsewhere", 1),
    (Some("link"), "target", 3),            // symbolic link to a folder
    (Some("."), "work", 0),
    (Some("../up"), "up", 2),
    (Some("ö x.png"), "work/ö x.png", 1),
];
fn parents(p: &str) -> Vec<String> {
    let mut v = vec![];
    let mut q = Path::new(p);
    loop {
        let t = q.to_str().unwrap().to_string();
        if t.is_empty() {
            break;
        }
        v.push(t);
        q = q.parent().unwrap();
    }
    v
}
fn base_scene() -> Scene {
    Scene {
        others: vec![
            (s("work/keep.txt"), b"keep".to_vec()),
            (s("work/out.png"), rm::payload(5, 1000)),
            (s("side/other.png"), rm::payload(4, 500)),
            (s("work/w.png"), vec![]),
        ],
        dirs: vec![s("work/empty")],
        ..Default::default()
    }
}
/// sets up the output folder
fn with_out(sc: &mut Scene, out: usize) {
    let (_, place, mode) = OUTS[out];
    match mode {
        1 => {
            for p in parents(place) {
                sc.new_dirs.push(p);
            }
        }
        2 => {
            sc.dirs.push(s(place));
            sc.others.push((format!("{}/keep.png", place), rm::payload(3, 77)));
        }
        3 => {
            sc.dirs.push(s(place));
            sc.links.push((s("work/link"), s("../target")));
        }
        _ => {}
    }
}
/// argument order: 0 -s -o inputs, 1 inputs -o -s, 2 between, 3 attached values, 4 after "--"
fn arguments(inputs: &[String], suffix: Option<&str>, out: Option<&str>, order: usize) -> Vec<String> {
    let mut o: Vec<Vec<String>> = vec![];
    if let Some(x) = suffix {
        o.push(if order == 3 && !x.is_empty() { vec![format!("-s{}", x)] } else { vec![s("-s"), s(x)] });
    }
    if let Some(x) = out {
        o.push(if order == 3 { vec![format!("-o{}", x)] } else { vec![s("-o"), s(x)] });
    }
    let ins: Vec<String> = inputs.to_vec();
    match order {
        1 => {
            o.reverse();
            [ins, o.concat()].concat()
        }
        2 => {
            let mut v = ins[..ins.len().min(1)].to_vec();
            v.extend(o.concat());
            v.extend(ins.iter().skip(1).cloned());
            v
        }
        4 => [o.concat(), vec![s("--")], ins].concat(),
        _ => [o.concat(), ins].concat(),
    }
}
fn announce(sc: &mut Scene, stem: &str, ext: &str, suffix: &str, out: usize, c: usize) {
    sc.outputs.push((format!("{}/{}-{}.{}", OUTS[out].1, stem, suffix, ext), c));
}
fn one(name: usize, suffix: usize, out: usize, order: usize, c: usize, ext: Option<&str>) -> Scene {
    let mut sc = base_scene();
    let (g, p, stem, e) = NAMES[name];
    let (g, p, e) = match ext {
        Some(x) => (g.replace(".png", &format!(".{}", x)), p.replace(".png", &format!(".{}", x)), x),
        None => (s(g), s(p), e),
    };
    sc.inputs.push((g.clone(), p, c));
    with_out(&mut sc, out);
    sc.args = arguments(&[g], Some(SUFFIXES[suffix]), OUTS[out].0, order);
    announce(&mut sc, stem, e, SUFFIXES[suffix], out, c);
    sc
}
fn scenes(t: Tier) -> Vec<Scene> {
    let mut v = vec![];
    // every kind of file, without and with an output folder
    for c in 0..CONTENTS.len() + crate::files::NAMES.len() {
        let e = ext(c);
        v.push(one(0, 0, c % 2, c % 5, c, Some(e)));
        if t == Tier::Thorough {
            v.push(one(1, 1, 1 - c % 2, (c + 2) % 5, c, Some(e)));
        }
    }
    // names x suffixes x output folders x orders
    for n in 0..NAMES.len() {
        for u in 0..SUFFIXES.len() {
            for o in 0..OUTS.len() {
                // every (name, folder), (name, suffix) and (suffix, folder) pair occurs
                if t == Tier::Quick && (n + o) % SUFFIXES.len() != u && !(n == 1 && o == u + 1) {
                    continue;
                }
                if t == Tier::Thorough && (n + o + u) % 2 == 1 && (n + o) % SUFFIXES.len() != u {
                    continue;
                }
                v.push(one(n, u, o, (n + u * 2 + o) % 5, (n + o) % 3, None));
            }
        }
    }
    // an older file of the announced name is replaced entirely
    for o in [0, 2] {
        let mut sc = one(0, 0, o, 0, 0, None);
        sc.others.push((sc.outputs[0].0.clone(), vec![0xEE; OLD]));
        v.push(sc);
    }
    // several inputs, in order; the last one of an announced name stays
    let many: &[&[(usize, usize)]] = &[&[(0, 0), (1, 1)], &[(1, 1), (0, 0)], &[(0, 0), (2, 1), (3, 2)], &[(0, 0), (0, 0)], &[(7, 2), (6, 1), (4, 0)], &[(1, 0), (0, 2), (1, 0)], &[(5, 2), (0, 1)]];
    for (i, m) in many.iter().enumerate() {
        for o in 0..3 {
            let mut sc = base_scene();
            with_out(&mut sc, o);
            let mut ins = vec![];
            for (n, c) in m.iter() {
                let (g, p, stem, e) = NAMES[*n];
                ins.push(s(g));
                if !sc.inputs.iter().any(|x| x.1 == p) {
                    sc.inputs.push((s(g), s(p), *c));
                }
                announce(&mut sc, stem, e, "w", o, *c);
            }
            sc.args = arguments(&ins, Some("w"), OUTS[o].0, i % 5);
            v.push(sc);
        }
    }
    // many inputs
    for o in [0, 2] {
        let mut sc = base_scene();
        with_out(&mut sc, o);
        let mut ins = vec![];
        for i in 0..t.pick(12, 40) {
            let c = [0, 1, 2, 5, 9, 3][i % 6];
            let (g, e) = (format!("many/p{:02}.{}", i, ext(c)), ext(c));
            sc.inputs.push((g.clone(), format!("work/{}", g), c));
            announce(&mut sc, &format!("p{:02}", i), e, "w", o, c);
            ins.push(g);
        }
        sc.args = arguments(&ins, Some("w"), OUTS[o].0, 1 + o);
        v.push(sc);
    }
    // the input is a symbolic link; its name counts
    for o in 0..3 {
        let mut sc = base_scene();
        with_out(&mut sc, o);
        sc.inputs.push((s("../side/real.png"), s("side/real.png"), 1));
        sc.links.push((s("work/shown.png"), s("../side/real.png")));
        sc.args = arguments(&[s("shown.png")], Some("w"), OUTS[o].0, 0);
        announce(&mut sc, "shown", "png", "w", o, 1);
        v.push(sc);
    }
    // one input in two spellings
    let mut sc = base_scene();
    sc.inputs.push((s("pic.png"), s("work/pic.png"), 0));
    sc.args = arguments(&[s("pic.png"), s("./pic.png"), s("../work/pic.png")], Some("w"), None, 1);
    announce(&mut sc, "pic", "png", "w", 0, 0);
    v.push(sc);
    // a name that begins with a dash
    let mut sc = base_scene();
    sc.inputs.push((s("-x.png"), s("work/-x.png"), 0));
    sc.args = arguments(&[s("-x.png")], Some("w"), None, 4);
    announce(&mut sc, "-x", "png", "w", 0, 0);
    v.push(sc);
    // nothing to write: no suffix, no inputs, help
    for o in 0..OUTS.len() {
        for order in 0..5 {
            for n in 0..3 {
                let mut sc = base_scene();
                if OUTS[o].2 >= 2 {
                    with_out(&mut sc, o);
                }
                for (g, p, _, _) in &NAMES[..n] {
                    sc.inputs.push((s(g), s(p), 0));
                }
                let ins: Vec<String> = sc.inputs.iter().map(|i| i.0.clone()).collect();
                for help in [false, true] {
                    let mut q = sc.clone();
                    // without a suffix, with a suffix but without inputs, or asking for help
                    let suffix = if help || n == 0 { Some("w") } else { None };
                    q.args = arguments(&ins, suffix, OUTS[o].0, order);
                    if help {
                        q.args.insert(0, s(if order % 2 == 0 { "-h" } else { "--help" }));
                    }
                    v.push(q);
                }
            }
        }
    }
    // the output is an existing file
    for given in ["keep.txt", "./keep.txt", "../side/other.png", "@ROOT@/work/keep.txt", "flink", "pic.png", "w.png"] {
        for order in 0..5 {
            for n in 1..3 {
                let mut sc = base_scene();
                sc.links.push((s("work/flink"), s("keep.txt")));
                for (g, p, _, _) in &NAMES[..n] {
                    sc.inputs.push((s(g), s(p), 0));
                }
                let ins: Vec<String> = sc.inputs.iter().map(|i| i.0.clone()).collect();
                sc.args = arguments(&ins, Some("w"), Some(given), order);
                sc.fails = true;
                v.push(sc);
            }
        }
    }
    for x in v.iter_mut() {
        x.label = format!("cli {}", x.args.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" "));
    }
    v
}
static SCENES: Mutex<Vec<Scene>> = Mutex::new(vec![]);
fn c24_cases(t: Tier) -> Vec<Case> {
    let v = scenes(t);
    let mut ids: Vec<usize> = v.iter().flat_map(|s| s.inputs.iter().map(|i| i.2)).collect();
    ids.sort();
    ids.dedup();
    prepare(&ids);
    let n = v.len() as i64;
    *SCENES.lock().unwrap() = v;
    // slow ones first
    (0..n).map(|i| vec![i]).collect()
}
fn scene_of(k: &Case, t: Tier) -> Scene {
    let mut g = SCENES.lock().unwrap();
    if g.is_empty() {
        *g = scenes(t);
        let sc = g[k[0] as usize].clone();
        drop(g);
        let mut ids: Vec<usize> = sc.inputs.iter().map(|i| i.2).collect();
        ids.dedup();
        prepare(&ids);
        return sc;
    }
    g[k[0] as usize].clone()
}
fn c24_show(k: &Case) -> String {
    SCENES.lock().unwrap().get(k[0] as usize).map(|s| s.label.clone()).unwrap_or(format!("scene {}", k[0]))
}
fn show_tree(t: &BTreeMap<String, Option<Vec<u8>>>) -> String {
    t.keys().cloned().collect::<Vec<_>>().join(", ")
}
fn c24_run(k: &Case, x: &mut Ctx) -> R {
    let sc = scene_of(k, x.tier);
    for (_, c) in &sc.outputs {
        content(*c)?;
    }
    let dir = Scratch::new();
    sc.build(&dir);
    let before = tree(&dir.0);
    let st = sc.command(&dir).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => return fail("harness", format!("the tool does not start: {}", e)),
    };
    let after = tree(&dir.0);
    x.step(1);
    x.validated();
    x.state(&sc.label);
    let show = format!("`{}`", sc.label);
    if sc.fails {
        ensure!(!st.success(), "no-failure", "{} reports success although the output is a file", show);
        ensure!(after == before, "changed", "{} fails but changes files: {} -> {}", show, show_tree(&before), show_tree(&after));
        x.outcome("output is a file: fails, writes nothing");
        return Ok(());
    }
    ensure!(st.success(), "fails", "{} ends with {:?}, signal {:?}; files now: {}", show, st.code(), st.signal(), show_tree(&after));
    let mut expect: BTreeMap<String, Option<usize>> = BTreeMap::new();
    if !sc.outputs.is_empty() {
        for d in &sc.new_dirs {
            expect.insert(d.clone(), None);
        }
    }
    for (p, c) in &sc.outputs {
        expect.insert(p.clone(), Some(*c));
    }
    for (p, b) in &before {
        if expect.get(p).map_or(false, |e| e.is_some()) {
            continue;
        }
        match after.get(p) {
            None => return fail("removed", format!("{} removes {}", show, p)),
            Some(a) => ensure!(a == b, "touched", "{} changes {}, which is not an announced file", show, p),
        }
    }
    for (p, a) in &after {
        if !before.contains_key(p) || expect.get(p).map_or(false, |e| e.is_some()) {
            match (expect.get(p), a) {
                (None, _) => return fail("extra", format!("{} creates {}, expected {:?}", show, p, expect.keys().collect::<Vec<_>>())),
                (Some(None), None) => {}
                (Some(Some(c)), Some(b)) => {
                    if let Err(m) = whole(b, *c) {
                        return fail("content", format!("{}: {} is not the announced file: {}", show, p, m));
                    }
                    ensure!(!b.windows(64).any(|w| w == [0xEE; 64]), "content", "{}: {} still holds parts of the file that was there before", show, p);
                }
                _ => return fail("kind", format!("{}: {} is a file instead of a folder or the reverse", show, p)),
            }
        }
    }
    for (p, e) in &expect {
        ensure!(after.contains_key(p), "missing", "{} does not create {} {}; files now: {}", show, if e.is_some() { "the announced file" } else { "the folder" }, p, show_tree(&after));
    }
    let n = sc.outputs.len();
    x.outcome(&format!("{} announced, {}", n, if n == 0 { s("nothing written") } else { sc.outputs.iter().map(|o| ext(o.1)).collect::<Vec<_>>().join("+") }));
    x.sample(|| show.clone());
    Ok(())
}

// ---------------------------------------------------------------- C30
// [scene, operation, fault]
const FAULTS: &[&str] = &["k", "h", "e5", "e28", "e13", "S28", "s", "i"];
/// one trace entry: operation, path
type Trace = Vec<(String, String)>;
static TRACES: Mutex<Vec<(Scene, Trace)>> = Mutex::new(vec![]);
fn c30_scenes(t: Tier) -> Vec<Scene> {
    let mut v = vec![];
    let mut add = |ins: &[(usize, usize)], out: usize, old: bool| {
        let mut sc = base_scene();
        with_out(&mut sc, out);
        let mut given = vec![];
        for (n, c) in ins {
            let (g, p, stem, _) = NAMES[*n];
            let e = ext(*c);
            let (g, p) = (g.replace(".png", &format!(".{}", e)), p.replace(".png", &format!(".{}", e)));
            given.push(g.clone());
            sc.inputs.push((g, p, *c));
            announce(&mut sc, stem, e, "w", out, *c);
        }
        if old {
            sc.others.push((sc.outputs[0].0.clone(), vec![0xEE; 5000]));
        }
        sc.args = arguments(&given, Some("w"), OUTS[out].0, 0);
        sc.label = format!("cli {}", sc.args.join(" "));
        v.push(sc);
    };
    add(&[(0, 2), (1, 2)], 3, false);
    add(&[(0, 2)], 0, true);
    add(&[(0, 14)], 2, false);
    add(&[(0, 12)], 1, false);
    add(&[(0, 7)], 0, false);
    add(&[(0, 9)], 0, false);
    if t == Tier::Thorough {
        add(&[(0, 11)], 1, false);
        add(&[(0, 2), (2, 1), (4, 0)], 0, false);
        add(&[(0, 0), (2, 14), (4, 7)], 1, true);
        add(&[(0, 4)], 1, false);
        add(&[(0, 8), (2, 13)], 2, false);
        add(&[(0, 5)], 6, false);
        add(&[(0, 10), (7, 3)], 0, false);
    }
    v
}
fn shim(c: &mut Command, log: &Path, fault: Option<(i64, &str)>) {
    c.env("LD_PRELOAD", format!("{}/target/faultshim.so", std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))).env("SIA_LOG", log);
    if let Some((at, kind)) = fault {
        c.env("SIA_AT", at.to_string()).env("SIA_KIND", kind);
    }
}
fn read_trace(p: &Path) -> Trace {
    String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default())
        .lines()
        .filter_map(|l| {
            let mut f = l.splitn(4, ' ');
            let (_, op, _, path) = (f.next()?, f.next()?, f.next()?, f.next()?);
            Some((op.to_string(), path.to_string()))
        })
        .collect()
}
fn c30_cases(t: Tier) -> Vec<Case> {
    let v = c30_scenes(t);
    let mut ids: Vec<usize> = v.iter().flat_map(|s| s.inputs.iter().map(|i| i.2)).collect();
    ids.sort();
    ids.dedup();
    prepare(&ids);
    // fault-free runs, which number the file operations
    let traces: Vec<(Scene, Trace)> = std::thread::scope(|s| {
        let hs: Vec<_> = v.iter().map(|sc| s.spawn(move || fault_free(sc))).collect();
        v.iter().cloned().zip(hs.into_iter().map(|h| h.join().unwrap())).collect()
    });
    let mut cases = vec![];
    for (i, (_, tr)) in traces.iter().enumerate() {
        cases.push(vec![i as i64, -1, 0]);
        let lim = t.pick(60, 4000);
        for (n, (op, _)) in tr.iter().enumerate() {
            // a tool that writes in very many small pieces: the quick tier visits the first and last ones
            if tr.len() > 2 * lim && n >= lim && n < tr.len() - lim {
                continue;
            }
            for (f, kind) in FAULTS.iter().enumerate() {
                let size = op == "read" || op == "write";
                let ok = match kind.as_bytes()[0] {
                    b'k' => true,
                    b'h' => op == "write",
                    b's' => size,
                    b'S' => op == "write",
                    b'i' => !["close", "unlink", "fsync", "stat", "resolve"].contains(&op.as_str()),
                    _ => !["close", "unlink", "fsync"].contains(&op.as_str()) && (*kind != "e13" || !size) && (*kind != "e28" || !["read", "stat", "resolve"].contains(&op.as_str())),
                };
                if ok {
                    cases.push(vec![i as i64, n as i64, f as i64]);
                }
            }
        }
    }
    *TRACES.lock().unwrap() = traces;
    cases
}
fn fault_free(sc: &Scene) -> Trace {
    let dir = Scratch::new();
    sc.build(&dir);
    let logs = Scratch::new();
    let log = logs.0.join("log");
    let mut c = sc.command(&dir);
    shim(&mut c, &log, None);
    let _ = c.status();
    // places relative to the scratch folder, so that traces of different runs compare
    let root = dir.0.to_str().unwrap().to_string() + "/";
    read_trace(&log).into_iter().map(|(o, p)| { let p = if p.starts_with(&root) { p[root.len()..].to_string() } else { format!("work/{}", p) }; (o, p) }).collect()
}
fn c30_show(k: &Case) -> String {
    let g = TRACES.lock().unwrap();
    match g.get(k[0] as usize) {
        Some((sc, tr)) if k[1] >= 0 => {
            let what = match FAULTS[k[2] as usize].as_bytes()[0] {
                b'k' => "killed before".into(),
                b'h' => "killed in the middle of".into(),
                b's' => "partial transfer in".into(),
                b'S' => "disk full in the middle of".into(),
                b'i' => "interruption of".into(),
                _ => format!("error {} of", &FAULTS[k[2] as usize][1..]),
            };
            format!("`{}`: {} operation {} ({} {})", sc.label, what, k[1], tr[k[1] as usize].0, tr[k[1] as usize].1)
        }
        Some((sc, _)) => format!("`{}` without a fault", sc.label),
        None => format!("{:?}", k),
    }
}
fn c30_run(k: &Case, x: &mut Ctx) -> R {
    if TRACES.lock().unwrap().is_empty() {
        c30_cases(x.tier);
    }
    let (sc, tr) = TRACES.lock().unwrap()[k[0] as usize].clone();
    for (_, c) in &sc.outputs {
        content(*c)?;
    }
    let dir = Scratch::new();
    sc.build(&dir);
    let before = tree(&dir.0);
    let logs = Scratch::new();
    let log = logs.0.join("log");
    let mut c = sc.command(&dir);
    let fault = if k[1] >= 0 { Some((k[1], FAULTS[k[2] as usize])) } else { None };
    shim(&mut c, &log, fault);
    let st = match c.status() {
        Ok(s) => s,
        Err(e) => return fail("harness", format!("the tool does not start: {}", e)),
    };
    let after = tree(&dir.0);
    x.step(tr.len() as u64);
    x.validated();
    x.state(k);
    let announced: Vec<&String> = sc.outputs.iter().map(|o| &o.0).collect();
    for (p, b) in &before {
        if announced.contains(&p) {
            continue;
        }
        match after.get(p) {
            None => return fail("removed", format!("{} is gone", p)),
            Some(a) => ensure!(a == b, "touched", "{} was changed; it is {}", p, if sc.inputs.iter().any(|i| i.1 == *p) { "an input" } else { "unrelated" }),
        }
    }
    let state = |i: usize| -> Result<(), String> {
        match after.get(&sc.outputs[i].0) {
            Some(Some(b)) => whole(b, sc.outputs[i].1),
            _ => Err("it does not exist".into()),
        }
    };
    // outputs whose last operation lies before the fault
    let at = if k[1] < 0 { tr.len() } else { k[1] as usize };
    for i in 0..sc.outputs.len() {
        let name = &sc.outputs[i].0;
        let resolved: Vec<&String> = tr.iter().map(|t| &t.1).filter(|p| p.ends_with(Path::new(name).file_name().unwrap().to_str().unwrap())).collect();
        ensure!(!resolved.is_empty() || k[1] >= 0, "missing", "no file operation concerns the announced file {}", name);
        let last = tr.iter().rposition(|t| resolved.contains(&&t.1) && (t.0 == "write" || t.0 == "rename" || t.0 == "close" || t.0 == "create"));
        if let Some(l) = last {
            if l < at {
                if let Err(m) = state(i) {
                    return fail("finished-output", format!("{} was finished before (operation {}) but is not complete: {}", name, l, m));
                }
                x.count("finished outputs found complete", 1);
            }
        }
    }
    if st.success() {
        for (p, b) in &after {
            ensure!(b.is_none() || before.contains_key(p) || announced.contains(&p), "stray", "success is reported, but {} was written, which was not announced", p);
        }
        for i in 0..sc.outputs.len() {
            if let Err(m) = state(i) {
                return fail("false-success", format!("success is reported but {} is not complete: {}", sc.outputs[i].0, m));
            }
        }
    }
    let kind = if k[1] < 0 { "none" } else { FAULTS[k[2] as usize] };
    if k[1] < 0 {
        ensure!(st.success(), "fails", "the run without a fault fails");
    } else {
        let seen = read_trace(&log);
        ensure!(seen.len() > k[1] as usize, "harness", "the fault at operation {} was not reached, only {} operations", k[1], seen.len());
        if FAULTS[k[2] as usize].starts_with('s') {
            // partial transfers are no failure
            ensure!(st.success(), "fails", "a partial transfer makes the tool fail");
        }
    }
    x.outcome(&format!("fault {} in {}: {}", kind, if k[1] < 0 { "-" } else { &tr[k[1] as usize].0 }, match st.code() { Some(0) => "succeeds", Some(_) => "fails", None => "killed" }));
    x.sample(|| c30_show(k));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C24",
            rule: "Command lines over an alphabet of input names, suffixes, output folders, argument orders, file formats, pixel kinds, numbers of inputs, and the lines that must write nothing or fail; each run of the real tool in a scratch folder of its own, the whole folder compared before and after, announced files decoded and compared with the library's result.",
            cases: c24_cases,
            run: c24_run,
            describe: c24_show,
            bounds: |t| json!({"formats": CONTENTS.iter().map(|c| format!("{} {}", c.0, c.1)).collect::<Vec<_>>(), "names": NAMES.len(), "suffixes": SUFFIXES, "folders": OUTS.len(), "orders": 5, "inputs": t.pick("0..3 and 12", "0..3 and 40"), "product": t.pick("every pair of name, suffix and folder", "half of the product, which contains every pair")}),
            assumptions: &["image crate encoders and decoders are trusted", "names are UTF-8"],
            timeout: 120,
            min_outcomes: 10,
        },
        Check {
            id: "C30",
            rule: "The real tool under a preloaded shim that numbers its file operations: at every operation of every scenario each applicable fault (I/O error, disk full before and in the middle, no permission, partial transfer, interruption, kill before and in the middle); afterwards inputs, unrelated files, finished outputs and the reported status are examined.",
            cases: c30_cases,
            run: c30_run,
            describe: c30_show,
            bounds: |t| json!({"scenes": t.pick(6, 13), "faults": FAULTS, "faults_per_run": 1}),
            assumptions: &["file operations go through libc's open, read, write, stat, realpath, mkdir, rename, ftruncate, unlink, fsync and close", "one fault per run", "a crash is a kill of the process, not a power failure"],
            timeout: 120,
            min_outcomes: 12,
        },
    ]
}
