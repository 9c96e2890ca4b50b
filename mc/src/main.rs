#[macro_use]
mod engine;
mod rm;
mod sys;

#[global_allocator]
static GLOBAL: sys::Alloc = sys::Alloc;

mod c_code;
mod c_embed;
mod c_feat;
mod c_misc;
#[cfg(feature = "img")]
mod c_cli;
#[cfg(feature = "img")]
mod files;
#[cfg(feature = "img")]
mod c_hist;
#[cfg(feature = "img")]
mod c_img;
#[cfg(feature = "web")]
mod c_web;
use engine::*;

fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(c_embed::checks());
    v.extend(c_code::checks());
    v.extend(c_feat::checks());
    v.extend(c_misc::checks());
    #[cfg(feature = "img")]
    {
        v.extend(c_img::checks());
        v.extend(c_hist::checks());
        v.extend(c_cli::checks());
    }
    #[cfg(feature = "web")]
    v.extend(c_web::checks());
    v
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let cs = checks();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &cs {
                println!("{}", c.id);
            }
            0
        }
        Some("replay") => replay(&cs, &a[2]),
        Some(id) => match cs.iter().find(|c| c.id == id) {
            Some(c) => execute(c, tier, seed, &root),
            None => 2,
        },
        None => 2,
    };
    std::process::exit(code);
}
