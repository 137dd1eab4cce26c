//! appmc <property> quick|thorough   explore
//! appmc <property> replay <file>    replay one case
mod accept;
mod cli;
mod compose;
mod json;
mod out;
mod reg;
mod text;

use kit::engine::*;

#[global_allocator]
static A: kit::run::Alloc = kit::run::Alloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let mut mode = Some(match a.get(2).map(|s| s.as_str()) {
        Some("replay") => Mode::Replay(a[3].clone().into()),
        Some("thorough") => Mode::Explore(Tier::Thorough),
        _ => Mode::Explore(Tier::Quick),
    });
    macro_rules! try_all {
        ($($l:expr),* $(,)?) => {$(
            for c in $l {
                if c.id == id {
                    std::process::exit(main_loop(&c, mode.take().unwrap()));
                }
            }
        )*};
    }
    try_all!(compose::checks(), out::checks(), cli::checks(), accept::checks(), [accept::circles()]);
    eprintln!("unknown property {}", id);
    std::process::exit(2);
}
