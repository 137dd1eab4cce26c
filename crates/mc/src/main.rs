//! mc <property> quick|thorough   explore
//! mc <property> replay <file>    replay one case
mod api;
mod bare;
mod pipe;
mod poly;
mod pred;
mod refine;

use kit::engine::*;

#[global_allocator]
static A: kit::run::Alloc = kit::run::Alloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let mut mode = Some(match a.get(2).map(|s| s.as_str()) {
        Some("replay") => Mode::Replay(a[3].clone().into()),
        Some("thorough") => Mode::Explore(Tier::Thorough),
        _ => Mode::Explore(Tier::Quick),
    });
    macro_rules! try_all {
        ($($l:expr),* $(,)?) => {$(
            for c in $l {
                if c.id == id {
                    std::process::exit(main_loop(&c, mode.take().unwrap()));
                }
            }
        )*};
    }
    try_all!(
        pipe::checks(),
        [bare::one_mesh()],
        [bare::bare()],
        [bare::container()],
        pred::checks(),
        [poly::location()],
        [poly::relations()],
        [poly::meetings()],
        [poly::splitting()],
        poly::plans(),
        [poly::arranging()],
        refine::checks(),
        [refine::encroachment()],
        [refine::splits()],
        api::checks(),
    );
    eprintln!("unknown property {}", id);
    std::process::exit(2);
}
