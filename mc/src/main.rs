use mc::engine::Space;
use mc::runner::Tier;

mod props;

#[global_allocator]
static ALLOC: mc::alloc::Counting = mc::alloc::Counting;

fn registry(id: &str, t: Tier) -> Option<Vec<Space>> {
    props::spaces(id, t)
}

fn main() {
    mc::runner::main(registry, props::assumptions)
}
