use vh::catalog::{tracked_map, tracked_set};
use contain::{algebra, FaultJob, LieJob};
use vh::run::run_cases;

#[path = "../parts/contain.rs"]
mod contain;

#[global_allocator]
static ALLOC: vh::tracked::Counting = vh::tracked::Counting;

fn main() {
    let small = cfg!(miri);
    run_cases(|_, rng, mon| match rng.below(8) {
        0 | 1 => tracked_map(&FaultJob { small }, rng, mon),
        2 => tracked_set(&FaultJob { small }, rng, mon),
        3 => algebra(small, rng, mon),
        4 => tracked_set(&LieJob { small }, rng, mon),
        _ => tracked_map(&LieJob { small }, rng, mon),
    });
}
