//! C13: safe use never causes undefined behaviour. Meant for Miri and AddressSanitizer; the native
//! builds see what shows as a wrong answer, a failed check of the standard library, or a crash.
#[path = "../parts/safe.rs"]
mod safe;

fn main() {
    vh::run::run_cases(|_, rng, mon| safe::any(rng, mon));
}
