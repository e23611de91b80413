//! Says how it was built (see C34).
fn main() {
    let n = std::hint::black_box(255u8);
    println!("{}", if cfg!(debug_assertions) || std::panic::catch_unwind(|| n + 1).is_err() { "with" } else { "without" });
}
