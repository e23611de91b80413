use hacspec_dev::*;
create_test_vectors!(V, x: u32);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let put = |n: &str, s: &str| -> &'static str { let p = std::env::temp_dir().join(format!("c30-{}-{}", std::process::id(), n)); std::fs::write(&p, s).unwrap(); Box::leak(p.to_str().unwrap().to_string().into_boxed_str()) };
    let (good, bad) = (put("a", "{\"x\": 3}\n"), put("b", "{\"x\": 3} {\"x\": 4}"));
    let x = V::new(good).x;
    let r = std::panic::catch_unwind(|| V::new(bad).x);
    std::fs::remove_file(good).unwrap();
    std::fs::remove_file(bad).unwrap();
    assert_eq!(x, 3);
    assert!(r.is_err(), "a file with content after the record was read");
}
