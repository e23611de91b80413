use hacspec_dev::*;
create_test_vectors!(V, x: u32);
fn main() {
    let p = std::env::temp_dir().join(format!("c30-{}", std::process::id()));
    std::fs::write(&p, format!("[{}]", (0..5000).map(|i| format!("{{\"x\": {}}}", i)).collect::<Vec<_>>().join(","))).unwrap();
    let v = V::new_array(Box::leak(p.to_str().unwrap().to_string().into_boxed_str()));
    std::fs::remove_file(p).unwrap();
    assert_eq!(v.len(), 5000);
}
