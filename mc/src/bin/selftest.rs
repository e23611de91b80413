fn main() { match mc::refs::selftest() { Ok(()) => println!("reference models agree with published vectors"), Err(e) => { eprintln!("{e}"); std::process::exit(2) } } }
