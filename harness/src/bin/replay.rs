fn main() {
  let a: Vec<String> = std::env::args().collect();
  let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
  let name = v["entry"].as_str().unwrap().to_string();
  let f = harness::entry(&name).unwrap_or_else(|| panic!("no entry {name}"));
  let inputs = v["inputs"].clone();
  std::panic::set_hook(Box::new(|i| {
    println!("REPLAY-PANIC {i}");
  }));
  let h = std::thread::Builder::new()
    .stack_size(256 << 20)
    .spawn(move || {
      harness::vx::load(inputs);
      f()
    })
    .unwrap();
  match h.join() {
    Ok(()) => println!("REPLAY-OK"),
    Err(_) => std::process::exit(2),
  }
}
