fn main() {
    let a: Vec<String> = std::env::args().collect();
    symrt::load(&a[3]);
    if !harness::call(&a[1], a[2].parse().unwrap()) { println!("no entry {}", a[1]); symrt::finish(3) }
    println!("DONE");
    symrt::finish(0)
}
