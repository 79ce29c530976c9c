mod body;
mod extract;
mod ty;
mod widen;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("widen") => widen::main(&a[2..]),
        Some("extract") => extract::main(&a[2..]),
        _ => panic!("usage"),
    }
}
