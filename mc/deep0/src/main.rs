// The child of a "deep0" case: the library without optimisation.
#[path = "../../src/deepchild.rs"]
mod deepchild;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(deepchild::child(&a[2..]));
}
