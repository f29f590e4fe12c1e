mod gen;
mod model;
mod props;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    props::run(&id)
}
