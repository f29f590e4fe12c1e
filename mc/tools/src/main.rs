mod objs;
mod run;
mod sorter;
mod split;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    match id.as_str() {
        "C08" => sorter::c08(),
        "C09" => sorter::c09(),
        "C10" => sorter::c10(),
        "C11" => split::c11(),
        "C12" => split::c12(),
        _ => panic!("unknown property {id}"),
    }
}
