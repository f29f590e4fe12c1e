mod cache;
mod compress;
mod ctl;
mod denylist;
mod download;
mod endpoints;
mod fixture;
mod index;
mod ranges;
mod requests;
mod step;
mod sched;
mod scope;
mod select;
mod sys;
mod frames;
mod js;
mod jvm;
mod native;
mod context;
mod crash;
mod outcomes;
mod scrape;
mod tokens;
mod wire;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C20") => cache::c20(),
        Some("C21") => cache::c21(),
        Some("C22") => cache::c22(),
        Some("C23") => cache::c23(),
        Some("C24") => cache::c24(),
        Some("C25") => cache::c25(),
        Some("C26") => cache::c26(),
        Some("C27") => download::c27(),
        Some("C28") => ranges::c28(),
        Some("C29") => compress::c29(),
        Some("C30") => denylist::c30(),
        Some("C31") => index::c31(),
        Some("C32") => scope::c32(),
        Some("C33") => select::c33(),
        Some("C34") => tokens::c34(),
        Some("C35") => js::c35(),
        Some("C36") => scrape::c36(),
        Some("C37") => frames::c37(),
        Some("C38") => native::c38(),
        Some("C39") => outcomes::c39(),
        Some("C40") => context::c40(),
        Some("C41") => crash::c41(),
        Some("C42") => crash::c42(),
        Some("C43") => crash::c43(),
        Some("C44") => jvm::c44(),
        Some("C45") => requests::c45(),
        Some("C46") => endpoints::c46(),
        x => {
            eprintln!("unknown property {x:?}");
            std::process::exit(2)
        }
    }
}
