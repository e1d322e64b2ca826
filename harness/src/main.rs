mod airway;
mod asr;
mod assembly;
mod config;
mod core;
mod des;
mod display;
mod dms;
mod ese;
mod formats;
mod gen;
mod props;
mod sct;
mod sectors;
mod symbology;
mod tables;
mod topsky;
mod world;
use std::path::{Path, PathBuf};
fn prop(id: &str) -> &'static core::Prop {
    props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3)
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        // worker PROP OUT SEED TIER SCRATCH [CASE]
        Some("worker") => {
            let only = a.get(7).and_then(|s| s.parse().ok());
            std::process::exit(core::worker(prop(&a[2]), Path::new(&a[3]), a[4].parse().unwrap(), a[5] == "thorough", only, Path::new(&a[6])));
        }
        // dump PROFILE: the adaptation of an installation as JSON, for comparison between processes
        Some("dump") => {
            println!("{}", assembly::dump(Path::new(&a[2])));
            std::process::exit(0)
        }
        // check PROP VERIF_DIR [REPLAY]
        Some("check") => {
            let replay = a.get(4).map(PathBuf::from);
            std::process::exit(core::check(prop(&a[2]), Path::new(&a[3]), replay.as_deref()));
        }
        _ => {}
    }
    if a.get(1).map(String::as_str) == Some("probe") {
        let b = std::fs::read(&a[3]).unwrap();
        match a[2].as_str() {
            "sct" => match vatsim_parser::sct::Sct::parse(&b) { Ok(s) => { println!("{s:#?}\n-----\n{s}"); } Err(e) => println!("{e}") },
            "ese" => match vatsim_parser::ese::Ese::parse(&b) { Ok(s) => { println!("{s:#?}"); } Err(e) => println!("{e}") },
            "asr" => match vatsim_parser::asr::Asr::parse(&b) { Ok(s) => { println!("{s:#?}"); } Err(e) => println!("{e}") },
            "symbology" => match vatsim_parser::symbology::Symbology::parse(&b) { Ok(s) => { println!("{s:#?}"); } Err(e) => println!("{e}") },
            "airway" => match vatsim_parser::airway::parse_airway_txt(&b) { Ok(s) => { println!("{s:#?}"); } Err(e) => println!("{e}") },
            "isec" => match vatsim_parser::isec::parse_isec_txt(&b) { Ok(s) => { println!("{s:#?}\n----\n{s}"); } Err(e) => println!("{e}") },
            "aircraft" => println!("{:#?}", vatsim_parser::icao_aircraft::parse_aircraft(&b)),
            "airlines" => println!("{:#?}", vatsim_parser::icao_airlines::parse_airlines(&b)),
            "airports" => println!("{:#?}", vatsim_parser::icao_airports::parse_airports(&b)),
            "navdata" => println!("{:#?}", vatsim_parser::navdata_airports::parse_navdata_airports(&b)),
            "topsky" => println!("{:#?}", vatsim_parser::topsky::Topsky::parse(&PathBuf::from(&a[3]).parent().unwrap().to_path_buf())),
            _ => {}
        }
    }
}
