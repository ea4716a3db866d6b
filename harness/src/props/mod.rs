use crate::engine::Space;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: &'static [Space],
}

mod bystanders;
pub mod c01;
mod cards;
mod cli;
mod decoder;
mod gzip;
mod hostile;
mod huge;
mod image;
mod keys;
mod sources;
pub mod table;
pub mod tiles;

pub fn all() -> Vec<&'static Prop> {
    vec![&c01::P, &image::C02, &image::C03, &sources::C04, &sources::C05, &sources::C06, &cards::C07, &cards::C08, &cards::C09, &keys::C10, &table::C11, &table::C12, &table::C13, &tiles::C14, &tiles::C15, &gzip::C16, &hostile::C17, &decoder::C18, &keys::C19, &keys::C20, &cli::C21]
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}
