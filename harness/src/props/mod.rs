use crate::ctx::{Ctx, Res};
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c08;
pub mod c10;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod many;
pub mod sizes;

pub type CaseFn = fn(&mut Ctx) -> Res;

pub fn find(id: &str) -> Option<CaseFn> {
    Some(match id {
        "C01" => c01::case,
        "C02" => c02::case,
        "C03" => c03::case,
        "C04" => c04::pool,
        "C05" => c04::approx,
        "C06" => c06::compress,
        "C07" => c06::decompress,
        "C08" => c08::round_trip,
        "C09" => c08::format,
        "C10" => c10::verdicts,
        "C11" => c10::hostile,
        "C12" => c12::case,
        "C13" => c13::case,
        "C14" => c14::case,
        "C17" => c17::case,
        "C18" => c18::case,
        "C19" => c19::case,
        "C20" => c20::case,
        "C21" => c21::case,
        _ => return None,
    })
}
