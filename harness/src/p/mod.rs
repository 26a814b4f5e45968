//! One module per property.
use crate::ctx::Ctx;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;
pub mod c32;
pub mod c33;

pub fn run(prop: &str, c: &mut Ctx) -> bool {
    match prop {
        "C01" => c01::run(c),
        "C02" => c02::run(c),
        "C03" => c03::run(c),
        "C04" => c04::run(c),
        "C05" => c05::run(c),
        "C06" => c06::run(c),
        "C07" => c07::run(c),
        "C08" => c08::run(c),
        "C09" => c09::run(c),
        "C10" => c10::run(c),
        "C11" => c11::run(c),
        "C12" => c12::run(c),
        "C13" => c13::run(c),
        "C14" => c14::run(c),
        "C15" => c15::run(c),
        "C16" => c16::run(c),
        "C17" => c17::run(c),
        "C18" => c18::run(c),
        "C19" => c19::run(c),
        "C20" => c20::run(c),
        "C21" => c21::run(c),
        "C22" => c22::run(c),
        "C23" => c23::run(c),
        "C24" => c24::run(c),
        "C25" => c25::run(c),
        "C26" => c26::run(c),
        "C27" => c27::run(c),
        "C28" => c28::run(c),
        "C29" => c29::run(c),
        "C30" => c30::run(c),
        "C31" => c31::run(c),
        "C32" => c32::run(c),
        "C33" => c33::run(c),
        _ => return false,
    }
    true
}

/// Entry of helper processes.
pub fn child(prop: &str, args: &[String]) -> i32 {
    match prop {
        "C10" => c10::child(args),
        "C29" => c29::child(args),
        "C30" => c30::child(args),
        _ => 3,
    }
}
