use crate::core::Prop;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
pub mod c10;
mod c11;
mod c12;
mod c15;
pub mod c16;
mod c17;
mod c18;
pub mod c19;

pub fn all() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop()]
}
