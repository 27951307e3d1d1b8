use crate::core::Property;

mod bulk;
mod c01;
mod c04;
mod c05;
mod c07;
pub mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
pub use c12::print_ids;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
pub mod c20;
mod c22;
mod c23;

pub fn all() -> Vec<Property> {
    vec![
        c01::c01(),
        c01::c02(),
        c01::c03(),
        c04::c04(),
        c05::property(),
        c04::c06(),
        c07::property(),
        c08::property(),
        c09::property(),
        c10::property(),
        c11::property(),
        c12::property(),
        c13::property(),
        c14::property(),
        c15::property(),
        c16::property(),
        c17::property(),
        c18::property(),
        c19::property(),
        c20::property(),
        c20::broadcast_property(),
        c22::property(),
        c23::property(),
    ]
}
