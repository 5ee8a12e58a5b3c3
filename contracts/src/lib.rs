#![allow(clippy::all)]

pub mod src;
pub mod native;
pub mod registry;
pub mod toy;
pub mod fx;
pub mod st;
pub mod world;
pub mod rec;
pub mod tp;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;

use registry::Property;

pub const PROPERTIES: &[Property] = &[c01::PROPERTY, c02::PROPERTY, c03::PROPERTY, c04::PROPERTY, c05::PROPERTY, c06::PROPERTY, c07::PROPERTY, c08::PROPERTY, c09::PROPERTY, c10::PROPERTY, c11::PROPERTY, c12::PROPERTY, c13::PROPERTY, c14::PROPERTY, c15::PROPERTY, c16::PROPERTY, c17::PROPERTY, c18::PROPERTY, c19::PROPERTY, c20::PROPERTY, c21::PROPERTY, c22::PROPERTY];
