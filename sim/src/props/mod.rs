//! One module per property.
use crate::ctx::{Ctx, Res};

macro_rules! props {
    ($($m:ident => $id:literal),* $(,)?) => {
        $(#[cfg(feature = "full")] mod $m;)*
        pub fn run(prop: &str, c: &mut Ctx) -> Res {
            match prop {
                $(#[cfg(feature = "full")] $id => $m::run(c),)*
                "C22" => c22::run(c),
                _ => panic!("harness: no such property {prop}"),
            }
        }
    };
}
mod c22;
#[cfg(feature = "full")]
mod reuse;
props! {
    c01 => "C01",
    c02 => "C02",
    c03 => "C03",
    c04 => "C04",
    c05 => "C05",
    c06 => "C06",
    c07 => "C07",
    c08 => "C08",
    c09 => "C09",
    c10 => "C10",
    c11 => "C11",
    c12 => "C12",
    c13 => "C13",
    c14 => "C14",
    c15 => "C15",
    c16 => "C16",
    c17 => "C17",
    c18 => "C18",
    c19 => "C19",
    c24 => "C24",
    c25 => "C25",
}
