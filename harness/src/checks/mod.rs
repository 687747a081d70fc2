use crate::engine::Check;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c11run;
pub mod c12;
pub mod c13;
pub mod c17;
pub mod cliruns;
pub mod embedded;
pub mod procs;
pub mod runs;
pub mod small;

pub fn all() -> Vec<Check> {
    vec![
        small::c01(),
        small::c02(),
        small::c03(),
        small::c04(),
        small::c05(),
        small::c06(),
        small::c07(),
        small::c08(),
        c09::check(),
        c10::check(),
        c11::check(),
        c12::check(),
        c13::check(),
        small::c14(),
        small::c15(),
        small::c16(),
        c17::check(),
    ]
}
