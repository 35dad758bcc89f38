use crate::core::Ctx;

mod generators;
pub mod history;
mod independence;
mod inputs;
mod learning;
mod parallel;
mod params;
mod reward;
mod sampling;
mod search;
mod structure;

pub const ALL: &[(&str, fn(&mut Ctx))] = &[
    ("C01", params::c01),
    ("C02", structure::c02),
    ("C03", structure::c03),
    ("C04", structure::c04),
    ("C05", params::c05),
    ("C06", params::c06),
    ("C07", sampling::c07),
    ("C08", sampling::c08),
    ("C09", sampling::c09),
    ("C10", generators::c10),
    ("C11", generators::c11),
    ("C12", learning::c12),
    ("C13", learning::c13),
    ("C14", learning::c14),
    ("C15", independence::c15),
    ("C16", independence::c16),
    ("C17", search::c17),
    ("C18", parallel::c18),
    ("C19", history::c19),
    ("C20", structure::c20),
    ("C21", reward::c21),
    ("C22", reward::c22),
    ("C23", inputs::c23),
    ("C24", history::c24),
    ("C25", sampling::c25),
];
