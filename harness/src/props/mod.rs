//! One module per property: workload + oracle.

use crate::ctx::Ctx;

macro_rules! props {
    ($($m:ident),* $(,)?) => {
        $(mod $m;)*
        pub fn all() -> Vec<PropDef> {
            vec![$($m::DEF),*]
        }
    };
}

props!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c29, c30, c31, c32, c33, c34, c35, c36, c37, c39);

#[derive(Clone)]
pub struct PropDef {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx),
    /// Counters that must be non-zero for the run to decide anything.
    pub needs: &'static [&'static str],
    pub rule: &'static str,
}

pub fn find(id: &str) -> Option<PropDef> {
    all().into_iter().find(|p| p.id == id)
}

pub fn show_input(_args: &[String]) -> i32 {
    0
}
