#![allow(clippy::all)]
#[cfg(any(feature = "wrap", feature = "inx"))]
pub mod agree;
pub mod alloc;
pub mod busy;
pub mod cli;
pub mod cost;
pub mod ctx;
pub mod dbg;
pub mod digest;
pub mod flat;
pub mod gen;
pub mod hist;
pub mod lit;
pub mod loc;
#[cfg(feature = "wrap")]
pub mod pm;
#[cfg(feature = "inx")]
pub mod pmx;
pub mod reflex;
pub mod rng;
pub mod text;
pub mod threads;
pub mod trace;
pub mod vals;

pub fn run(c: &mut ctx::Ctx) {
    match c.prop.clone().as_str() {
        "C01" => text::c01(c),
        "C02" => text::c02(c),
        "C03" => text::c03(c),
        "C04" => text::c04(c),
        "C05" => text::c05(c),
        "C06" => text::c06(c),
        "C08" => text::c08(c),
        "C07" => vals::c07(c),
        "C09" => vals::c09(c),
        "C10" => vals::c10(c),
        #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
        "C11" => loc::c11(c),
        #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
        "C12" => loc::c12(c),
        #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
        "C13" => loc::c13(c),
        #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
        "C14" => loc::c14(c),
        "C15" => hist::c15(c),
        "C16" => hist::c16(c),
        "C17" => hist::c17(c),
        "M17" => hist::m17(c),
        "C18" => threads::c18(c),
        "M18" => threads::m18(c),
        "C21" => digest::c21(c),
        #[cfg(feature = "wrap")]
        "C19" => pm::c19(c),
        #[cfg(feature = "wrap")]
        "P07" => pm::p07(c),
        #[cfg(feature = "wrap")]
        "P09" => pm::p09(c),
        #[cfg(feature = "wrap")]
        "P10" => pm::p10(c),
        #[cfg(feature = "wrap")]
        "C20" => pm::c20(c),
        #[cfg(feature = "wrap")]
        "C22" => pm::c22(c),
        #[cfg(feature = "wrap")]
        "O22" => pm::o22(c),
        #[cfg(feature = "inx")]
        "X20" => pmx::x20(c),
        "C23" => cost::c23(c),
        #[cfg(feature = "wrap")]
        "P23" => cost::p23(c),
        "C24" => dbg::c24(c),
        #[cfg(feature = "wrap")]
        "P24" => pm::p24(c),
        "NOOP" => {}
        p => panic!("no suite {}", p),
    }
}
