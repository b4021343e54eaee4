//! One module per group of properties. A build with the feature of one check
//! contains only that check, which is faster to build.

use crate::engine::CheckFn;

mod c_algo;
mod c_conc;
mod c_dyn;
mod c_hier;
mod c_io;
mod c_iter;
mod c_maps;
#[cfg(any(feature = "all", feature = "P28"))]
mod c_mem;
mod c_panic;
mod c_pet;
#[cfg(feature = "P25")]
mod c_prop;
mod c_render;
mod c_repro;
mod c_size;
mod c_views;
mod graph;

pub struct CheckDef {
    pub id: &'static str,
    pub f: CheckFn,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// What a run consists of.
    pub about: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumes: &'static [&'static str],
}

pub const ALL: &[CheckDef] = &[
    #[cfg(any(feature = "all", feature = "P01"))]
    graph::P01,
    #[cfg(any(feature = "all", feature = "P02"))]
    graph::P02,
    #[cfg(any(feature = "all", feature = "P03"))]
    graph::P03,
    #[cfg(any(feature = "all", feature = "P04"))]
    graph::P04,
    #[cfg(any(feature = "all", feature = "P05"))]
    c_io::P05,
    #[cfg(any(feature = "all", feature = "P06"))]
    c_hier::P06,
    #[cfg(any(feature = "all", feature = "P07"))]
    c_maps::P07,
    #[cfg(any(feature = "all", feature = "P08"))]
    c_io::P08,
    #[cfg(any(feature = "all", feature = "P10"))]
    c_panic::P10,
    #[cfg(any(feature = "all", feature = "P11"))]
    c_iter::P11,
    #[cfg(any(feature = "all", feature = "P12"))]
    c_views::P12,
    #[cfg(any(feature = "all", feature = "P13"))]
    c_views::P13,
    #[cfg(any(feature = "all", feature = "P14"))]
    c_conc::P14,
    #[cfg(any(feature = "all", feature = "P15"))]
    c_views::P15,
    #[cfg(any(feature = "all", feature = "P16"))]
    c_algo::P16,
    #[cfg(any(feature = "all", feature = "P17"))]
    c_algo::P17,
    #[cfg(any(feature = "all", feature = "P18"))]
    c_hier::P18,
    #[cfg(any(feature = "all", feature = "P19"))]
    c_algo::P19,
    #[cfg(any(feature = "all", feature = "P20"))]
    c_dyn::P20,
    #[cfg(any(feature = "all", feature = "P21"))]
    c_pet::P21,
    #[cfg(any(feature = "all", feature = "P23"))]
    c_render::P23,
    #[cfg(feature = "P25")]
    c_prop::P25,
    #[cfg(any(feature = "all", feature = "P26"))]
    c_size::P26,
    #[cfg(any(feature = "all", feature = "P27"))]
    c_repro::P27,
    #[cfg(any(feature = "all", feature = "P28"))]
    c_mem::P28,
];
