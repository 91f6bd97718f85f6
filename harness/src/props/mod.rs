//! The properties and their bounded, exhaustive explorations.

use crate::core::{PropFn, Tier};
use serde_json::Value;

pub mod attrs;
pub mod btree;
pub mod cli;
pub mod corrupt;
pub mod dataset;
pub mod faults;
pub mod format;
pub mod local;
pub mod geometry;
pub mod illformed;
pub mod model;
pub mod remote;
pub mod spatial;
pub mod text;
#[cfg(feature = "web")]
pub mod web;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: PropFn,
    /// A single case that takes longer has hung.
    pub case_secs: u64,
    /// Outcome prefixes that must occur, else the exploration says nothing.
    pub required_outcomes: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub bounds: fn(Tier) -> Value,
}

pub static ALL: &[Prop] = &[geometry::P01, geometry::P02, geometry::P03, model::P04, model::P05, model::P06, dataset::P07, dataset::P08, dataset::P23, spatial::P09, spatial::P10, spatial::P11, btree::P12, btree::P13, attrs::P14, attrs::P15, attrs::P16, remote::P17, faults::P18, remote::P19, faults::P20, corrupt::P21, faults::P22, cli::P24, cli::P25, text::P26, spatial::P27, illformed::P29, format::P30, local::P31, #[cfg(feature = "web")] web::P28];
