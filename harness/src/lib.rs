pub mod adv;
pub mod gen;
pub mod ipc;
pub mod known;
pub mod model;
pub mod observe;
pub mod phys;
pub mod props_array;
pub mod props_build;
pub mod props_arrow;
pub mod props_expr;
pub mod props_mem;
pub mod props_scalar;
pub mod props_serde;
pub mod props_stats;
pub mod props_time;
pub mod props_make;
pub mod props_view;
pub mod run;

pub mod cli;
