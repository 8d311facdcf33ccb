//! The monitor of logging, apart from the others because it compiles the recognizer with its `log` feature.
#![allow(dead_code, unused_imports)]

#[path = "../../core/src/cost.rs"]
mod cost;
#[path = "../../core/src/deep.rs"]
mod deep;
#[path = "../../core/src/drive.rs"]
mod drive;
#[path = "../../core/src/eval.rs"]
mod eval;
#[path = "../../core/src/examples.rs"]
mod examples;
#[path = "../../core/src/forest.rs"]
mod forest;
#[path = "../../core/src/gram.rs"]
mod gram;
#[path = "../../core/src/helpers.rs"]
mod helpers;
#[path = "../../core/src/memsafe.rs"]
mod memsafe;
#[path = "../../core/src/parse.rs"]
mod parse;
#[path = "../../core/src/refr.rs"]
mod refr;
#[path = "../../core/src/report.rs"]
mod report;
#[path = "../../core/src/spy.rs"]
mod spy;
#[path = "../../core/src/tables.rs"]
mod tables;
mod logging;

use common::Check;

fn main() {
    common::main(&[Check { id: "C25", quick: 40_000, thorough: 2_000_000, run: logging::c25 }]);
}
