//! Monitors of the recognizer, the compiled grammar and the bocages.

mod cost;
mod deep;
mod drive;
mod eval;
mod examples;
mod forest;
mod gram;
mod helpers;
mod isolate;
mod memsafe;
mod parse;
mod refr;
mod report;
mod spy;
mod tables;

#[cfg(feature = "counting")]
#[global_allocator]
static ALLOC: common::alloc::Counting = common::alloc::Counting;

use common::Check;

fn main() {
    common::main(&[
        Check { id: "C01", quick: 60_000, thorough: 4_000_000, run: parse::c01 },
        Check { id: "C02", quick: 60_000, thorough: 4_000_000, run: parse::c02 },
        Check { id: "C03", quick: 40_000, thorough: 3_000_000, run: parse::c03 },
        Check { id: "C04", quick: 40_000, thorough: 3_000_000, run: report::c04 },
        Check { id: "C05", quick: 30_000, thorough: 2_000_000, run: parse::c05 },
        Check { id: "C06", quick: 40_000, thorough: 3_000_000, run: forest::c06 },
        Check { id: "C07", quick: 40_000, thorough: 3_000_000, run: forest::c07 },
        Check { id: "C08", quick: 25_000, thorough: 1_500_000, run: parse::c08 },
        Check { id: "C09", quick: 40_000, thorough: 3_000_000, run: forest::c09 },
        Check { id: "C10", quick: 50_000, thorough: 3_000_000, run: forest::c10 },
        Check { id: "C11", quick: 50_000, thorough: 3_000_000, run: eval::c11 },
        Check { id: "C12", quick: 24_000, thorough: 600_000, run: eval::c12 },
        Check { id: "C13", quick: 40_000, thorough: 3_000_000, run: eval::c13 },
        Check { id: "C14", quick: 40_000, thorough: 3_000_000, run: tables::c14 },
        Check { id: "C15", quick: 16_000, thorough: 600_000, run: tables::c15 },
        Check { id: "C19", quick: 4_000, thorough: 200_000, run: memsafe::c19 },
        Check { id: "C20", quick: 20_000, thorough: 400_000, run: cost::c20 },
        Check { id: "C21", quick: 40_000, thorough: 3_000_000, run: parse::c21 },
        Check { id: "C22", quick: 40_000, thorough: 2_000_000, run: helpers::c22 },
        Check { id: "C23", quick: 40_000, thorough: 3_000_000, run: report::c23 },
        Check { id: "C26", quick: 40_000, thorough: 1_000_000, run: isolate::c26 },
        Check { id: "C24", quick: 4_000, thorough: 200_000, run: examples::c24 },
    ]);
}
