//! Instantiates the generic parts of the measurement code. This crate is
//! instrumented like cmakeperf itself (see ../rustc-wrapper), so that atomic
//! operations of code instantiated here are visible to the explorer.
use cmakeperf::{commands::CompilationDatabase, measure::*};
use std::{num::NonZeroUsize, panic::AssertUnwindSafe, path::PathBuf};

pub struct Step(pub Box<dyn FnMut() + Send>);

pub fn start(
    path: PathBuf,
    database: &CompilationDatabase,
    measure_time: bool,
    concurrency: Option<NonZeroUsize>,
    step: Step,
    done: Box<dyn FnOnce(Result<(), MeasureError>) + Send>,
) -> Measurement {
    let mut step = AssertUnwindSafe(step);
    Measurement::start(
        path,
        database,
        measure_time,
        concurrency,
        move || {
            let step = &mut step;
            (step.0 .0)()
        },
        move |r| done(r),
    )
}
