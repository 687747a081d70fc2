use super::cliruns::*;
use super::embedded;
use super::procs::*;
use super::runs::*;
use crate::engine::{Check, Family};

const RUN_ASSUMPTIONS: &str = "the objective function is a stand-in controlled by the schedule; one poll loop drives async_launch::launch, so completions are observed at quiescent points or in batches in any order";

pub fn c02() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        families: vec![f_c02(), f_c02_long(), f_c02_pair(), real(Family::new("library", 1500, 30000, embedded::best, "sync_launch with closures on worker threads or async objective functions, on real time; the report against the log of calls; non-trivial: concurrency above 1 and more than one call"))],
        assumptions: vec![RUN_ASSUMPTIONS, "for sample size > 1 the mean is compared to 1e-12 relative, and minimality is judged while at most 100 individuals were accepted"],
    }
}
pub fn c03() -> Check {
    Check { id: "C03", level: "exploration", families: vec![f_c03(), f_c03_long(), f_c03_pair(), real(Family::new("library", 1500, 30000, embedded::budget, "sync_launch with closures on worker threads or async objective functions, on real time; the number of calls and the reported counts; non-trivial: concurrency above 1 and more than one call"))], assumptions: vec![RUN_ASSUMPTIONS] }
}
pub fn c04() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        families: vec![f_c04(), f_c04_long(), f_c04_pair(), real(Family::new("library", 1500, 30000, embedded::stop, "sync_launch with closures on worker threads or async objective functions, on real time, with a target or a time limit; non-trivial: concurrency above 1 and more than one call")), cli(Family::new("stops", 600, 12000, stops, "the real binary interrupted, timed out or at its target at a scripted point, with hanging or busy children in flight; non-trivial unless the target was reached with nothing else in flight"))],
        assumptions: vec![RUN_ASSUMPTIONS, "when several results become ready at the same instant, up to that many minus one replacements may still start"],
    }
}
pub fn c05() -> Check {
    Check { id: "C05", level: "exploration", families: vec![f_c05(), f_c05_long(), f_c05_pair(), real(Family::new("library", 1500, 30000, embedded::concurrency, "sync_launch with closures on worker threads or async objective functions, on real time; calls that wait until as many have been started as work conservation demands; non-trivial: concurrency above 1 and more than one call")), real(Family::new("standstill", 500, 10000, embedded::standstill, "20 to 60 short runs of closures or async objective functions one after another, each call of which waits until as many have been started as work conservation demands; non-trivial always")), cli(Family::new("processes", 500, 10000, overlap, "real child processes that only end once so many have been started as work conservation demands; non-trivial if concurrency and budget exceed 1"))], assumptions: vec![RUN_ASSUMPTIONS] }
}
pub fn c06() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        families: vec![f_c06(), f_c06_pair(), real(Family::new("library", 1500, 30000, embedded::failure, "sync_launch with closures on worker threads or async objective functions, on real time, one of which fails; non-trivial: concurrency above 1 and more than one call")), cli(Family::new("processes", 3000, 40000, failures, "a child that exits non-zero, dies of a signal, prints garbage, or a program that cannot be started any more, with hanging, accepted or failing siblings; non-trivial always"))],
        assumptions: vec![RUN_ASSUMPTIONS, "a target reached at the same instant as the first failure leaves both endings open"],
    }
}
pub fn c08() -> Check {
    Check { id: "C08", level: "exploration", families: vec![f_c08(), f_c08_long(), f_c08_pair()], assumptions: vec![RUN_ASSUMPTIONS] }
}
pub fn c14() -> Check {
    Check { id: "C14", level: "exploration", families: vec![f_c14(), f_c14_long(), f_c14_pair(), f_c14_steps(), real(Family::new("files", 2500, 50000, embedded::files, "sync_launch with closures on worker threads or async objective functions, on real time, with report files; every line of the files against the log of calls, also after failures and targets; non-trivial: more than one call"))], assumptions: vec![RUN_ASSUMPTIONS] }
}
pub fn c15() -> Check {
    Check { id: "C15", level: "exploration", families: vec![f_c15(), f_c15_long(), f_c15_pair(), f_c15_steps(), Family::new("logging", 900, 18000, super::c09::logging, "up to 24 generated runs without a logger, repeated in a process that logs everything; the traces (values, ids, seeds, adaptive parameters, report) must be equal; non-trivial: more than 3 evaluations").shrink(120).cpu(60), cli(Family::new("child_bytes", 700, 14000, child_bytes, "children that print arbitrary bytes; each case runs with and without --verbose; non-trivial always"))], assumptions: vec![RUN_ASSUMPTIONS] }
}
pub fn c01() -> Check {
    Check { id: "C01", level: "exploration", families: vec![f_c01(), f_c01_ops(), f_c01_steps(), f_c01_pair()], assumptions: vec![RUN_ASSUMPTIONS] }
}
fn real(f: Family) -> Family {
    f.threads(8).shrink(300).cpu(0).wall(240)
}
fn cli(f: Family) -> Family {
    f.threads(12).shrink(120).cpu(0)
}
const CLI_ASSUMPTIONS: &str = "the cases run the real binary as unprivileged users with a scratch directory of their own; a supervisor adopts, looks for and removes what a run leaves behind";

pub fn c07() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        families: vec![
            cli(Family::new("endings", 1500, 30000, endings, "the real binary with hanging, forking, signal-ignoring children; the run is ended by budget, target, failure, launch failure, interrupt or time limit; non-trivial if something was alive when the run ended or a child left descendants behind")),
            cli(Family::new("timeouts", 600, 12000, timeouts, "--kill-obj-func-after with children that hang or finish in time, also while the tool is stopped; non-trivial if a hanging or a certainly-in-time evaluation was judged")),
        ],
        assumptions: vec![CLI_ASSUMPTIONS, "descendants that leave the child's process group are not the tool's to find", "a finished evaluation is judged to be in time only with 0.3 to 0.5 s to spare"],
    }
}
pub fn c16() -> Check {
    Check {
        id: "C16",
        level: "exploration",
        families: vec![
            cli(Family::new("protocol", 6000, 60000, protocol, "the real binary with scripted children that print generated outputs; model of the run, its exit status, stdout and files; non-trivial always")),
            cli(Family::new("out_dirs", 4000, 30000, out_dirs, "an output path that is absent, a directory, a file or a link, with and without --force; non-trivial always")),
            cli(Family::new("options", 6000, 60000, options, "one invalid option, spec file, initial guess or program in an otherwise valid command line; non-trivial always")),
        ],
        assumptions: vec![CLI_ASSUMPTIONS, "parameter sets are small enough for one command-line argument"],
    }
}
