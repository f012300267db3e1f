//! Decides the properties of osm-io. The real implementation, built against a standard library
//! under a controlled scheduler, is run under every schedule of small scenarios; sequential code is
//! run on every member of bounded spaces of inputs, histories and faults.
mod calls;
mod columns;
mod conv;
mod dump;
mod effects;
mod files;
mod inputs;
mod io;
mod laws;
mod memory;
mod par;
mod pipe;
mod places;
mod leaks;
mod settings;
mod together;
mod sizes;
mod read_par;
mod read_seq;
mod reuse;
mod seq;
mod values;
mod write_par;
use oracle::driver::*;

#[global_allocator]
static MEMORY: memory::Counting = memory::Counting;

const SC: &str = "memory is sequentially consistent: reorderings of relaxed atomics are not explored";
const POOL: &str = "the workers of a pool are interchangeable, so schedules that differ only in which idle worker takes a command are explored once";
const COPY: &str = "the independent parser and generator of the dump format (mc/oracle) are right; the schema of the database is as written there";
const REF: &str = "the reference encoder and decoder of the PBF format (mc/oracle) are right";

macro_rules! check {
    ($id:expr, $level:expr, $f:path, $rule:expr $(, $a:expr)*) => {
        Check { id: $id, level: $level, rule: $rule, assumptions: &[$($a),*], run: |ctx| { io::init(oracle::scratch::root().to_str().unwrap(), Some(par::file_point)); $f(ctx) } }
    };
}

fn main() {
    // every check runs in a time zone that nobody can take for UTC, with a change of its own within a year
    std::env::set_var("TZ", "XST+03:37:11XDT,M3.2.0,M11.1.0");
    oracle::driver::main(&[
        check!("C01", "exploration", seq::c01, "one case per input and division into calls", REF),
        check!("C02", "exploration", seq::c02, "one case per input, division into calls and writer", REF),
        check!("C03", "exploration", read_seq::c03, "one case per encoding of the data, or order of steps of several iterators", REF),
        check!("C12", "fault_enumeration", read_seq::c12, "one case per damage to the file and way of reading; damage that leaves a sound file is left out", REF),
        check!("C17", "exploration", laws::c17, "one case per element with all its partners, or per stretch of lists to sort"),
        check!("C21", "exploration", laws::c21, "one case per stretch of texts, merges or coordinates"),
        check!("C04", "exploration", seq::c04, "one case per header and writer", REF),
        check!("C05", "exploration", seq::c05, "one case per list of required and optional features", REF),
        check!("C06", "model_checking", read_par::c06, "one case per file layout and number of tasks; all schedules of the pool's threads are executed on the real code", SC, POOL, REF),
        check!("C07", "model_checking", read_par::c07, "one case per set of failing callback calls or damaged block, and number of tasks; all schedules are executed", SC, POOL, REF),
        check!("C08", "model_checking", write_par::c08, "one case per buffer size, block size and history of calls; all schedules of the caller and the six threads of the writer", SC, POOL, REF),
        check!("C09", "model_checking", write_par::c09, "one case per buffer size, block size and history of calls that the buffer cannot restore for sure", SC, POOL, REF),
        check!("C10", "fault_enumeration", effects::c10, "one case per history and failing call to the operating system", SC, POOL, REF),
        check!("C13", "exploration", dump::c13, "one case per history of elements"),
        check!("C14", "exploration", dump::c14, "one case per history of versions", COPY),
        check!("C15", "exploration", dump::c15, "one case per history of versions", COPY),
        check!("C16", "exploration", dump::c16, "one case per order of rows, columns and tables", COPY),
        check!("C18", "model_checking", write_par::c18, "one case per pipeline or pair of writers", SC, POOL, REF),
        check!("C19", "model_checking", write_par::c19, "one case per buffer size, block size and history of calls; the file is looked at after each call", SC, POOL, REF),
        check!("C20", "fault_enumeration", effects::c20, "one case per operation and deviation of the operating system", COPY),
        check!("C22", "exploration", effects::c22, "one case per input and sequence of reading operations"),
        check!("C23", "fault_enumeration", effects::c23, "one case per damage or failing call; trivial where everything is read all the same", COPY),
        check!("C24", "exploration", pipe::c24, "one case per history, direction and writer, or placement of sentinels", REF, COPY),
        check!("C25", "exploration", read_seq::c25, "one case per encoding of the data, or header, or length of a blob", REF),
        check!("C26", "exploration", pipe::c26, "one case per stretch of timestamps"),
        check!("C27", "exploration", reuse::c27, "one case per history of operations over the same places, or order of steps of several readers", REF, COPY),
        check!("C28", "exploration", memory::c28, "one case per way of processing, shape of the data and order of the threads; memory is compared for two lengths of the data", SC),
        check!("C29", "fault_enumeration", calls::c29, "one case per sequence of calls; sequential writers with each failing call to the operating system, the parallel writer under every schedule", SC, POOL, REF, COPY),
        check!("C30", "exploration", places::c30, "one case per name, spelling of the path and use of the place", REF, COPY),
        check!("C31", "exploration", settings::c31, "one case per combination of settings and data", SC, POOL, REF, COPY),
        check!("C32", "fault_enumeration", leaks::c32, "one case per operation, input and failing call", SC, POOL),
        check!("C33", "exploration", sizes::c33, "one case per size, part of an element and path; or shape of a block", SC, REF, COPY),
        check!("C34", "model_checking", together::c34, "one case per pair or triple of operations and order of the threads; small ones under every schedule", SC, POOL, REF, COPY),
        check!("C35", "exploration", columns::c35, "one case per value of a column, pair of values, or strange column, table or entry", COPY),
        check!("C36", "exploration", values::c36, "one case per two first steps on a pool of elements or a file info with all that may follow, per sequence of steps on a block, or per edges of a box", REF),
        check!("C11", "model_checking", read_par::c11, "one case per set of coordinates and their placement in blocks and groups", SC, POOL, REF),
    ]);
}
