"""Which monitors run in which build variants for each property."""
BUDGET = {"quick": 120, "thorough": 2400}


# more cases in the quick tier where they are cheap
MULT = {"C01": 1.5, "C02": 4, "C03": 8, "C05": 3, "C06": 3, "C07": 3, "C08": 6, "C09": 3, "C10": 5, "C12": 1.5, "C16": 8, "C17": 3, "C20": 2, "C21": 2,
        "C23": 3, "C25": 3, "C29": 0.8}


def two(b, scale=0.4):
    """the deployed std configuration, and the no_std configuration with overflow checks and debug assertions"""
    return [dict(variant="std-fast", bin=b), dict(variant="alloc-chk", bin=b, scale=scale)]


def std2(b, scale=0.4):
    """for operations that exist in the std configuration only"""
    return [dict(variant="std-fast", bin=b), dict(variant="std-chk", bin=b, scale=scale)]


PROPS = {
    "C01": dict(runs=two("c01"),
                rule="cases are (section list, initial state, input) triples: a dense grid of section counts x lengths x precision with integer data (exact oracle), random lengths around powers of two, long inputs, float data with a rounding-bound oracle, integer-conversion, NaN and buffer-mismatch cases; each is run through every entry point. Distinct = content hash of (sections, length, input)."),
    "C02": dict(runs=two("c02"),
                rule="cases are operation histories over several live filters (chunked feeding through mixed entry points, lazy iterators dropped early, snapshot/restore, interleaving); after every operation the produced samples and section states are compared with the one-shot reference. Distinct = hash of (sections, history)."),
    "C03": dict(runs=two("c03"),
                rule="cases are (numerator, denominator) vectors or section cascades; the oracle solves the fixed-point equation in double-double arithmetic and also drives the real filter with the seeds. Distinct = hash of the coefficients."),
    "C04": dict(runs=two("c04"),
                rule="cases are (section list, stale state, input) with every number of sections and of vanishing b2/a2, every length around the extension; oracle = forward/backward definition in double-double. Distinct = hash of (sections, input)."),
    "C05": dict(runs=two("c05"),
                rule="cases are (matrix shape, storage kind, axis, extension, padding kind, element type); every output element is compared with the index formula. Distinct = hash of the tuple and data."),
    "C06": dict(runs=two("c06"),
                rule="cases are digital design requests; monitors evaluate zeros/poles/gain and sections against the closed-form magnitude at many frequencies, check root placement, counts and conjugacy. Distinct = hash of the request."),
    "C07": dict(runs=two("c07"),
                rule="cases are conjugate-closed root sets with gains (integer lattice = exact oracle; random, repeated, near-unit-circle, unbalanced) and designs in all output formats; outputs are evaluated at sample points against the product form in double-double. Distinct = hash of roots and gain."),
    "C08": dict(runs=two("c08"),
                rule="cases are (zeros, poles, gain, frequencies) for every transform; the output system is evaluated at random points against the input system at the substituted point. Distinct = hash of arguments."),
    "C09": dict(runs=two("c09"),
                rule="cases are prototypes (order x ripple) and analog design requests in the three formats, evaluated on the imaginary axis against the closed form. Distinct = hash of the request."),
    "C10": dict(runs=two("c10"),
                rule="cases are design requests over the cross product of families, bands, orders, frequency lists with boundary values, ripples, flags and formats; the validity oracle says reject/accept, accepted results are checked for format and finiteness. Distinct = hash of the request."),
    "C11": dict(runs=two("c11"),
                rule="cases are samples (length, value class, element type); exact real-number oracle in double-double/integers. Distinct = hash of the sample."),
    "C12": dict(runs=two("c12"),
                rule="cases are samples: all permutations of small multisets exhaustively plus random lengths and distributions; oracle = sort. Distinct = hash of the sample."),
    "C13": dict(runs=two("c13"),
                rule="cases are (buffer length, lag count, skip, data); exact integer data and float data with rounding bounds. Distinct = hash of the tuple."),
    "C14": dict(runs=two("c14", 1.0),
                rule="cases are (type, n, k): exhaustive for 8-bit types, dense plus boundary for wider types; big-integer oracle decides value or (with overflow checks) panic. Distinct = (type, n, k)."),
    "C15": dict(runs=two("c15", 1.0),
                rule="cases are (type, function, n, k): exhaustive for 8-bit types, dense grids and boundary values for wider types; big-integer oracle. Distinct = (type, function, n, k)."),
    "C16": dict(runs=two("c16"),
                rule="cases are arguments on the real line (dense sweep, powers of two, branch point, random bit patterns) and vectors/arrays of any shape; oracle = power series / asymptotic evaluation in double-double. Distinct = argument bits."),
    "C17": dict(runs=two("c17"),
                rule="cases are coefficient sequences by element type and iterator form; every matrix element checked, eigenvector relation checked. Distinct = hash of the coefficients."),
    "C18": dict(runs=std2("c18"),
                rule="cases are (x, y, mode, entry point): all length pairs 1..=40 plus long ones; oracle = direct sum in double-double / exact integers. Distinct = hash of inputs."),
    "C19": dict(runs=std2("c19"),
                rule="cases are (input length, output length, trigonometric polynomial); oracle evaluates the components at the new points. Distinct = hash of (lengths, components)."),
    "C20": dict(runs=two("c20"),
                rule="cases are (window, order, derivative, spacing, signal); oracle = least squares in double-double on an orthogonal basis. Distinct = hash of the tuple."),
    "C21": dict(runs=two("c21"),
                rule="cases are (times, duty, shape, layout); oracle = interval membership in double-double with switching-point exception. Distinct = hash of times and duty."),
    "C22": dict(runs=[dict(variant="asan", bin="c22"), dict(variant="msan", bin="c22"), dict(variant="std-chk", bin="c22"), dict(variant="alloc-chk", bin="c22"), dict(variant="miri", bin="c22", bg=True)],
                rule="cases are bundles of hostile calls of the safe API (iterators with false size hints, panicking or resurrecting iterators and items, buffers of other lengths, huge sizes, NaN/infinite/extreme numbers, unmatched roots, invalid requests); both outcomes (return, panic) are accepted, the verdict is that of AddressSanitizer, MemorySanitizer, Miri, and std's unsafe-precondition checks, plus drop counting of the items and a usability probe after every bundle. Distinct = hash of the arguments."),
    "C23": dict(runs=[dict(variant="std-fast", bin="c23"), dict(variant="alloc-fast", bin="c23", scale=0.4), dict(variant="alloc-chk", bin="c23", scale=0.4)],
                rule="cases are calls of the non-allocating operations on generated arguments under a counting global allocator; the monitor demands zero allocator calls of the calling thread between entry and exit. Distinct = hash of operation and arguments."),
    "C24": dict(runs=[dict(variant="std-fast", bin="c24", silent=True), dict(variant="alloc-fast", bin="c24", scale=0.5, silent=True), dict(variant="tsan", bin="c24")],
                rule="cases are histories of recorded calls over a registry of all public operations (argument sets in groups of siblings that differ in one argument): reversed order, immediate repetition, random histories, fresh threads, barrier-released storms; every result is compared bit for bit with the first evaluation, the floating-point control register is watched, and one build runs under ThreadSanitizer with an instrumented std. Distinct = hash of the history."),
    "C25": dict(runs=[dict(variant="std-fast", bin="c25", extra=["--log", "c25-std.log"]), dict(variant="alloc-fast", bin="c25", extra=["--log", "c25-alloc.log"])],
                post="post_c25", build_violation="alloc-fast",
                rule="the same generated calls of all operations shared by the two configurations are executed and recorded (arguments, result or rejection) by a std and an alloc-only build; the offline checker compares the logs call by call (bitwise for arithmetic-only operations, 1e-9 / 1e-3 relative to the result norm otherwise). Distinct = hash of operation and arguments."),
    "C26": dict(runs=two("c26"),
                rule="cases are (operation, data, presentation): each iterator-taking operation is run on the same data presented as owned/borrowed items, with exact, unknown, zero-lower and huge-upper size hints, reversed, chained, filtered, stepped and instrumented iterators; results are compared bit for bit and the pull trace is checked online. Distinct = hash of operation, presentation and data."),
    "C27": dict(runs=[dict(variant="plot-fast", bin="c27", extra=["--threads", "1", "--log", "c27.log"], silent=True)], post="post_c27",
                rule="cases are (interpreter behaviour, list of f32 series): the monitor itself is linked as `python` in a scratch PATH and records, delays, exits, is killed, closes its input, floods its outputs or is missing; the caller is watched for panics, unreaped children, descriptor leaks and mutual waiting, and every recorded script is compiled and executed against recording stand-ins for matplotlib. Distinct = hash of behaviour and data."),
    "C28": dict(runs=[dict(variant="std-fast", bin="c25", extra=["--log", "c28.log", "--all"], scale=8.0, tscale=1.0)], post="post_c28",
                rule="generated calls of all operations are executed and recorded (arguments, result or rejection); the offline checker evaluates the SciPy/NumPy counterpart of every call on the same arguments and compares values, shapes, section order and acceptance (roots as multisets). Calls without a counterpart are counted separately. Distinct = hash of operation and arguments.",
                assumptions=["SciPy/NumPy of python3-vt as the reference"]),
    "C29": dict(runs=two("c29"),
                rule="cases are (design request, one or two tones, entry point or zero-phase): the real design is applied to the tones in random chunks, amplitude, phase and residual after settling are fitted and compared with the closed-form magnitude. Tolerance = rounding bound of design and filtering. Distinct = hash of request and tones."),
}
