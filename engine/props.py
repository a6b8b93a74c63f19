"""The properties: which probe crates decide them, in which configurations, and the number of obligations counted on the unchanged tree."""

from . import audit, effects, features, witness

PROPS = {
    "C01": dict(extra=[audit.safety], entries=700,
                rule="at every unsafe operation reachable from a function that users can call, with arbitrary arguments: unchecked indices are in range, what is assumed "
                     "initialised has been written on every path, pointer casts and transmutes connect types whose layouts are guaranteed to agree; functions that reach no unsafe "
                     "operation in the call graph hold trivially. A violation is a requirement that a random interpretation of the summary falsifies on a feasible path",
                explanation="sweep over every public safe function of the library, each summarised by abstract interpretation of the type-checked source (THIR) on symbolic arguments and "
                            "concrete dimensions (0 included), plus an inventory of all unsafe operations in the source"),
    "C02": dict(extra=[audit.ownership], entries=700,
                rule="ownership ledger: for each element value, bitwise copies out of a place (+1 owner) and values forgotten, overwritten or going out of scope inside MaybeUninit / ManuallyDrop "
                     "storage (-1 owner) balance on every path, and at every call into user code nothing has two owners that would both be dropped by unwinding; all other moves are "
                     "linear by the type checker",
                explanation="sweep over every public safe function of the library with a type parameter that may own something, abstractly interpreted (THIR, move tracking for uninitialised "
                            "storage) on symbolic arguments and concrete dimensions"),
    "C03": dict(extra=[witness.witnesses], floor=400,
                rule="each witness program that the interface has to accept type-checks and its twin, the smallest change away, is rejected by the type or borrow checker for the stated reason",
                explanation="type-level witnesses: pairs of programs over the public interface given to the compiler's front end (type and borrow checking only, nothing is executed)"),
    "C04": dict(extra=[audit.returning], entries=700,
                rule="no panic of the summary is feasible: not by an index inside the dimensions, an unwrap, an arithmetic underflow, an explicit panic, a loop whose iterations cannot end it or a "
                     "recursion that no condition ends. A violation is a panic condition that a random interpretation satisfies",
                explanation="sweep over every public function of the library, each summarised by abstract interpretation of the type-checked source (THIR) on symbolic arguments and "
                            "concrete dimensions (0 included); the feasibility of every panic event is decided under the gates of its path"),
    "C05": dict(extra=[features.matrix], floor=8000,
                rule="every combination of the features type-checks; without std no crate of the build links the standard library; every item of the full build that belongs to no disabled "
                     "feature exists with the same interface; every function has the same typed program as in the full build, and where one differs the specifications of the other "
                     "properties are decided again under that combination",
                explanation="comparison of the type-checked programs (THIR, implementations named by what they implement) of all eight feature combinations of std, rand and approx"),
    "C06": dict(extra=[effects.pure], entries=700,
                rule="no path of the call graph from a public function (or a Drop implementation) reaches a static that can change, thread-local state, or a function outside the library whose "
                     "purpose is an effect (input and output, clocks, environment, threads, entropy, process-wide generators, volatile access)",
                explanation="call-graph reachability over the type-checked source (THIR) of the library and of the generic code of its dependencies, implementations resolved by type"),
    "C10": dict(probes=[("c10", "default")], floor=1398),
    "C11": dict(probes=[("c11", "default")], floor=1274),
    "C12": dict(probes=[("c12", "default")], floor=3967),
    "C13": dict(probes=[("c13", "default")], floor=697),
    "C14": dict(probes=[("c14", "default")], floor=1508),
    "C15": dict(probes=[("c15", "default")], floor=1840),
    "C16": dict(probes=[("c16", "default")], floor=429),
    "C17": dict(probes=[("c17", "default")], floor=133),
    "C18": dict(probes=[("c18", "default")], floor=601),
    "C20": dict(probes=[("c20", "default")], floor=119),
    "C21": dict(probes=[("c21", "default")], floor=80),
    "C22": dict(probes=[("c22", "default")], floor=31),
    "C23": dict(probes=[("c23", "default")], floor=323),
    "C24": dict(probes=[("c24", "default")], floor=30),
    "C25": dict(probes=[("c25", "default")], floor=133),
    "C26": dict(probes=[("c26", "default")], floor=119),
    "C27": dict(probes=[("c27", "default")], floor=219),
}
