"""What decides each property: driver, build flavour, level and what is claimed."""

SCHED_RULE = ("Every interleaving of the scenario's users at shared-memory accesses and system calls, up to the stated numbers of preemptions "
              "(or of delays: preemptions and departures from round-robin order when a user blocks), "
              "deaths and early deadline expiries, is executed, abandoning an execution when it reaches a state already met (same happens-before trace, same running user, no larger remaining budgets); an execution counts as distinct if its per-location order of accesses by users "
              "(its happens-before trace) differs from all others.")
SCHED_ASSUME = ["sequentially consistent memory", "kernel futex behaviour as modelled by the simulated kernel (checked against the real kernel by the conformance driver)",
                "death of a process is atomic with the kernel's robust-list clean-up"]

def sched(driver, level="exploration", technique="stateless model checking: exhaustive bounded-preemption schedules of the real code", note="", **kw):
    d = dict(level=level, technique=technique, rule=SCHED_RULE, assumptions=SCHED_ASSUME,
             note=note or "All interleavings within the stated preemption/death/deadline bounds of small closed scenarios on the compiled library; nothing beyond those bounds.",
             runs=[dict(driver=driver, flavour="sched")])
    d.update(kw)
    return d

MC_RULE = "Every transition enabled by the stated operation alphabet from every reachable state is executed on the compiled library and compared with the reference model; distinct counts different states."
def space(driver, flavour="prod", level="model_checking", technique="explicit-state model checking: all reachable states and operation sequences of the real code against a reference model", note="", assumptions=(), rule=MC_RULE, **kw):
    d = dict(level=level, technique=technique, rule=rule, assumptions=list(assumptions),
             note=note or "All states reachable with the stated operation alphabet in the stated small arenas, and all sequences to the stated depth; nothing beyond.",
             runs=[dict(driver=driver, flavour=flavour)])
    d.update(kw)
    return d

ENUM_RULE = "Every operation sequence and input within the stated bounds is executed on the compiled library (address-checked build where memory safety is part of the property) and compared with a reference model; distinct counts different inputs, sequences or results as the scenario defines."
def enum(driver, flavour="asan", cpp=True, note="", **kw):
    return space(driver, level="exploration", rule=ENUM_RULE, technique="bounded exhaustive enumeration of inputs and operation sequences of the real code against a reference model",
                 note=note or "All inputs and operation sequences within the stated bounds; nothing beyond.", runs=[dict(driver=driver, flavour=flavour, cpp=cpp)] + kw.pop("more", []), **kw)

DEATH = "stateless model checking: exhaustive bounded schedules with process death at every point"
FS_ASSUME = ["system calls on files are atomic steps", "sequentially consistent memory"]
def files(driver, level="exploration", technique="stateless model checking: every interleaving of the real code at its file-system calls, made on a scratch directory", note="", **kw):
    return sched(driver, level, technique, note or "All interleavings, deaths and failures within the stated bounds at the granularity of system calls made on real files in a scratch directory; nothing beyond.",
                 assumptions=FS_ASSUME, runs=[dict(driver=driver, flavour="fs")], **kw)
FS_ENUM = "bounded exhaustive enumeration of inputs, directory trees and failing system calls of the real code against a reference model, on a scratch directory"
PROPS = {
    "T01": space("c_tcrash", level="fault_enumeration", technique="exhaustive crash-point enumeration: death after every instruction of every operation from every reachable state",
                 rule="For every reachable layout and every operation, the production-compiled code is single-stepped; each instruction that changes the arena (and each partial 8-byte store of it) is a crash point, and the arena left behind is reopened and judged. Distinct counts different arena images judged.",
                 assumptions=["death is atomic with the kernel's robust-list clean-up, which marks the owner word", "a store of at most 8 aligned bytes is not torn"],
                 note="All crash points of all single operations from all layouts reachable with the stated alphabet in small arenas; one death at a time; one writer (deaths under concurrency are T05/T09)."),
    "T02": space("c_tseq"),
    "T03": space("c_tseq"),
    "T04": space("c_tseq"),
    "T05": sched("c_transport", "fault_enumeration", DEATH),
    "T06": sched("c_transport", "fault_enumeration", DEATH),
    "T07": sched("c_transport"),
    "T08": space("c_tseq"),
    "T09": sched("c_transport", "fault_enumeration", DEATH),
    "T10": space("c_tseq", runs=[dict(driver="c_tseq", flavour="prod"), dict(driver="c_tcrash", flavour="prod")]),
    "T11": space("c_tseq"),
    "R01": space("c_rseq", runs=[dict(driver="c_rseq", flavour="asan", cpp=True)]),
    "R02": sched("c_reader"),
    "R03": sched("c_reader"),
    "R04": sched("c_reader", runs=[dict(driver="c_reader", flavour="sched"), dict(driver="c_rseq", flavour="asan", cpp=True)]),
    "P01": enum("c_misc"),
    "P02": enum("c_misc"),
    "P03": enum("c_uuid", "prod", False, note="All programs of processes and threads within the stated size, executed really; uniqueness beyond the ids compared rests on the random bits.", more=[dict(driver="c_writer", flavour="sched")]),
    "W01": enum("c_wseq"),
    "W02": sched("c_writer", "fault_enumeration", DEATH, runs=[dict(driver="c_writer", flavour="sched"), dict(driver="c_wseq", flavour="asan", cpp=True)]),
    "W03": sched("c_writer", "fault_enumeration", DEATH, runs=[dict(driver="c_writer", flavour="sched"), dict(driver="c_wseq", flavour="asan", cpp=True)]),
    "W04": sched("c_writer", "fault_enumeration", DEATH, runs=[dict(driver="c_writer", flavour="sched"), dict(driver="c_wseq", flavour="asan", cpp=True)]),
    "W05": sched("c_writer", "fault_enumeration", DEATH, runs=[dict(driver="c_writer", flavour="sched"), dict(driver="c_wseq", flavour="asan", cpp=True)]),
    "B01": sched("c_topic"),
    "B02": sched("c_topic"),
    "B03": sched("c_topic", "fault_enumeration", DEATH),
    "Q01": sched("c_rpc", "fault_enumeration", DEATH),
    "Q02": sched("c_rpc", "fault_enumeration", DEATH),
    "Q03": sched("c_rpc", "fault_enumeration", DEATH),
    "F01": files("c_file", "fault_enumeration"),
    "F02": files("c_file", "fault_enumeration", FS_ENUM, rule="Every choice of one, two or three failing system calls (with each of the errors listed for that call) in every combination of starting state, name and options is executed and the tree, descriptors and mappings left behind are judged; distinct counts different sequences of calls and results."),
    "F03": files("c_file", technique=FS_ENUM, rule=ENUM_RULE),
    "F04": files("c_file", "fault_enumeration", FS_ENUM, rule="Every directory tree of the stated shapes, named in every stated way, is listed and removed, with every choice of up to the stated number of failing calls; the result is compared with the tree as built. Distinct counts different sequences of calls and results."),
    "G01": enum("c_misc"),
    "G02": files("c_disc"),
    "S01": enum("c_misc"),
    "S02": enum("c_misc"),
    "H01": enum("c_misc"),
    "M01": sched("c_mtx"),
    "M02": sched("c_mtx", "fault_enumeration", DEATH),
    "M03": sched("c_mtx"),
    "M04": sched("c_mtx"),
    "M05": sched("c_mtx"),
    "D01": sched("c_deadman", "fault_enumeration", DEATH),
    "D02": sched("c_deadman", "fault_enumeration", DEATH),
    "D03": sched("c_deadman"),
}
NOT_APPLICABLE = {}
