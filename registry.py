"""Which scenarios decide which property, and for how long."""

MC_RULE = ("A case is a client program drawn from the scenario's grammar plus a schedule (who runs at every atomic / mutex / "
           "condition-variable / thread operation, which weak CAS fails spuriously, which timed wait times out). ")
PREEMPT = "Non-trivial: the schedule preempts a thread that could have continued at least once."



def mc(prop, files, quick=35, thorough=600, variants=("st1",), more=(), tsan=1):
    """ASAN and TSAN builds of the scenarios of one property; `more`: library configurations of the thorough tier only"""
    jobs = []
    for i, v in enumerate(variants):
        jobs.append(dict(mode="asan", filter=prop, props=files, share=3 if i == 0 else 1, variant=v))
    for v in more:
        jobs.append(dict(mode="asan", filter=prop, props=files, share=1, variant=v, tiers=["thorough"]))
    if tsan:
        jobs.append(dict(mode="tsan", filter=prop, props=files, share=tsan))
    return dict(time=dict(quick=quick, thorough=thorough), jobs=jobs)


def fz(prop, files, backends, quick=30, thorough=600, mode="ubsan"):
    """The unmodified library with fault injection (YACLIB_FAULT=THREAD / FIBER), no run-time of ours"""
    return dict(time=dict(quick=quick, thorough=thorough),
                jobs=[dict(kind="fault", mode=mode, filter=prop, props=files, backend=b, share=1) for b in backends])

# the pipeline engine: built once for all properties that use it
PIPE = ["pipe_a_%s_%d_%s" % (v, k, l) for v in ("Val", "void") for k in (0, 1, 2) for l in ("true", "false")] + [
    "pipe_s_xRun", "pipe_s_xRunSh", "pipe_s_xSchedule", "pipe_d", "pipe"]

# every scenario; C03 and C04 look at all of them
ALL = ["c01", "c02", "c05", "c05b", "c06", "c07", "c08", "c09a", "c09b", "c09c", "c09d", "c09e", "c10a", "c10b", "c10c", "c11", "c12",
       "c13a", "c13b", "c13c", "c14a", "c14b", "c14c", "c14d", "c15a", "c15b", "c15c", "c15d", "c16"] + PIPE

CHECKS = {
    "C01": mc("C01", ["c01"], more=("st0", "fx2", "fx1")),
    "C02": mc("C02", ["c02"] + PIPE, tsan=0, more=("st0",)),
    "C03": dict(time=dict(quick=45, thorough=900), jobs=[
        dict(mode="asan", filter="*", props=ALL, share=3, variant="st1"),
        dict(mode="asan", filter="*", props=ALL, share=1, variant="st0", tiers=["thorough"])]),
    "C04": dict(time=dict(quick=45, thorough=900), jobs=[
        dict(mode="tsan", filter="*", props=ALL, share=3, variant="st1"),
        dict(mode="tsan", filter="*", props=ALL, share=1, variant="st0", tiers=["thorough"]),
        dict(mode="tsan", filter="*", props=["c01", "c06", "c11", "c16"], share=1, variant="fx2", tiers=["thorough"])]),
    "C05": mc("C05", ["c05", "c05b"] + PIPE, tsan=0, more=("st0",)),
    "C06": mc("C06", ["c06"]),
    "C07": mc("C07", ["c07"]),
    "C08": mc("C08", ["c08"]),
    "C09": mc("C09", ["c09a", "c09b", "c09c", "c09d", "c09e"]),
    "C10": mc("C10", ["c10a", "c10b", "c10c"]),
    "C11": mc("C11", ["c11"], more=("fx2", "fx1")),
    "C12": mc("C12", ["c12"] + PIPE, tsan=0, more=("st0",)),
    "C13": mc("C13", ["c13a", "c13b", "c13c"], variants=("st1", "st0"), more=("st10",)),
    "C14": mc("C14", ["c14a", "c14b", "c14c", "c14d"], variants=("st1", "st0"), more=("st10",)),
    "C15": mc("C15", ["c15a", "c15b", "c15c", "c15d"], variants=("st1", "st0"), more=("st10",)),
    "C16": mc("C16", ["c16"], variants=("st1", "st0"), more=("fx2", "fx1")),
    "C17": fz("C17", ["c17", "c17run"], ("fiber",), quick=50),
    "C18": fz("C18", ["c18", "c18b"], ("fiber",)),
    "C19": fz("C19", ["c19a", "c19b", "c19c"], ("fiber", "thread")),
    "C20": dict(time=dict(quick=25, thorough=400), jobs=[
        dict(mode="plain", filter="C20", props=["c20"] + PIPE, share=2, variant="st1"),
        dict(mode="plain", filter="C20", props=["c20b"], share=2, variant="st1"),
        dict(mode="plain", filter="C20", props=["c20", "c20b"] + PIPE, share=1, variant="st0", tiers=["thorough"]),
        dict(mode="plain", filter="C20", props=["c20b"], share=1, variant="fx2", tiers=["thorough"])]),
}

FZ_RULE = ("A case is one generated program (two choice tapes) run on the library built with fault injection; cases are distinct when their tapes differ. ")

RULES = {
    "C01": MC_RULE + PREEMPT,
    "C02": MC_RULE + "Non-trivial: at least two functors ran (or coroutine bodies resumed).",
    "C03": MC_RULE + "Non-trivial: the rule of the scenario (in all of them: several completions, jobs or steps and, with threads, a preemption).",
    "C04": MC_RULE + "Non-trivial: the rule of the scenario (in all of them: several completions, jobs or steps and, with threads, a preemption).",
    "C05": MC_RULE + "Non-trivial: at least two jobs ran.",
    "C06": MC_RULE + "Non-trivial: at least two observers fired and a runnable thread was preempted.",
    "C07": MC_RULE + "Non-trivial: at least two jobs ran and a runnable thread was preempted.",
    "C08": MC_RULE + "Non-trivial: at least two jobs were finished and a runnable thread was preempted.",
    "C09": MC_RULE + "Non-trivial: at least two inputs and a runnable thread was preempted.",
    "C10": MC_RULE + "Non-trivial: at least two inputs and a runnable thread was preempted.",
    "C11": MC_RULE + "Non-trivial: a runnable thread was preempted and at least one wait had something to wait for.",
    "C12": MC_RULE + "Non-trivial: at least two functors ran (or coroutine bodies resumed).",
    "C13": MC_RULE + PREEMPT,
    "C14": MC_RULE + "Non-trivial: at least two coroutines and a runnable thread was preempted.",
    "C15": MC_RULE + "Non-trivial: at least two coroutines and a runnable thread was preempted.",
    "C16": MC_RULE + "Non-trivial: at least two outstanding operations (or one event) and a runnable thread was preempted.",
    "C17": FZ_RULE + "Non-trivial: at least two fibers whose recorded events alternate at least four times.",
    "C18": FZ_RULE + "Non-trivial: at least two fibers, with at least one acquisition, wait or join that had to wait (primitives), or the "
           "fibers alternated at least twice (thread-local pointers).",
    "C19": FZ_RULE + "Non-trivial: at least two operations, one of them a read-modify-write.",
    "C20": MC_RULE + "Non-trivial: at least three allocating steps, three inputs, two jobs, or an operation that really had to wait.",
}

ASSUMPTIONS = {
    "*": ["schedules are sequentially consistent interleavings at synchronisation operations; weaker executions are only "
          "judged by the happens-before analysis of the ThreadSanitizer build (C04)",
          "the run-time shim (harness/mc) implements std::atomic/mutex/condition_variable/thread faithfully"],
    "C17": ["what is compared is what the program records: per operation its fiber (numbered by first appearance), result, number of random draws, injector state, "
            "number of injected yields and virtual time (which counts the scheduler's steps)",
            "the machine gives a new process other addresses (ASLR, plus generated heap noise) and another wall-clock time"],
    "C18": ["context switches happen where the library injects them (before and after each operation of a primitive, with the generated frequency) and where a fiber waits, yields or sleeps",
            "a native (non fiber) thread only creates the first fiber and joins it"],
    "C19": ["operations of one object are observed from one fiber or thread; the atomicity of the THREAD backend is that of std::atomic",
            "atomic::wait / notify are not compiled (YACLIB_FUTEX is 0)"],
}

MC_NOTE = ("Generated client programs and generated thread schedules (random walk, PCT, bursts, spurious CAS failures) run the unmodified "
           "library sources on a deterministic fiber run-time; failures are shrunk to a choice tape. ")
NOTES = {
    "C01": ("generated Promise/Future programs x generated schedules, exactly-once and equality oracle",
            MC_NOTE + "Bounds: one producer, one consumer of 16 kinds, 6 value/contract types."),
    "C02": ("generated pipelines (sources, steps, nesting, consumers) x generated schedules, differential against a sequential reading of the pipeline",
            MC_NOTE + "Bounds: up to 5 steps per pipeline, nesting depth 3, 13 source kinds, all functor parameter and result forms, value and void, unique and shared."),
    "C03": ("all generated client programs x generated schedules under AddressSanitizer with counted values, captures, exceptions, executor references and blocks",
            MC_NOTE + "Every scenario of C01-C16 is run; what is judged: double / missing / early release, use after release, blocks left at quiescence."),
    "C04": ("all generated client programs x generated schedules under ThreadSanitizer's happens-before analysis",
            MC_NOTE + "Every scenario of C01-C16 is run; the run-time gives ThreadSanitizer exactly the orderings the library's memory orders grant, plain payload is "
            "written before and read after every completion."),
    "C05": ("generated pipelines and job sets on generated executors x generated schedules, placement and call-xor-drop oracle",
            MC_NOTE + "Bounds: 1-3 executors (threads, strands, pools, manual, inline), refusal from any submission on, up to 12 jobs or pipelines of up to 5 steps."),
    "C06": ("generated SharedFuture observer programs x generated schedules, one-value exactly-once oracle",
            MC_NOTE + "Bounds: 8 sources, 1-3 observer threads with up to 3 of 26 observer kinds each."),
    "C07": ("generated submitters over (nested) strands x generated schedules, overlap / real-time order / exactly-once monitors",
            MC_NOTE + "Bounds: up to 3 strands, 3 submitters, ~14 jobs, 4 underlying executors, refusal at any point."),
    "C08": ("generated submit/stop programs x generated schedules, linearised accept/stop oracle",
            MC_NOTE + "Bounds: 1-3 workers, up to 3 submitters, ~14 jobs, 2 stop calls from outside and one from a job."),
    "C09": ("generated input sets, completion orders and schedules, winner / completion-interval / index oracle",
            MC_NOTE + "Bounds: up to 5 inputs, 10 input type lists, 3 completing threads, vector/list/variadic forms, both policies."),
    "C10": ("generated input sets, completion orders and schedules, linearisable winner and completion-interval oracle",
            MC_NOTE + "Bounds: up to 5 inputs, 10 input type lists, 3 completing threads, vector/list/variadic forms, all policies."),
    "C11": ("generated waits / timed waits over generated future sets x generated schedules and clock, no-false-return oracle",
            MC_NOTE + "Bounds: 1-4 futures (unique, shared, void), all Wait/WaitFor/WaitUntil forms, repeated waits, up to 3 completing threads."),
    "C12": ("generated lazy pipelines x every way to start, cancel, detach or drop them x generated schedules, never-before-start and eager-twin oracle",
            MC_NOTE + "Bounds: up to 5 steps per pipeline, nesting depth 3, start / cancel / destroy / co_await / unwrap / Get / ToFuture forms."),
    "C13": ("generated coroutine programs (steps, awaited objects, refusals) x generated schedules, per-step outcome / executor / exactly-once oracle",
            MC_NOTE + "Bounds: 1-3 coroutines (Future, Task, SharedFuture) of up to 4 of 12 kinds of steps over 13 kinds of awaited objects, 3 executors "
            "and a strand, refusal from any submission on; with and without symmetric transfer."),
    "C14": ("generated lock / unlock rounds x generated schedules, mutual exclusion, grant accounting and arrival order oracle",
            MC_NOTE + "Bounds: up to 5 coroutines with 3 rounds over all lock and unlock forms, 4 option combinations, 4 executor environments."),
    "C15": ("generated reader / writer rounds x generated schedules, overlap and grant accounting oracle plus a sequential second life",
            MC_NOTE + "Bounds: up to 5 coroutines with 3 rounds over all lock forms, 4 option combinations, 4 executor environments."),
    "C16": ("generated WaitGroup / OneShotEvent programs x generated schedules, outstanding-set model and exactly-once release oracle",
            MC_NOTE + "Bounds: up to 3 holders, 9 futures, 5 waiters of 7 kinds, 2 rounds; event: 2 Call then Set, 4 waiters."),
    "C17": ("generated programs x seeds x fault configurations, metamorphic comparison of event traces: again in the process, in another thread, in a new process, "
            "continued from a recorded (random count, injector state) pair in three ways",
            "Bounds: 2 phases of up to 4 threads with up to 8 of 34 kinds of operations (atomics, every lock, cv, sleeps, random device, thread-locals, nested and detached threads, "
            "Run / Then / WaitFor / WhenAll / WhenAny / strands / coroutines with Mutex and SharedMutex / lazy tasks / WaitGroup / OneShotEvent over a pool of up to 3 workers); "
            "frequency 1, 2, 3, 5, 16, 1e9, pick 1-16, tick 1-100, CAS failures 0-13; a new process for one case of 16."),
    "C18": ("generated multi-fiber programs over the fiber backend's primitives x generated seeds of its scheduler, history oracle (overlap of certain holds, "
            "justified failures, deadlines, justified parking at quiescence) and a per-fiber model of thread-local pointers",
            "Bounds: up to 6 fibers, 3 mutexes of the 6 kinds, 2 condition variables, spawn / join / detach at any depth, all try / for / until forms with "
            "past, present and far deadlines, wait / wait_for / wait_until with and without predicates, notify_one / all, sleeps; injection frequency 1e9, "
            "16, 4, 2, 1; 8 thread-local pointers of 4 types, copies, moves and conversions. Ends when everything that must finish has finished."),
    "C19": ("generated operation sequences, differential against std::atomic after every operation, UBSan",
            "Bounds: up to 14 operations per sequence over one atomic; bool, 8..64 bit signed and unsigned, char types, enum, pointers to objects of "
            "1, 4 and 12 bytes, void*, float, double, atomic_flag, fences; volatile and not, every memory order, default arguments; injected failures "
            "at frequency 0, 1, 2, 3, 13; inside a fiber or a plain thread. atomic::wait / notify are not compiled in (YACLIB_FUTEX is 0 in every configuration)."),
    "C20": ("generated pipelines, combinator inputs, waits, strand jobs and awaits under a counting operator new, block-count oracle",
            MC_NOTE + "Bounds: up to 6 steps and depth 3, combinators of 1-162 inputs (at most 8 blocks), waits for 1-90 futures, captures of 1-4000 bytes."),
}
