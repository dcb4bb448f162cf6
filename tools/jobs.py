"""What is built and run for each property."""
SAN = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-Wno-everything"]
SAN0 = ["-O0" if f == "-O1" else f for f in SAN] # much faster to build where the drivers are made of many templates
WRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_mutex_unlock,--wrap=pthread_rwlock_unlock"]

TARGETS = {
    "world": {
        "cxx": "clang++", "flags": SAN, "ldflags": SAN + WRAP,
        "sources": ["world_main.cpp", "world_int.cpp", "world_void.cpp", "world_string.cpp", "world_plan.cpp", "world_noargs.cpp", "lockshim.cpp", "fault.cpp"],
    },
}

TARGETS["args"] = {
    "cxx": "clang++", "flags": SAN, "ldflags": SAN + WRAP,
    "sources": [["args.cpp", SAN0 + ["-DPART=%d" % i]] for i in range(10)] + ["lockshim.cpp", "fault.cpp"],
}

TARGETS["kinds"] = {
    "cxx": "clang++", "flags": SAN, "ldflags": SAN + WRAP,
    "sources": [["kinds.cpp", SAN0 + ["-DPART=%d" % i]] for i in range(6)] + ["lockshim.cpp", "fault.cpp"],
}

for n in ("optional", "optcmp", "cow", "slots", "faultenum", "scale", "combine"):
    TARGETS[n] = {"cxx": "clang++", "flags": SAN0, "ldflags": SAN + WRAP, "sources": [n + ".cpp", "lockshim.cpp", "fault.cpp"]}

# Exceptions that pass many frames slow the stack-use-after-return machinery down; equal throws all the time.
TARGETS["equal"] = {"cxx": "clang++", "flags": SAN0 + ["-fsanitize-address-use-after-return=never"], "ldflags": SAN + WRAP, "sources": ["equal.cpp", "lockshim.cpp", "fault.cpp"]}

WORLD_RULE = ("A case is a random program over the public API (connect, disconnect by handle/scope/callable, block, emit, "
              "move, destroy ... also from within running slots) generated from the seed; the reference model predicts every "
              "invocation and return value. Non-trivial: at least one prediction was compared. Distinct: different sequence of "
              "operations and invocations.")


def world(profile, quick, thorough, **kw):
    return dict(target="world", name="world/" + profile, args=["--profile", profile], quick=quick, thorough=thorough, **kw)


CHECKS = {}


def check(pid, jobs, rule=WORLD_RULE, must=("judged_events",), level="exploration", technique="", note="", **kw):
    CHECKS[pid] = dict(jobs=jobs, rule=rule, must_observe=list(must), level=level, technique=technique, note=note, **kw)


MODEL = "online reference-model monitor over random API programs, under ASan+UBSan"
for pid, q, t in [("C01", 120000, 2000000), ("C02", 120000, 2000000), ("C04", 120000, 1500000), ("C05", 120000, 2000000), ("C06", 120000, 2000000),
                  ("C07", 120000, 2000000), ("C08", 120000, 2000000), ("C09", 120000, 2000000), ("C10", 120000, 2000000), ("C11", 120000, 2000000),
                  ("C12", 120000, 2000000), ("C13", 60000, 800000), ("C21", 120000, 1500000)]:
    check(pid, [world(pid, q, t)], technique=MODEL)
CHECKS["C01"]["jobs"] += [world("big", 400, 20000), world("huge", 1, 8)]
CHECKS["C02"]["jobs"] += [world("big", 400, 20000)]

for pid in ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C21"):
    CHECKS[pid]["jobs"] += [world(pid + "W", 24 if pid == "C13" else 1200, 1000 if pid == "C13" else 60000)] # lists of more than a hundred slots

CHECKS["C13"]["jobs"] += [dict(target="faultenum", quick=8, thorough=800, fixed=True, min_shard=0, sharded=True, cpu=300)]
CHECKS["C13"].update(level="fault_enumeration", must_observe=["judged_events", "faults_injected"],
                     technique="systematic enumeration of failing allocations, copies, comparisons and calls, plus random faults, judged by a reference model under ASan+UBSan",
                     rule=WORLD_RULE + " Fault enumeration: a case is one operation, number of slots, position, context and failing point.")
CHECKS["C21"]["jobs"] += [dict(target="slots", quick=100000, thorough=4000000)]

ARGS_RULE = ("A case is a signal with a random number of slots of random callable kinds that read, consume, overwrite or swap their "
             "arguments, for a random parameter type, emitted several times with lvalues and rvalues; every argument received by every slot "
             "is compared with what the caller passed. Non-trivial: at least one argument was compared. Distinct: different types, "
             "kinds, behaviours or values.")
check("C03", [dict(target="args", quick=80000, thorough=3000000), world("C03", 40000, 800000)], rule=ARGS_RULE,
      technique="argument-comparing monitor in every slot over random signatures and slot behaviours, under ASan+UBSan")

KINDS_RULE = ("A case takes one form of callable (free function, functor, lambda, std::function, bind, reference wrapper, pointer to member "
              "function or data bound to pointer, copy, reference wrapper, shared or weak pointer ...), hands it to a slot, a copied slot or a "
              "signal, calls it several times with random arguments and compares result and observed effects with std::invoke of an equal "
              "callable. Non-trivial: at least one call was compared. Distinct: different form, path, arguments or effects.")
check("C22", [dict(target="kinds", quick=400000, thorough=20000000)], rule=KINDS_RULE,
      technique="differential monitor (slot/signal call against direct call) over callable forms, under ASan+UBSan")

OPT_RULE = ("A case is a random sequence of operations on a pool of optionals of one of 26 value types (tokens, over-aligned, move-only, "
            "copy-only, scalars, strings, references, void ...); after every operation the state and value of every optional of the pool is "
            "compared with std::optional after the same operations. Distinct: different type or sequence.")
check("C18", [dict(target="optional", quick=300000, thorough=12000000)], rule=OPT_RULE,
      technique="lockstep comparison with std::optional over random operation sequences, under ASan+UBSan")
check("C19", [dict(target="optcmp", quick=1600, thorough=60000)], level="exploration",
      rule="An evaluation is one comparison operator on one pair of operands (absent or one of up to six values, built in different ways) in "
           "one operand form and type; all combinations are run. Distinct: different type, form, pair of ranks, operator.",
      technique="exhaustive runtime comparison of every operator, operand form and rank pair against the order of the ranks, under ASan+UBSan")
check("C24", [dict(target="optional", name="throwing", args=["--profile", "C24"], quick=300000, thorough=12000000)], must=("judged_events", "operations_that_threw"),
      rule="A case is a random sequence of operations on a pool of optionals of instrumented values, whose constructors and assignments throw "
           "at a random point of about every second operation; after every operation the live values are counted and located and the states "
           "are compared with the model. Distinct: different sequence or failure points.",
      technique="object lifetime monitor (registry of live values) with injected exceptions over random operation sequences, under ASan+UBSan")

COW_RULE = ("Sequential: a case is a random sequence of operations on a pool of handles; after every operation value, identity, equality and the "
            "number of living values are compared with a model that knows which handles share. Distinct: different sequence.")
check("C20", [dict(target="cow", quick=60000, thorough=3000000)], rule=COW_RULE,
      technique="reference-model monitor over random operation sequences, under ASan+UBSan")

# ---- threads ------------------------------------------------------------------------------------------------------------
PLAIN = ["-std=c++17", "-O2", "-g1", "-Wno-everything"]
TSAN = ["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-Wno-everything"]
ASAN = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-Wno-everything"]
for kind, mains in (("conc", [["conc_main.cpp", []]] + [["conc_main.cpp", ["-DVARIANT=%d" % v]] for v in range(3)]), ("cowt", [["conc_cow.cpp", []]])):
    main = lambda flags: [[f, flags + x] for f, x in mains]
    rest = [["conc_hist.cpp", PLAIN], ["conc_gen.cpp", PLAIN]]
    TARGETS[kind + "_sched"] = {"cxx": "clang++", "flags": PLAIN, "ldflags": ["-rdynamic"], "libs": ["-ldl"],
                                "sources": main(TSAN) + [["conc_sched.cpp", PLAIN]] + rest}
    TARGETS[kind + "_tsan"] = {"cxx": "clang++", "flags": PLAIN, "ldflags": ["-fsanitize=thread"], "sources": main(TSAN) + [["conc_real.cpp", PLAIN]] + rest}
    TARGETS[kind + "_asan"] = {"cxx": "clang++", "flags": PLAIN, "ldflags": ["-fsanitize=address"], "sources": main(ASAN) + [["conc_real.cpp", PLAIN]] + rest}


def sched(profile, quick, thorough, **kw):
    return dict(target="conc_sched", name="scheduled/" + profile, args=["--profile", profile], quick=quick, thorough=thorough, **kw)


def real(profile, quick, thorough, san="tsan", **kw):
    return dict(target="conc_" + san, name=san + "-threads/" + profile, args=["--profile", profile], quick=quick, thorough=thorough, cpu=60, **kw)


CONC_RULE = ("An evaluation is one execution of one random program of 2-4 threads (connect, disconnect by handle, scope and callable, block, emit, "
             "release tracked objects, slots and destructors that do the same) under one schedule; the recorded history of calls, invocations and "
             "object lifetimes is judged. Non-trivial: at least one event was judged. Distinct: different program or different order of synchronisation "
             "operations (scheduled executions), different order of recorded events (real threads).")
CONC = ("history checker, happens-before race detector, heap shadow and deadlock detector over scheduled executions of random multi-threaded programs; ")
check("C14", [sched("C14", 700000, 20000000), sched("C14L", 60000, 1500000), real("C14", 16000, 800000), real("C14L", 4000, 200000)], rule=CONC_RULE,
      must=("judged_events", "plain_accesses_checked", "real_thread_executions", "context_switches"), technique=CONC + "ThreadSanitizer over real threads")
check("C15", [sched("C15", 900000, 20000000), sched("C15L", 60000, 1500000), real("C15", 8000, 800000)], rule=CONC_RULE,
      must=("judged_events", "context_switches"), technique=CONC + "ThreadSanitizer over real threads")
check("C16", [sched("C16", 900000, 20000000), sched("C16L", 60000, 1500000), world("C16", 60000, 1500000), world("C16W", 1200, 60000)], rule=CONC_RULE + " Sequential: " + WORLD_RULE,
      must=("judged_events", "context_switches"), technique=CONC + "locks held are observed at every slot call and callable destruction, also in random sequential API programs")
check("C17", [sched("C17", 1000000, 20000000), real("C17", 8000, 800000, san="asan"), real("C17L", 3000, 200000)], rule=CONC_RULE,
      must=("judged_events", "context_switches"), technique=CONC + "AddressSanitizer and ThreadSanitizer over real threads")
check("C23", [sched("C23", 900000, 20000000), sched("C23L", 60000, 1500000), real("C23", 8000, 800000)], rule=CONC_RULE,
      must=("judged_events", "context_switches"), technique=CONC + "conservation of reported disconnections; ThreadSanitizer over real threads")
for pid in ("C02", "C05", "C07", "C08", "C10", "C11"):
    CHECKS[pid]["jobs"] += [sched(pid, 120000, 4000000)]
CHECKS["C09"]["jobs"] += [sched("C17", 60000, 4000000)]
CHECKS["C20"]["jobs"] += [dict(target="cowt_sched", name="scheduled/cow", quick=300000, thorough=20000000),
                          dict(target="cowt_tsan", name="tsan-threads/cow", quick=12000, thorough=800000, cpu=60)]
CHECKS["C20"]["technique"] = ("reference-model monitor over random operation sequences (ASan+UBSan); per-handle value monitor, happens-before race detector "
                              "and heap shadow over scheduled threads, ThreadSanitizer over real threads")
CHECKS["C20"]["must_observe"] = ["judged_events", "context_switches"]
CHECKS["C20"]["rule"] += " Threads: an evaluation is one execution of one random program of 2-4 threads under one schedule; distinct: different program or order of synchronisation operations."

# ---- sizes --------------------------------------------------------------------------------------------------------------
SCALE_RULE = (" Scale: a case is one scenario at one size (slots, handles, blockers, signals, nesting depth, repetitions), from 0 to 70000 and on both sides of "
              "every power of two.")
for pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C20", "C21"):
    CHECKS[pid]["jobs"] += [dict(target="scale", name="scale/" + pid, args=["--profile", pid], quick=1, thorough=160, fixed=True, min_shard=0, sharded=True, cpu=300)]
    CHECKS[pid]["rule"] += SCALE_RULE

CHECKS["C04"]["jobs"] += [dict(target="combine", quick=160000, thorough=4000000)]
CHECKS["C04"]["rule"] += " Result types: a case is a result type (17), a combiner (10 habits) and a random list of slots, some blocked."

EQUAL_RULE = (" Equality: a case is a random list of slots from families of callables (37 with an int or void result, 5 with pointers to data; == as a member, friend, "
              "free or inherited function, by conversion, coarse, never, absent or deleted; pointers by identity, copies by value), passed in 7 forms.")
for pid in ("C06", "C21"):
    CHECKS[pid]["jobs"] += [dict(target="equal", name="equal/" + pid, args=["--profile", pid], quick=120000, thorough=6000000)]
    CHECKS[pid]["rule"] += EQUAL_RULE

# ---- many threads -------------------------------------------------------------------------------------------------------
TARGETS["many_tsan"] = {"cxx": "clang++", "flags": TSAN, "ldflags": ["-fsanitize=thread"], "sources": ["many.cpp"]}
TARGETS["many_asan"] = {"cxx": "clang++", "flags": ASAN, "ldflags": ["-fsanitize=address"], "sources": ["many.cpp"]}
MANY_RULE = (" Many threads: a case is one scenario with 2 to 100 real threads at once (or some two hundred, one after another) on the same signals; every thread judges "
             "its own emissions, handles and scopes while the others do the same. Distinct: different scenario and random choices.")
for pid, q, t, san in [("C14", 720, 20000, "tsan"), ("C15", 480, 20000, "tsan"), ("C23", 480, 20000, "tsan"), ("C05", 288, 10000, "tsan"), ("C08", 480, 10000, "tsan"),
                       ("C17", 960, 20000, "asan"), ("C09", 480, 10000, "asan"), ("C16", 960, 20000, "tsan"), ("C10", 480, 10000, "tsan"), ("C11", 288, 10000, "asan"),
                       ("C20", 800, 40000, "tsan"), ("C21", 800, 20000, "tsan")]:
    CHECKS[pid]["jobs"] += [dict(target="many_" + san, name="many-threads/" + san, args=["--profile", pid], quick=q, thorough=t, cpu=150)]
    CHECKS[pid]["rule"] += MANY_RULE

# ---- every way of compiling ---------------------------------------------------------------------------------------------
SHIM = [["lockshim.cpp", PLAIN], ["fault.cpp", PLAIN]]


def portable(name, std, cxxs, extra=(), sizes=("-O0", "-O2", "-O3")):
    base = ["-std=" + std, "-g1", "-w"] + list(extra)
    TARGETS["portable_" + name] = {
        "cxx": cxxs[0], "flags": base, "ldflags": list(extra) + WRAP, "may_reject": True, "collide": True,
        "sources": [["portable_main.cpp", base + ["-O1"]]] + [["portable_part.cpp", base + ["-DPART=%d" % i, sizes[i]] + (["-DNDEBUG"] if i == 2 else []), cxxs[i % len(cxxs)]] for i in range(3)] +
                   [[f, x + [y for y in extra if y.startswith("-D_")], "clang++"] for f, x in SHIM]}
    return dict(target="portable_" + name, name="modules/" + name, quick=40000, thorough=1500000)


def recompiled(target, name, cxx, flags):
    """The same driver, compiled in another way."""
    t = TARGETS[target]
    src = []
    for s in t["sources"]:
        f, own = (s, []) if isinstance(s, str) else (s[0], [x for x in s[1] if x.startswith("-DPART")])
        src += [[x[0], x[1] + [y for y in flags if y.startswith("-D_")], "clang++"] for x in SHIM if x[0] == f] or [[f, flags + own]]
    san = [x for x in flags if x.startswith("-fsanitize=")]
    TARGETS[name] = {"cxx": cxx, "flags": flags, "ldflags": san + (WRAP if "lockshim.cpp" in t["sources"] else []), "sources": src, "may_reject": True}
    return name


def std(cxx, s, *more):
    return ["-std=" + s, "-g1", "-w"] + list(more)


UBA = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
C25 = [portable("clang11", "c++11", ["clang++"]), portable("gcc11", "c++11", ["g++"]), portable("mixed17", "c++17", ["clang++", "g++", "g++"]),
       portable("gcc20asan", "c++20", ["g++"], UBA), portable("clang23", "c++23", ["clang++"], ["-D_GLIBCXX_ASSERTIONS"]),
       dict(target=recompiled("world", "world_gcc11", "g++", std("g++", "c++11", "-O0", *UBA)), name="world/gcc11", args=["--profile", "C01"], quick=24000, thorough=1000000),
       dict(target=recompiled("world", "world_clang20", "clang++", std("clang++", "c++20", "-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS")), name="world/clang20", args=["--profile", "C01"], quick=80000, thorough=4000000),
       dict(target=recompiled("many_tsan", "many_tsan11", "clang++", std("clang++", "c++11", "-O1", "-fsanitize=thread")), name="many-threads/tsan11", args=["--profile", "C14"], quick=240, thorough=10000, cpu=150)]
for n, s, c, x in [("clang14", "c++14", ["clang++"], ()), ("gcc14", "c++14", ["g++"], ()), ("clang17", "c++17", ["clang++"], ()), ("gcc17", "c++17", ["g++"], ()),
                   ("gcc20", "c++20", ["g++"], ()), ("gcc23", "c++23", ["g++"], ()), ("clang11asan", "c++11", ["clang++"], UBA), ("mixed11", "c++11", ["g++", "clang++", "g++"], ()),
                   ("mixed23", "c++23", ["clang++", "g++", "clang++"], ())]:
    C25.append(dict(portable(n, s, c, x), quick=0))
for target, name, cxx, flags, n in [("world", "world_gcc23", "g++", std("g++", "c++23", "-O3"), 2000000), ("world", "world_clang14", "clang++", std("clang++", "c++14", "-O3"), 2000000),
                                    ("args", "args_gcc11", "g++", std("g++", "c++11", "-O2"), 1000000), ("args", "args_clang23", "clang++", std("clang++", "c++23", "-O2"), 1000000),
                                    ("kinds", "kinds_gcc20", "g++", std("g++", "c++20", "-O2"), 2000000), ("optional", "optional_gcc20", "g++", std("g++", "c++20", "-O2"), 2000000),
                                    ("slots", "slots_gcc11", "g++", std("g++", "c++11", "-O2"), 1000000), ("cow", "cow_gcc11", "g++", std("g++", "c++11", "-O2"), 1000000),
                                    ("combine", "combine_gcc11", "g++", std("g++", "c++11", "-O1"), 500000), ("equal", "equal_gcc20", "g++", std("g++", "c++20", "-O1"), 1000000)]:
    C25.append(dict(target=recompiled(target, name, cxx, flags), name=name.replace("_", "/"), quick=0, thorough=n, args=["--profile", "C12"] if target == "world" else []))
check("C25", C25, rule="A case is a random program over the library's interface, whose steps are executed by three modules (translation units compiled with different options) that share "
      "all objects; or a case of the World or many-threads drivers, compiled in another way than elsewhere. All are judged by models. Non-trivial: at least one event was judged. "
      "Distinct: different sequence of operations and invocations, or different configuration.",
      technique="reference-model monitors over random programs compiled by two compilers, with C++11 to C++23 and -O0 to -O3, alone and mixed in one program")
