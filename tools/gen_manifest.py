import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props={}
for l in open(V+"/properties.jsonl"):
    d=json.loads(l); props[d["id"]]=d
T="deterministic simulation with fault injection: "
tech={
"C01":T+"seeded preemptive scheduling of real threads at basic-block granularity, results compared with the same call alone in a forked fresh process",
"C02":T+"seeded long call and object-lifecycle histories over a deterministic heap, results compared with the same call alone in a forked fresh process",
"C03":T+"seeded panics at the k-th plug-in callback or arithmetic step under seeded schedules, results compared with fresh-process answers",
"C04":T+"seeded clock jumps, entropy, environment, file, CPU-count, identity and heap perturbation, results compared with canonical surroundings",
"C05":T+"seeded nested calls from the k-th plug-in callback under seeded schedules, inner and outer results compared with fresh-process answers",
"C06":T+"seeded plug-in failures and mid-call market changes; recorded plug-in history checked against a reference model of the curve",
"C07":T+"seeded plug-in failures and mid-call market changes; recorded plug-in history checked against a reference model of the bond's flows",
"C08":T+"seeded failure of the k-th number conversion; outcome checked against a reference model of flows and day counts, with retries",
"C09":T+"seeded calendar changes and failures between any two questions; recorded questions and answers replayed by a reference roll",
"C10":T+"seeded calendar outages, range ends and extreme periods; question budget, step budget and recovery",
"C11":T+"seeded changes and panics of member calendars between any two questions; recomputed from the answers given during the call",
"C12":T+"seeded failures and panics at the k-th plug-in call, the same calls in 8 to 4096 rounds on a counted heap; growth of what is held after each round",
"C13":T+"seeded plug-ins that fail for good or change their data at every question; per-call question budget proportional to the input, watched while the call runs",
"C14":T+"seeded plug-ins that stall at the k-th question until every other simulated thread is done or waits, under seeded schedules; progress of all other calls, results compared with fresh-process answers",
"C15":T+"seeded plug-in failures, panics and mid-call changes; every question recorded as it is asked and judged against what a reference model says the call may ask",
"C16":T+"seeded histories on objects of seeded size in which every allocation beyond a call's budget fails and threads have small stacks; completion, and results compared with the same call alone without limits",
"C17":T+"seeded failures, panics and changes of surroundings at the k-th plug-in question under seeded histories and schedules; every effect on process, files, streams, environment and panic hook goes through the simulator and is a violation when the library causes it",
"C18":T+"seeded failures and panics in long histories on objects of seeded size, basic blocks counted per call; absolute budget, comparison with the same call alone in a forked fresh process, and with the same call on smaller data",
"C19":T+"seeded failure or panic of one plug-in question, once or for good, under seeded schedules; questions asked after it counted until the call ends",
}
common="Sampled search, not a proof: every run is one seed-determined execution of the real library code (opt-level 0, sanitizer-coverage instrumented) and every violation is replayed in a fresh process before it is reported. Assumes sequential consistency (preemption at basic-block boundaries of library code), "
note={
"C01":common+"trusts the fork-based baseline and the interposed futex/clock/entropy calls.",
"C02":common+"trusts the fork-based baseline; histories are up to 14 000 calls, one call repeated up to 65 536 times.",
"C03":common+"trusts the fork-based baseline; crash points are plug-in callbacks and arithmetic steps of a user number type.",
"C04":common+"trusts that ambient inputs enter through libc calls the simulator interposes (symbol interposition; no raw syscall instruction is trapped).",
"C05":common+"trusts the fork-based baseline; call chains up to 64 deep.",
"C06":common+"trusts the small reference model (tolerance 1e-10 double, 2e-4 single precision).",
"C07":common+"trusts the small reference model of coupon schedules (tolerance 1e-10 double, 2e-4 single precision).",
"C08":common+"trusts the small reference model of coupon schedules and day counts.",
"C09":common+"trusts the reference roll, which uses chrono for month shifts.",
"C10":common+"termination is a budget of 4 questions per day passed plus 150, and a step limit.",
"C11":common+"trusts the recording wrapper around member calendars; built-in calendars' own holiday rules are taken as given.",
"C12":common+"memory is what goes through the Rust allocator; growth must continue in every doubling of the number of rounds (128 to 4096) to be reported.",
"C13":common+"the budget is eight times the questions a call has a use for, plus 64.",
"C14":common+"a stall ends only when no other simulated thread can go on; waiting with timeouts or by spinning is cut off by budgets.",
"C15":common+"trusts the reference model of flows and shifted dates; times are compared within 1e-10 (double) or 2e-4 (single precision).",
"C16":common+"memory is what goes through the Rust allocator; frames are those of an unoptimised build, so the stack limit is stricter than in use.",
"C17":common+"an effect is seen where it passes through libc (symbol interposition; no raw syscall instruction is trapped).",
"C18":common+"work is basic blocks of instrumented library code (inlined generics of std and chrono count where they are compiled into the library); time inside non-inlined std routines is not counted.",
"C19":common+"questions to the simulated plug-ins and number type count; arithmetic does not.",
}
checks=[{"property":p,"quick_cmd":f"bash run.sh {p} quick","thorough_cmd":f"bash run.sh {p} thorough","technique":tech[p],"level":"exploration","level_note":note[p]} for p in tech]
pure="A pure function of its arguments: no schedule, clock, I/O, failure or history enters the statement, so a simulator would only generate inputs; "
na={
"N01":pure+"interpolation formulas are numerical facts.",
"N02":pure+"smoothness of a spline is a numerical fact.",
"N03":pure+"day-count arithmetic on two dates (its failure behaviour is covered by C08).",
"N04":pure+"Gregorian arithmetic (overflow under rolling is covered by C10).",
"N05":pure+"holiday lists compared with real-world data; no oracle is available offline either.",
"N06":pure+"coupon amounts (their completeness under failing conversions is covered by C08).",
"N07":pure+"an algebraic identity on data that does not change (fresh use of changing data is covered by C06).",
"N08":pure+"a function of one date.",
"N09":pure+"rounding comparison between two number types.",
"N10":pure+"absence of panics for plain inputs (under faults and histories it is covered by C01 to C19).",
}
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"No hooks in /repo: all seams are the library's public traits, libc symbols interposed at link time, and compiler coverage callbacks. Replay a violation with: .build/target/x86_64-unknown-linux-gnu/debug/qsim replay FILE"}
assert set(props)==set(tech)|set(na)
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
