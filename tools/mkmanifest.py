import json
N={
"C01":"histories of seeded and unseeded calls mixed with caller draws, threads sharing the global random state, and a second process with another string-hash seed; reference: the same call alone in a fresh copy of the library",
"C02":"which operations consume or disturb the caller's numpy and random streams, over histories and clock faults; reference: the same call alone from the same ambient state",
"C03":"faults at seeded source lines (half of them in the last lines of the call, where results are stored) and at console, optimiser, objective and linear-algebra calls; after each, the model must equal the reference state before or after",
"C04":"histories with about half of the operations faulted; later operations are compared with the same operations in a world without the failed ones",
"C05":"fault-free histories over several models sharing data; every result is compared with the same call in a fresh copy of the library after the minimal history it depends on",
"C06":"2-3 caller threads, each with its own models, preempted at seeded source lines; every result is compared with the serial reference",
"C07":"2-3 caller threads reading one estimated model, preempted at seeded source lines",
"C08":"crash, error, short write or interrupt at a seeded disk step or source line of a save; page-cache view, readers during the save, and a seeded power-loss image are checked",
"C09":"histories with save / new process / load at seeded points on the simulated disk; everything afterwards is compared with the reference that never restarted",
"C10":"deep comparison of every caller-owned object after every operation, failing and interrupted ones included",
"C11":"each replicate is recomputed from an independently built resampled data set; strata, wholeness, order, labels",
"C12":"faults at seeded lines and seams of replicate generation and interval calculation; every stored attribute must be the old or the complete new one",
"C13":"the optimiser is replaced by a seeded adversary (or the real one, cut short); every reported number is recomputed by an independent model (sim/ref.py, finite differences)",
"C14":"real and cut-short searches with seeded constraint sets over all gradient-based methods; exact comparison with the starting values",
"C15":"seeded clock faults (stall, forward and backward jumps) and print settings; reference: silent run under a steady clock",
"C16":"every call that reaches the optimiser is recorded and compared with the request",
"C17":"histories, threads, faults and restarts of predictions; every returned array is recomputed by an independent model (sim/oracle.py, sim/ref.py) at the ledger's parameters, panel weights included",
"C18":"histories with faults on one bootstrap object; intervals, log-likelihoods and gradient norms are recomputed by an independent model from the replicates stored at that moment (ABC endpoints: only that they are produced, labelled and independent of the history)",
}
NA={
"N01":"a pure function of its numeric arguments: no scheduling, clock, I/O, randomness or crash for a simulator to control; this is input-space reasoning (C13 exercises moderate values through an independent model)",
"N02":"a pure data-frame transformation without concurrency, time, I/O or multi-party behaviour; deciding it is input generation, not simulation",
"N03":"a pure function of specification and data; nothing nondeterministic for it to depend on",
"N04":"input validation is a pure predicate on the arguments; no schedule or fault can influence it",
"N05":"interval arithmetic on an arbitrary fixed array of replicates is a pure function, and deciding it is input generation; C12 covers its behaviour under faults and C18 the values over histories",
"N06":"pure algebra on weights; moreover model.fit_mle offers no way to pass weights at this commit, so it is not observable through the public estimation call",
}
checks=[{"property":k,"quick_cmd":"./check %s quick"%k,"thorough_cmd":"./check %s thorough"%k,
 "technique":"deterministic simulation with seeded fault injection / schedule search",
 "level":"exploration","evidence_file":"evidence/%s.json"%k,
 "level_note":v+". Seeded sampling, not exhaustive; trusts numpy, scipy, pandas and the simulator's stubs."} for k,v in sorted(N.items())]
m={"version":1,"setup_cmd":"true","checks":checks,
"not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
"notes":"No hooks in /repo: every seam already exists at the Python level (streams, time, scipy.optimize.minimize, linalg, open/os, os.urandom, sys.settrace). ./check --replay FILE replays a violation; ./check --selftest checks that one seed is one execution."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
