"""Writes /verif/MANIFEST.json (run by hand when the set of checks changes)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
 "C01": "Seeded search over sequences of legal eigensolver answers (order, scale, phase, degenerate mixing, rounding noise) on random stacks; real fmmax and jax code with a simulated eigensolver behind the library's own optional-solver seam. Assumes stacks whose eigenproblems are not near-defective (filtered by the measured conditioning).",
 "C02": "Seeded search over sequences of legal eigensolver answers, checking gradients against central differences and against the gradient under the plain answer; stacks with nearly degenerate modes are skipped.",
 "C03": "Seeded search over builder histories (append, prepend, join, scan, thickness changes, checkpoints, abandoned steps), checked against an independent dense boundary-matching model.",
 "C04": "Seeded search over splits and assembly schedules of stacks with excitations and interior sources, checked against interface continuity and an independent dense model.",
 "C05": "Seeded search over batch partitions, orders, duplicates, broadcast structures and poisoned elements of operations covering the public interface; the oracle is each element computed alone.",
 "C06": "Seeded search over thread interleavings at line granularity inside the library, serialised by the simulator; the oracle is the same call run alone.",
 "C07": "Seeded search over crash points (exception raised at a chosen line inside the library), followed by retries and other calls compared with an undisturbed run.",
 "C08": "Seeded search over call histories on one long-lived library instance with cache clears, garbage collection and round trips, compared with a freshly imported library, and across hash seeds.",
 "C09": "Seeded search over eigensolver failures (exceptions, non-convergence of batch elements) at every position of the sequence of eigensolves.",
 "C10": "The default device is simulated not to be the CPU and the host-callback transport is replaced by a simulated executor that duplicates, splits, reorders and re-executes requests; the oracle is direct execution.",
 "C11": "The real documentation scripts on a simulated file layer with crash points, torn and failing writes and permuted listings; the oracle is a run into an empty directory.",
 "C12": "Seeded search over call sequences with numpy arguments in guarded, read-only, aliased and shared buffers, with failing calls; argument bytes and process settings are compared before and after.",
}
NA = ("The property is a pure function of the call's numerical input: no schedule, fault, history or other "
      "nondeterminism can change whether it holds, so seeded simulation would be plain input fuzzing.")
built = [p for p in props if os.path.exists(os.path.join(V, "fsim", p["id"].lower() + ".py"))]
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import jax, numpy, fsim.core\"",
     "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id'].lower()}",
                 "thorough_cmd": f"bash run.sh {p['id'].lower()} --tier thorough",
                 "technique": "deterministic simulation with fault injection: seeded search over "
                              + {"C01": "eigensolver answers", "C02": "eigensolver answers", "C03": "assembly histories", "C04": "split/assembly schedules",
                                 "C05": "batch partitions and poisoned elements", "C06": "thread interleavings", "C07": "crash points", "C08": "call histories",
                                 "C09": "backend failures", "C10": "host-callback schedules", "C11": "file-system faults and crash points", "C12": "call sequences on shared, aliased, guarded arguments"}[p["id"]],
                 "level": "exploration", "level_note": NOTE[p["id"]]} for p in built],
     "not_applicable": [{"property": p["id"], "reason": NA if p["id"] > "C12" else "Check under construction."} for p in props if p not in built],
     "notes": "No hooks are added to /repo: every seam the simulator uses already exists (optional eigensolver package, host callback, interpreter monitoring events, file operations). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
