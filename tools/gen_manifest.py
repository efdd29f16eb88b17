#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, sys
EX="exhaustive enumeration of the states of small instances of the real code against an explicit reference model"
T={
"C01":EX+" (all primes and operand pairs up to a bound; boundary operands over large primes)",
"C02":EX+" (all integers, machine-integer edges and numerals up to a bound)",
"C03":EX+" (all elements and exponents up to a bound)",
"C04":EX+" (all primes and elements up to a bound, square table as oracle)",
"C05":EX+" (all pairs of elements of GF(p^2))",
"C06":EX+" (all elements of GF(p^2), square table as oracle)",
"C07":EX+" (all elements)",
"C08":EX+" (all elements; all byte strings up to a length)",
"C09":EX+" (all pairs of structures and operations)",
"C10":EX+" (all curves of prime order, all pairs of point representations reached by operations)",
"C11":EX+" (all curves, all pairs of point representations reached by operations)",
"C12":EX+" (all curves, all pairs of point representations reached by operations)",
"C13":EX+" (all prime orders and residues up to a bound)",
"C14":EX+" (all curves, points and scalars up to a bound)",
"C15":EX+" (explicit-state exploration of the representations reachable by operations)",
"C16":EX+" (all coordinate pairs of all curves up to a bound)",
"C17":EX+" (all points of all curves up to a bound, all representations)",
"C18":EX+" (all byte strings of all admissible and neighbouring lengths)",
"C19":EX+" (all curves, admissible parameters and field elements up to a bound)",
"C20":EX+" (all curves, admissible parameters and field elements up to a bound)",
"C21":EX+" (all parameter tuples up to a bound)",
"C22":"enumeration of subgroup lattices (torsion x small multiples x representations) against a reference model of the maps",
"C23":"enumeration of subgroup lattices (kernel x small multiples x representations) against a reference model of the isogenies",
"C24":"enumeration of points, torsion and request histories of every named instance against a reference model of the published curve",
"C25":"stateless model checking of the real code: all thread schedules up to a preemption bound under a controlled scheduler with a vector-clock race detector",
"C26":"explicit-state exploration: all operation sequences up to a depth, each prefix snapshotted with fork, compared with fresh processes",
"C27":"all operation sequences up to a depth on the real code with a counting allocator as monitor; every schedule of 965 multi-threaded scenarios up to a preemption bound, with a scan for unreachable memory at the end of each execution",
"C28":EX+" (all curves up to a bound in all notations; curves of known order over fields of every size)",
"C29":EX+" (all elements and scalars up to a bound; all point representations reached by operations)",
"C30":EX+" (all strings up to a length over an alphabet of digits, signs, prefixes and others, against the grammar of numerals)",
}
NOTE="Every state of the stated finite spaces is visited on the code built from /repo, and each transition is compared with an independent reference model; outside of these spaces (larger primes) only the enumerated boundary families are covered. Trusts the reference model, num-bigint's integers, rustc."
N={
"C25":"All interleavings of the listed scenarios within the preemption bound, at the granularity of atomic operations and blocking calls, with data races between them reported by happens-before analysis. Trusts the scheduler (conc/), the instrumentation of rustc -Zsanitizer=thread, sequential consistency of relaxed atomics.",
"C26":"All sequences of the operation alphabet up to the depth, each prefix a forked snapshot of a process that did exactly that history. Trusts fork and the digest of results.",
"C27":"All sequences of the operation alphabet up to the depth, each repeated with live bytes counted by the allocator. Trusts the counting allocator; memory obtained behind the Rust allocator is not seen. In schedules, a block counts as lost when nothing that is reachable from statics, thread data or other live blocks refers to it (conservative scan).",
}
claimed=[l for l in sys.argv[1:]] or list(T)
m=dict(version=1,setup_cmd="bash setup.sh",checks=[dict(property=k,quick_cmd=f"bash run.sh {k} quick",thorough_cmd=f"bash run.sh {k} thorough",technique="model checking: "+T[k],level="model_checking",level_note=N.get(k,NOTE)) for k in claimed],
 not_applicable=[dict(property=k,reason="check under construction") for k in T if k not in claimed],
 notes="No hooks in /repo are needed: the checks drive the public API. See DESIGN.md.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
