#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification; behaviours elaborated by TLC, replayed in the real library, recorded trace validated by TLC"
COMMON = ("Assurance: every replayed call is checked against the specification by TLC. Trusted: the evaluation of abstract signals in long double "
          "(driver/sig.h), the driver's comparison, TLC. ")
CHECKS = {}
def chk(pid, technique, note): CHECKS[pid] = (technique, note)
chk("C01", TV + "; signal algebra model-checked against the defining sums in prime fields",
    COMMON + "All lengths to several hundred, all powers of two to 2^26, sampled others to 400000 and a prime above 46340; dense inputs that reach every coefficient; bounded by length, sampled beyond.")
chk("C02", TV, COMMON + "Inverses and all cancelling pairs in both orders; same length coverage as C01.")
chk("C03", TV, COMMON + "All even lengths to 720, powers of two to 2^26, sampled others; exact Hermitian symmetry and untouched (write protected) input are observed.")
chk("C04", TV, COMMON + "As C03 for the inverse; elements above N/2 replaced by NaN must not change a bit of the result.")
chk("C05", TV + "; cosine rules model-checked in prime fields", COMMON + "All even lengths to 720, powers of two, sampled others; all six operations and pairs.")
chk("C06", TV, COMMON + "All lengths to 330, around every power of two, primes and any lengths to 2 million.")
chk("C08", TV + "; configuration histories enumerated by TLC", COMMON + "All ordered pairs and sampled (thorough: all) triples of length classes per kind, long walks; bitwise comparison with a fresh object through the specification's memo.")
chk("C09", TV + "; results memoised by call and input", COMMON + "Bit equality of repeated calls under NaN/garbage/zero filled allocations, guard-page placement, poisoned histories.")
chk("C10", TV, COMMON + "Exact homogeneity over scales 2^-800..2^800, exact zero, NaN dependence sets computed by the specification, additivity.")
chk("C11", TV, COMMON + "The back ends of this machine run the same calls on the same inputs in one behaviour.")
chk("C16", TV + "; allocation faults enumerated", COMMON + "Interposed allocator; every allocation of create and setup made to fail in turn, over kinds, back ends and length classes; block accounting in the specification.")
try:
    import manifest_more
    manifest_more.add(chk, TV, COMMON)
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p, evidence_file="evidence/%s.json" % p,
                      technique=CHECKS[p][0], level="model_checking", level_note=CHECKS[p][1]) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason="check under construction") for p in props if p not in CHECKS],
         notes="No hooks: nothing in /repo is guarded or instrumented; the public API, interposed allocator / OpenMP runtime / sanitizer callbacks give all observations.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
