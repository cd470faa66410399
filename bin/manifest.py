#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
PBT = "property-based testing: "
TECHNIQUE = {k: PBT + v for k, v in dict(
    C01="differential against a reference implementation over generated parameters, seeds, indices and messages",
    C02="round trips over generated histories, messages and readers",
    C03="metamorphic mutation of genuine signatures, and differential verification against a reference",
    C04="digit-wise comparison of generated pairs of one-time signatures",
    C05="stateful histories with crashes and restarts against an invariant over all released signatures",
    C06="kills of the process at generated system calls and moments, invariant over what is found afterwards",
    C07="fault injection into generated histories (container, file system, system calls, message source)",
    C08="generated concurrent schedules, with and without the race detector, invariant over the history",
    C09="generated closes with work in progress, with and without the race detector",
    C10="model-based histories of opening and closing by two parties",
    C11="generated damage of the cache, signatures compared with the reference",
    C12="snapshots and kills at generated places of a history, signatures judged after reopening",
    C13="stateful histories against an invariant of the cache",
    C14="round trips of generated objects through all encodings",
    C15="structured fuzzing of decoders and parsers",
    C16="exhaustive enumeration of codes and generated parameter sets against a second reading of the document",
    C17="exhaustive and generated names and numbers against tables of the documents",
    C18="differential between settings (vector code, threads, word size, cache) over generated inputs",
    C19="metamorphic: same seeds same results, other seeds others, buffers overwritten",
    C20="stateful histories against bounds of a model",
    C21="stateful histories near the end of a key against a model",
    C22="model-based testing of the container against a map",
    C23="generated damage of key files judged by a second reading of the layout",
    C24="model disk fed with traced system calls of generated histories; all possible states after a power failure opened",
    C25="model of reservations over generated histories",
    C26="concurrent and repeated verification against known verdicts, with and without the race detector",
    C27="generated creations over old keys, and kills meanwhile",
    C28="search of all outputs of generated histories for the secrets; traced file modes",
    C29="fault injection with identifiable errors over generated histories",
    C30="generated histories of which the processor time is compared with a model's count of subtrees",
    C31="differential against the earlier release over generated alternating histories",
    C32="generated schedules of blocked readers; progress and results of everything else",
    C33="generated histories with failures, and repeated operations; descriptors, mappings, goroutines, heap compared",
    C34="generated interleavings of several keys, each judged as if alone, with and without the race detector",
    C35="generated histories on a container that checks how it is used, with and without the race detector",
).items()}
NOTE = dict(exploration="random search over generated cases, shrunk on failure; bounds, oracle and numbers of cases are in DESIGN.md")
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    s = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s" % i,
                       thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                       technique=TECHNIQUE.get(i, "property-based testing"), level=s["level"],
                       level_note=NOTE[s["level"]]))
na = [dict(property=i, reason="its check is not finished") for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
