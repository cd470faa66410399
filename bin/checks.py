"""What bin/check.py needs to know about each property's check."""
E_ = "exploration"
CHECKS = {}


def c(pid, rule, level=E_, **kw):
    CHECKS[pid] = dict(rule=rule, level=level, **kw)


c("C01", "a case is one derived key or one signature, compared byte for byte with the reference "
         "implementation; non-trivial: a signature; distinct by (parameters, index, message length, key)")

c("C02", "a case is one signature, verified from memory, from a stream, and from bytes; all are non-trivial; "
         "distinct by (parameters, way of signing, index, message length, container)")
c("C03", "a case is one (key, signature, message) triple that is not genuine (or judged by the reference), verified in "
         "four ways; non-trivial: it differs from a genuine triple at exactly one described place; distinct by place, index, key")
c("C04", "a case is one pair of one-time signatures by the same key; distinct by parameters, index and checksum; "
         "the in-package part signs chosen pairs of digests of which the digits of one are nowhere smaller",
  build=["plain", "bridge"], run={"bridge": "^TestC04_Bridge$"}, optional=["bridge"])

c("C05", "a case is one released signature of one history (indices of all signatures compared, stored state peeked at); "
         "non-trivial: a history with restarts and signatures; distinct by the history")
c("C20", "a case is one step of a history; non-trivial: a history with a restart, or a hand-written key file; distinct by "
         "history or by (parameters, index, lost)")
c("C21", "a case is one signature or refusal near the end of a key; non-trivial: a history that reached the end; distinct by history")
c("C25", "a case is one step of a history of reservations and signatures; non-trivial: a history with more than three "
         "reservations or signatures; distinct by history")
c("C06", "a case is one kill (as the process enters a system call, at a random moment, or as a snapshot of the stopped process), "
         "or a signature made afterwards; non-trivial: a kill or snapshot after which the key was opened and judged; distinct by "
         "(parameters, commands, place of the kill, commands completed)",
  assumptions=["killing a process loses nothing it wrote; the page cache survives (C24 covers power failures)",
               "without strace only kills at random moments and snapshots are explored"])
c("C07", "a case is one step of a history with injected faults; non-trivial: a history in which a fault struck; distinct by history")
c("C08", "a case is one signature, reservation or query of a concurrent run; non-trivial: a run with at least two goroutines "
         "signing; distinct by the run's plan and indices", build=["plain", "race"])
c("C09", "a case is one close; non-trivial: closes with work going on in the background or operations after them; distinct by history",
  build=["plain", "race"])
c("C10", "a case is one attempt to open, create or close a key, in this process or another; non-trivial: a history with two "
         "parties and a refusal; distinct by history")
c("C11", "a case is one reopening after the cache was damaged or lost, and its signatures; non-trivial: the damage altered a cache "
         "that held subtrees; distinct by history")
c("C13", "a case is one step of a history after which the cache was inspected; non-trivial: a history that crossed a subtree "
         "boundary; distinct by history")
c("C14", "a case is one object encoded and decoded in several ways; non-trivial: a signature; distinct by parameters, index and content")
c("C15", "a case is one input to a decoder or parser; non-trivial: one that gets beyond the first check (valid prefix or near-valid "
         "name); distinct by the input")
c("C16", "a case is one four-byte code (all 2^32 classes of 2^24 reserved codes enumerated) or parameter set; non-trivial: a "
         "supported set or a block of codes; distinct by code or set")
c("C17", "a case is one parameter set, name or OID; non-trivial: one with a name; distinct by name")
c("C18", "a case is one output compared between two settings; non-trivial: a signature or public key; distinct by parameters, index, "
         "message length and settings", build=["plain", "386"], run={"386": None}, optional=["386"])
c("C19", "a case is one key derived or generated and compared; non-trivial: with buffers overwritten, seeds altered or wrongly sized; "
         "distinct by the case")
c("C22", "a case is one operation on the container, compared with the model; non-trivial: a history with a reopening and several "
         "caches; distinct by history")
c("C23", "a case is one damaged key file opened; non-trivial: all that differ from the original; distinct by parameters and damage")
c("C26", "a case is one verification; non-trivial: a run with several goroutines or repetitions; distinct by plan",
  build=["plain", "race"])
c("C12", "a case is one loss of the process followed by signatures from the reopened key; non-trivial: all in which the key was stored; "
         "distinct by (parameters, history, place)")
c("C24", "a case is one possible state of the key file after a power failure at one moment, opened and judged; non-trivial: a run "
         "with more than one such state; distinct by history",
  assumptions=["the model disk: a file holds what was last synced, or that plus some of the writes since; the key's name refers to "
               "any of the files it was given to since its directory was last synced", "a failed fsync changes nothing in the model"])
c("C27", "a case is one key created over another, or one kill meanwhile, and what was found afterwards; all are non-trivial; distinct "
         "by history and place of the kill")
c("C28", "a case is one step of a history after which all outputs, the log, errors and files were searched for the secrets; non-trivial: "
         "a whole history with its outputs searched (in-process or traced); distinct by history")
c("C29", "a case is one operation of which results and error were judged; non-trivial: a history in which the storage failed, a "
         "file-system obstacle, or a set of refused inputs; distinct by history, obstacle or inputs")
c("C30", "a case is one operation of which the processor time was compared with that of the subtrees it had to compute; non-trivial: a "
         "whole history measured; distinct by parameters and history",
  assumptions=["processor time measures work: an operation is at fault if it takes more than 1.25 times the subtrees it needs "
               "plus 0.6 of one in each of 8 runs of its history"])
c("C31", "a case is one use of a key by one of two releases, one name, or one set of encodings compared; non-trivial: a history of "
         "alternating releases or a set of encodings; distinct by history or inputs",
  assumptions=["verif/harness/old is the library as it was at the pinned commit"])
c("C32", "a case is one operation that had to return while others waited for their messages, or one that had waited; non-trivial: a "
         "history in which something was done while at least one call waited; distinct by history")
c("C33", "a case is one operation of a history after which - or after closing - what the process holds was compared with what it may "
         "hold; non-trivial: a history with a failure, or one repeated until growth would show; distinct by history")
c("C34", "a case is one operation on one of several keys, judged as if it were the only one; non-trivial: a history in which keys share "
         "something or were verified across; distinct by history", build=["plain", "race"])
c("C35", "a case is one operation on a key in a container that checks every call; non-trivial: a history in which something was "
         "signed; distinct by history", build=["plain", "race"])
