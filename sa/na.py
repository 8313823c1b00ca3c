"""Properties static analysis cannot decide here (listed under not_applicable)."""
NA = []


def na(pid, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


na("N01", "Concurrent operations are linearizable",
   "Every concurrent history of get, put, replace, remove and scan calls has a sequential order consistent with real time that explains every answer (scans: per entry).",
   ["schedules", "histories"], "all interleavings of all operations", "tests sample a few schedules", ["masstree.hh"], [("whole tree protocol", "masstree_*.hh")],
   "linearizability is a property of whole histories over runtime key values; no static argument in reach proves it. Its structural ingredients (locking, ownership, marking, publication, re-validation) are claimed separately.")
na("N02", "Keys are found in exactly the order of their byte strings",
   "For every set of keys, lookups and scans behave as in a map ordered by bytewise comparison of the whole keys, whatever their lengths and common prefixes.",
   ["inputs"], "all finite sets of byte-string keys", "tests insert a few key shapes", ["masstree_key.hh", "ksearch.hh"], [("key slicing and comparison", "masstree_key.hh")],
   "functional correctness of comparisons and searches over unbounded inputs needs a prover or solver, not a dataflow argument.")
na("N03", "JSON and message-pack values survive a round trip",
   "Any value written by the JSON or message-pack encoder and read back by the matching decoder is the same value.",
   ["inputs"], "all values", "tests cover sample values", ["json.cc", "msgpack.cc", "msgpack.hh"], [("encoder/decoder", "msgpack.cc")],
   "equality of a decoder's result with an encoder's input quantifies over runtime values that no static domain here represents.")
