#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.  Checks only read the results."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique, note=note,
                  level=level, state=state, observe=observe, hook=hook))


C = "bfffs-core/src/"
prop("C01", "Lost columns of a RAID stripe are rebuilt exactly",
     "For every supported number of data and parity columns, after parity has been computed, any set of lost columns no larger than the number of parity columns can be reconstructed from the survivors, and every reconstructed column is byte for byte the original. Reconstruction leaves the surviving columns as they were, and works whichever survivors are offered, in the order documented.",
     ["inputs", "configurations", "fault_sequences"], "all stripe shapes up to 255 columns, all contents and lengths, all erasure patterns within the redundancy",
     "The unit tests reconstruct a few fixed shapes of one length; the guarantee is over every shape and every erasure pattern.",
     [C + "raid/codec.rs", "bfffs-isa-l/src/lib.rs"], [("Reed-Solomon encode and decode matrices", C + "raid/codec.rs"), ("ISA-L bindings", "bfffs-isa-l/src/lib.rs")],
     "runtime monitor: byte-for-byte oracle over erasure patterns run on the real codec",
     "Exhaustive over erasure patterns of small stripes, random over large ones; the oracle is the original data. Says nothing about patterns not run.")
prop("C02", "Parity does not depend on how the data is presented",
     "The parity of a stripe is a function of its columns' contents alone: computing it from contiguous buffers, from scatter-gather lists segmented in any way, or incrementally one column at a time in any order gives identical bytes, and the first parity column of a single-parity stripe is the exclusive or of its data.",
     ["inputs", "configurations"], "all stripe shapes, column lengths, segmentations and update orders",
     "Tests compare two segmentations of one shape; a bug shows only for particular segment boundaries.",
     [C + "raid/codec.rs", C + "raid/sgcursor.rs"], [("vectored and incremental encoding", C + "raid/codec.rs"), ("lock-step cursor over scatter-gather lists", C + "raid/sgcursor.rs")],
     "runtime monitor: differential oracle between the ways of encoding",
     "Random shapes, lengths and segmentations, biased to small segments, empty segments and uneven boundaries.")
prop("C03", "Encoding and decoding stay inside the buffers they are given",
     "Whatever the shape and length of a stripe, encoding, decoding and updating parity read only the bytes of the columns they were given and write only the bytes of their output columns.",
     ["inputs", "configurations"], "all operations, stripe shapes, column lengths and buffer placements",
     "A test that only compares results cannot see an access just outside a buffer; whether one happens depends on length, alignment and CPU.",
     [C + "raid/codec.rs", "bfffs-isa-l/src/lib.rs"], [("table and column pointers handed to ISA-L", C + "raid/codec.rs"), ("unsafe bindings", "bfffs-isa-l/src/lib.rs")],
     "runtime monitor: page fences around every buffer plus valgrind memcheck",
     "Each case runs in a child process with its buffers hard against inaccessible pages; a sample is re-run under valgrind at byte granularity. A 64-byte readable margin behind outputs is allowed for a benign over-read of one ISA-L kernel.")
prop("C04", "The declustered layout spreads every stripe over distinct disks",
     "In every supported layout, each stripe's chunks lie on different disks, no two chunks share a location, every location of a repetition is used exactly once, and each disk carries the same number of data and parity chunks in a repetition. Reported geometry (stripes, depth, iterations) agrees with the placement, and none of this fails for large layouts or far-away stripes. Numbers of disks for which there is no such layout are refused.",
     ["configurations", "inputs"], "all supported disk counts, stripe widths and redundancies, and all stripes",
     "Tests check two published layouts; the guarantee is over every prime disk count and stripe width, where the arithmetic overflowed.",
     [C + "raid/prime_s.rs", C + "raid/declust.rs"], [("PRIME-S placement", C + "raid/prime_s.rs")],
     "runtime monitor: structural oracle over complete repetitions of the layout",
     "Exhaustive over small layouts, random over larger ones up to the documented prime limit; windows of far-away stripes.")
prop("C05", "Chunk addresses and disk locations translate back and forth",
     "Translating a chunk to its location and back gives the same chunk, for every chunk of every layout. Iterating over a range of chunks, forwards from any start to any end, yields each chunk once, in order, with the location that direct translation gives.",
     ["configurations", "inputs"], "all layouts, all chunk addresses and ranges",
     "Tests iterate a handful of ranges on small layouts; errors sit at the wrap-around of iterations and repetitions.",
     [C + "raid/prime_s.rs", C + "raid/declust.rs"], [("forward, inverse and incremental translation", C + "raid/prime_s.rs")],
     "runtime monitor: differential oracle between iteration, translation and inverse translation",
     "Exhaustive over small layouts, random over larger ones and over ranges that cross repetition boundaries.")
prop("C06", "A cursor over a scatter-gather list yields its bytes once, in order",
     "Advancing a cursor over a scatter-gather list by any sequence of requests yields exactly the list's bytes, once each and in order, however the list is cut into segments (empty segments included). What it reports as left to read agrees with what it will still yield.",
     ["inputs", "histories"], "all segmentations and request sequences",
     "Tests use lists of two or three segments and aligned requests.",
     [C + "raid/sgcursor.rs"], [("segment stepping", C + "raid/sgcursor.rs")],
     "runtime monitor: byte-order oracle over recorded cursor histories", "Random lists and requests compared byte for byte with the flattened list.")
prop("C07", "Scatter-gather and range helpers mean what they say",
     "Copying and padding, zero-filling, measuring and checksumming a scatter-gather list depend only on the bytes it contains and never lose, reorder or invent any. A range is reported empty exactly when no key can lie in it.",
     ["inputs"], "all segmentations, lengths and paddings; all pairs of range bounds",
     "Tests use one or two shapes; the helpers failed on empty and many-segment lists.",
     [C + "util.rs"], [("scatter-gather helpers", C + "util.rs"), ("emptiness of ranges", C + "util.rs")],
     "runtime monitor: reference oracle over flattened bytes", "Random shapes; ranges over a small key space exhaustively.")
prop("C08", "The block cache returns what was inserted and forgets the oldest first",
     "Looking up a key gives the contents last inserted under it or nothing; what was removed or never inserted is not found, whatever the history. The cache never reports or holds more than its capacity once an insertion finishes, its reported size is the sum of what it holds, and it evicts in order of least recent use.",
     ["histories"], "all histories of insertion, lookup, removal and eviction",
     "Tests check each operation on caches of two or three entries; eviction order and accounting go wrong through particular sequences.",
     [C + "cache/lru.rs"], [("LRU list threaded through the hash map", C + "cache/lru.rs")],
     "runtime monitor: reference LRU model compared after every operation", "Random histories over few keys and small capacities; whole contents and order compared through the public interface.",
     state=[("LRU list", "recency order", C + "cache/lru.rs"), ("size", "bytes held", C + "cache/lru.rs")])
prop("C09", "Readers that miss the cache together share one fetch and all get an answer",
     "When several readers ask for the same uncached block at once it is fetched at most once at a time, is cached once it has been fetched, and is not fetched again while the cache still holds it, and every reader gets the fetched contents or the fetch's failure. Nobody waits forever: after a fetch succeeds, fails, or its block is evicted or any reader gives up, waiting or fetching, later readers proceed.",
     ["schedules", "fault_sequences"], "all interleavings of readers, fetch completions, fetch failures, evictions and abandoned waits",
     "Tests run one happy interleaving; a lost waiter needs an eviction or failure in a particular window.",
     [C + "cache/mod.rs"], [("pending insertion table with waiter channels", C + "cache/mod.rs")],
     "runtime monitor: online checker of fetch histories under a randomised deterministic executor",
     "Random schedules driven poll by poll; stuck readers are decided by exhaustion of runnable tasks, not by time. Readers give up at any point, also the one that fetches.")
prop("C10", "Write-back credit is conserved by every operation on it",
     "Splitting, halving, taking and joining credit never create or destroy any of it, also when many threads split one credit at once; a split gives what was asked for or all there was. Comparisons and sums of credit agree with its amount, and losing credit does not pass unnoticed.",
     ["inputs", "schedules"], "all amounts, operations and concurrent splits",
     "Tests check one amount per operation and no real concurrency.",
     [C + "writeback/writeback.rs"], [("credit arithmetic", C + "writeback/writeback.rs")],
     "runtime monitor: conservation oracle, including concurrent splitting on real threads", "Random amounts over a wide scale, oracle in plain integers.")
prop("C11", "Write-back credit is lent in order and never beyond capacity",
     "The credit out on loan never exceeds the capacity; applications are granted in the order they were made, in full, as soon as enough has been repaid, and none is forgotten. Once all is repaid or abandoned while waiting, the whole capacity can be borrowed again.",
     ["histories"], "all histories of borrowing, partial and full repayment, and abandoned applications",
     "Tests run a few three-step histories.",
     [C + "writeback/writeback.rs"], [("queue of sleeping borrowers and the supply counter", C + "writeback/writeback.rs")],
     "runtime monitor: online checker of loan histories against a model bank", "Random histories with a hand-driven executor; forgetting is decided when nothing can run, not by time.")
prop("C12", "Dataset properties survive printing, parsing and storage",
     "Every property value and name, printed and parsed back or encoded and decoded, is the same value; aliases and units are read as documented, and text that is not a valid value is refused without failing. Sources of properties print and parse as documented.",
     ["inputs"], "all property names, values and strings",
     "Tests parse a handful of strings; the documented extremes (largest record size) were refused.",
     [C + "property.rs"], [("parsing and printing of properties", C + "property.rs")],
     "runtime monitor: round-trip and reference-grammar oracle", "Exhaustive over the value space of every property, random strings near the grammar.")
prop("C13", "On-disk and wire encodings of basic types are stable and reversible",
     "Every value of the basic on-disk types encodes to its documented size, decodes to itself, and refuses truncated input; ordering, arithmetic and printing of identifiers agree with the underlying numbers.",
     ["inputs"], "all values of the types",
     "Tests encode single examples.",
     [C + "types.rs"], [("derived encodings", C + "types.rs")],
     "runtime monitor: round-trip and size oracle", "Boundary values plus random ones.")
prop("C14", "A pool specification is read as documented or refused",
     "Every sequence of words given as a pool layout is either read as exactly the tree of mirrors, RAID groups and disks that the documented grammar gives it, with every number and path kept, or refused with an error; parsing never fails in any other way.",
     ["inputs"], "all sequences of words and separators",
     "Tests parse six valid specifications and no invalid one.",
     ["bfffs/src/pool_create_parser.lalrpop", "bfffs/src/bin/bfffs/pool_create_ast.rs"], [("LALRPOP grammar", "bfffs/src/pool_create_parser.lalrpop")],
     "runtime monitor: differential oracle against a hand-written reader of the grammar", "Exhaustive over short word sequences, random mutations of long ones.")
prop("C15", "Nobody is forgotten when threads borrow and repay at once",
     "When several threads borrow and repay write-back credit at the same time, the credit on loan never exceeds the capacity, each gets what he asked for, and no application that could be granted is left waiting while nothing else is going on. When all have finished the whole capacity is available.",
     ["schedules"], "all interleavings of the lock-free and locked steps of several borrowers and repayers",
     "Tests are single-threaded; the lost wakeup this found needs a repayment inside a window of two instructions.",
     [C + "writeback/writeback.rs"], [("fast path on an atomic supply counter, slow path under a lock", C + "writeback/writeback.rs")],
     "runtime monitor under a randomised/PCT scheduler that preempts at every atomic and lock operation", "Sequentially consistent interleavings of two to four threads; weaker memory orderings are not explored.")
import glob
for f in sorted(glob.glob(os.path.join(HERE, "spec_*.py"))):
    exec(open(f).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], hook_needed=p["hook"])
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            assert len(p["title"]) <= 80, p["title"]
            o.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    na = {x["property"] for x in NA}
    m = dict(version=1, setup_cmd="python3 /verif/run.py setup",
             hooks=dict(guard="none", enable="No hooks: the monitors compile /repo's own sources and observe them through public interfaces, replaced I/O and a replaced std.", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd="python3 /verif/run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 /verif/run.py " + p["id"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["id"] not in na],
             not_applicable=NA)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
