# Properties of the whole file system, decided by the crate `full`
D = C + "database/"
VDEVS = [C + "cluster.rs", C + "pool.rs", C + "ddml/ddml.rs", C + "idml/idml.rs"]
SIM = "Random histories of one client against a reference model, on real vdevs over files with asynchronous I/O of random latency and order; virtual time. Concurrency inside bfffs (flusher, syncer, cleaner) is real, the client issues one operation at a time."
prop("C16", "The name space behaves like a tree of directories",
     "After any history of creating, linking, renaming and removing files and directories, every name leads to the file it was given to and to no other, link counts and parents are right, and files disappear exactly when their last name and last user do. Listing a directory, in one go or in steps, yields each of its entries exactly once. All of this also for names whose hashes collide.",
     ["histories", "configurations"], "all histories of name space operations, names (colliding ones too) and cache states",
     "Tests exercise one operation each on a few names; collisions of three names and reads in the middle of a bucket had never been run.",
     [C + "fs.rs", C + "fs_tree.rs"] + VDEVS[:0], [("directory entries in hash buckets", C + "fs_tree.rs"), ("name space operations", C + "fs.rs")],
     "runtime monitor: reference model of a name space compared with lookups, listings and attributes", SIM,
     state=[("directory entries", "name to inode", C + "fs_tree.rs"), ("link counts", "names per inode", C + "fs.rs")])
prop("C17", "A file contains what was last written to it",
     "After any history of writes, truncations, hole punching and syncs, reading any part of a file yields the bytes last written there and zeros where nothing was, up to exactly its size. Seeking for data and holes agrees with the contents, and the space a file is charged for follows its data. Caching, flushing and dropping caches never show.",
     ["histories", "configurations", "schedules"], "all histories of file operations, offsets, sizes, record sizes, compressions and moments of flushing",
     "Tests write one or two patterns; a record flushed while part of it is rewritten, or a partial record at a particular offset, needs a particular history.",
     [C + "fs.rs", C + "tree/tree/mod.rs", C + "dml.rs"] + VDEVS, [("extents, partial records and blobs", C + "fs.rs"), ("dirty nodes and flushing", C + "tree/tree/mod.rs")],
     "runtime monitor: byte-for-byte reference model compared with reads, seeks and attributes", SIM)
prop("C18", "Attributes and extended attributes keep the values they were given",
     "Owner, permissions, flags, time stamps and extended attributes keep the value they were last given, change only where the operation says so, and are updated by the operations that must update them. Extended attributes are listed exactly once each, found by their exact name and value, and survive others being set or removed, also when their names' hashes collide.",
     ["histories"], "all histories of attribute operations, value lengths and (colliding) names",
     "Tests set one or two attributes; losing one needs a collision, a large value and a flush together.",
     [C + "fs.rs", C + "fs_tree.rs"], [("extended attributes in hash buckets", C + "fs_tree.rs"), ("setattr and time stamps", C + "fs.rs")],
     "runtime monitor: reference model of attributes compared after every operation", SIM)
prop("C19", "What was synced is there after the pool is imported again",
     "After a sync and an orderly shutdown, importing the pool from its disks shows the same file systems with the same names, contents, attributes and properties, whatever was done before and however often this is repeated. Files that had no name left are gone.",
     ["histories", "configurations"], "all histories, pool layouts, record sizes and numbers of remounts",
     "Tests reopen pools with a handful of files once; the on-disk form of large trees, free-space maps and open zones depends on history.",
     [C + "fs.rs", D + "database.rs", C + "pool.rs", C + "cluster.rs", C + "label.rs", C + "idml/idml.rs"],
     [("forest and labels", D + "database.rs"), ("free-space map", C + "cluster.rs"), ("indirection tables", C + "idml/idml.rs")],
     "runtime monitor: whole-state comparison with a reference model across unmount and import", SIM)
prop("C20", "Space that is freed becomes usable, and cleaning loses nothing",
     "Removing data gives its space back: after enough syncs, space in use follows what is stored and does not leak, and cleaning runs to completion. Cleaning never changes the contents of any file, and the pool's own consistency check finds nothing wrong at any point.",
     ["histories", "configurations"], "all histories of writing, deleting, cleaning and syncing on small pools",
     "Tests clean one prepared zone; leaked zones and blocks depend on when zones close relative to the last free in them.",
     [C + "cluster.rs", C + "cleaner.rs", C + "idml/idml.rs", C + "pool.rs"], [("free-space map and zones", C + "cluster.rs"), ("zone cleaning", C + "idml/idml.rs")],
     "runtime monitor: reference model, consistency check and space accounting over histories with forced cleaning", SIM)
prop("C21", "A power failure loses nothing that was synced",
     "If power fails at any moment, whatever part of the unsynced writes reached the disks (whole, torn or not at all), the pool can be imported afterwards and shows a state at least as new as the last sync that had completed, exactly as it was at one sync: nothing of it lost, damaged or mixed with another. The pool then works on as if nothing had happened.",
     ["crash points", "histories", "configurations"], "all histories, moments of failure, subsets of unsynced writes and pool layouts",
     "Tests never lose a write: what a torn label or a half-written transaction leaves behind is not sampled at all.",
     [D + "database.rs", D + "mod.rs"] + VDEVS + [C + "label.rs", C + "raid/vdev_raid.rs", C + "mirror.rs", C + "vdev_file.rs"],
     [("order of a transaction's writes, barriers and labels", D + "database.rs"), ("reading the newest valid label", C + "label.rs")],
     "runtime monitor: every device write of a run is recorded; disks after simulated power failures are imported by the real code and compared with the reference model at the syncs", 
     "Failures are drawn at random from the recorded runs (biased towards syncs), with twelve ways of choosing which unsynced 4 KB pages survive. What a disk acknowledged a sync for is kept.",
     state=[("transaction number", "newest complete label", C + "label.rs"), ("marker", "attribute of the root written before each sync", D + "database.rs")])

prop("C22", "An array keeps its data as long as enough disks work",
     "What was written to an array of disks (mirrors, RAID or both) reads back unchanged, over any range and in any order of writing, reading, flushing, finishing, erasing and reopening zones, as long as no more disks are missing, faulted, failing or being rebuilt than its redundancy covers; with more of them gone there are errors but never wrong data. When disks silently return wrong data within the redundancy, the right data is among the reconstructions offered. Disks can be faulted, attached and rebuilt at any time, and a rebuilt disk alone holds what it should. Every operation finishes, no data is written outside its zone or over what was already written, a flush leaves the data on the disks, and labels and space maps read back as written last.",
     ["histories", "configurations", "faults", "schedules"], "all geometries, histories, I/O completion orders and combinations of faults up to and beyond the redundancy",
     "The tests of these files use mocks and a few fixed geometries; degraded writing, partial chunks with an I/O error, and rebuilding an open zone had never been run on data.",
     [C + "raid/vdev_raid.rs", C + "mirror.rs", C + "vdev_block.rs", C + "raid/mod.rs", C + "raid/null_raid.rs", C + "vdev_file.rs"],
     [("striping, degraded reads, recovery", C + "raid/vdev_raid.rs"), ("choice and health of a mirror's leaves", C + "mirror.rs"), ("I/O scheduler", C + "vdev_block.rs")],
     "runtime monitor: reference contents compared with every read while disks are removed, fail, lie and are rebuilt; device logs checked for writes outside a zone or over data; termination by virtual time", 
     "One writer per zone writing sequentially, as Cluster does; reads overlap writes, flushes and rebuilding.",
     state=[("contents of each zone", "LBA to acknowledged data", C + "raid/vdev_raid.rs"), ("health of each disk", "present, faulted, missing, rebuilding", C + "mirror.rs")])

prop("C23", "A pool keeps working as it loses and regains disks",
     "As long as no more disks of any array are missing, faulted, failing, returning garbage or being rebuilt than its redundancy covers, clients of a pool notice nothing: every operation gives the result it would give on healthy disks, the database's own check passes and importing the pool gives what was synced. Disks may be faulted, attached and rebuilt while clients write and the cleaner runs, and disks that were away may come back, stale, when the pool is imported. Rebuilding finishes; then a rebuilt disk can replace all others of its mirror. The reported health of pool, mirrors and disks is the real one.",
     ["histories", "configurations", "faults", "schedules"], "all geometries, client histories, I/O completion orders, and sequences of losing, garbling, attaching, rebuilding and returning disks within the redundancy",
     "The tests cover each layer's error path against mocks of the next; that a checksum error above, a stripe half in memory, a transaction half synced and a rebuild in the background go together has to be seen on the whole.",
     [C + "ddml/ddml.rs", C + "cluster.rs", C + "pool.rs", C + "idml/idml.rs", C + "database/database.rs", C + "raid/vdev_raid.rs", C + "mirror.rs", C + "label.rs"],
     [("recovery from wrong checksums, repair tasks", C + "ddml/ddml.rs"), ("order of rebuilding zones and labelling the rebuilt disk", C + "cluster.rs"), ("freshest label wins", C + "mirror.rs")],
     "runtime monitor: reference model of the file system compared with every answer while disks are faulted, garbled, attached, rebuilt, removed and returned; bfffs's own check; termination by virtual time",
     "One client. A RAID column of which every disk missed a sync does not return (bfffs cannot tell, as its labels do not compare columns). Known finding: until something is synced after a rebuild, the rebuilt disk has no label of its own.",
     state=[("state of each disk", "present, faulted, missing, rebuilding, returning garbage", C + "mirror.rs"), ("contents of the pool", "model of files and attributes", C + "fs.rs")])

prop("C24", "Damage beyond redundancy is reported, never passed off as data",
     "When more of a pool is unreadable, garbled or misplaced than its redundancy covers, every question a client asks (reading files, attributes, extended attributes, directories, names, links, holes; importing the pool; checking it) gets either the answer it would get on healthy disks or an I/O or integrity error: never other data, a name or attribute that is not so, a short list without an error, an error that means something else (such as that a file does not exist), a panic, or no answer at all. Nothing is remembered of an error: once the disks are readable again, everything is as it was.",
     ["inputs", "configurations", "faults", "schedules"], "all geometries, contents of the pool, and kinds, places and amounts of damage: zeroed, random, flipped, misplaced and unreadable blocks, on some or all disks, while mounted or between unmounting and importing",
     "The tests give each layer one garbled block at a time; which of the hundred places that handle an error gets it, next to which concurrent reads, depends on the place of the damage and on what is cached.",
     [C + "ddml/ddml.rs", C + "cache/mod.rs", C + "idml/idml.rs", C + "tree/tree/mod.rs", C + "fs.rs", C + "cluster.rs", C + "label.rs", C + "raid/vdev_raid.rs", C + "mirror.rs"],
     [("checksums of records", C + "ddml/ddml.rs"), ("checksums of labels and space maps", C + "label.rs"), ("a failed or abandoned fetch is passed on to those who wait for it", C + "cache/mod.rs")],
     "runtime monitor: reference model of the file system compared with every answer on pools damaged at random beyond their redundancy, then healed; termination by virtual time",
     "Questions only: what changes on a damaged pool is not judged. Known findings: mounting a file system whose root cannot be read panics; so does a failing read if access times are kept.",
     state=[("contents of the pool", "model of files and attributes", C + "fs.rs"), ("damage", "blocks garbled or unreadable", C + "ddml/ddml.rs")])

prop("C25", "Clients working at once do not get in each other's way",
     "When several clients work on a pool at the same time, each in a file system or in a directory of its own, every operation of each gives the result it would give if that client were alone, whatever the others do, in whatever order their operations' disk reads and writes complete, with a flusher, a syncer and a cleaner running. Afterwards, mounted or imported again, each finds all of its own and nothing of the others', and the database's own check passes. No operation is held up for ever.",
     ["histories", "configurations", "schedules"], "all histories of several clients, all interleavings of their operations and of the completion of their disk accesses, mounts of the same and of different file systems, record sizes, caches and pool layouts",
     "The tests issue one operation at a time: latching of tree nodes from above and from below, a fetch shared by two readers, a record moved while another is read, transactions entered while one is closed, are never under way together.",
     [C + "fs.rs", C + "tree/tree/mod.rs", D + "database.rs", C + "idml/idml.rs", C + "ddml/ddml.rs", C + "cache/mod.rs", C + "writeback/mod.rs", C + "cleaner.rs", C + "cluster.rs", C + "vdev_block.rs"],
     [("latches of tree nodes", C + "tree/tree/mod.rs"), ("transaction groups", C + "idml/idml.rs"), ("fetches shared by readers", C + "cache/mod.rs")],
     "runtime monitor: several clients, each with a reference model compared with every answer, over real vdevs with random and sometimes very long latencies; whole-state comparison and bfffs's own check in quiet moments; termination by virtual time",
     "Interleavings are those of one executor thread: tasks switch where they wait (for latches, disks, credit), which random latencies spread over all operations. Pools are large enough for what is written.",
     state=[("contents of the pool", "one model of files and attributes per client", C + "fs.rs")])

prop("C26", "File systems and their properties are as administered",
     "After any history of creating, destroying, mounting and unmounting file systems, setting and inheriting properties, syncing and importing again, also with several such commands under way at once: each command succeeds or is refused as it should (an existing name, a missing parent, one with children, a mounted one, a name outside the pool or malformed, a bad value), a refused command changes nothing, a file system is found and listed exactly once under its parent if it was created and not destroyed, every property has the value and the source that its nearest ancestor determines, a mounted file system goes by its properties, files stay in the file system they were put into, and what was destroyed gives back its space.",
     ["histories", "configurations", "schedules", "inputs"], "all histories of commands one after another and at once, names (with colliding hashes, separators, foreign prefixes), properties, depths of nesting, and imports",
     "The tests create one or two file systems, one after the other; inheritance over several levels, refused commands, commands at once and the same after another import are not sampled.",
     [C + "controller.rs", D + "database.rs", D + "mod.rs", C + "property.rs", C + "fs.rs"],
     [("names to file systems", D + "mod.rs"), ("open trees, creation and destruction", D + "database.rs"), ("mounted file systems, sources of properties", C + "controller.rs")],
     "runtime monitor: reference model of file systems, properties and files compared with every command's answer and, repeatedly, with everything that can be asked; bfffs's own check; space in use",
     "Commands at once are such that their order does not matter. Unmounting is dropping the Fs, since unmount(2) of a FUSE mount is not available here. A property set on an ancestor reaches a mounted file system when it is mounted again (documented). Known finding: the mount point of a mounted file system cannot be set.",
     state=[("file systems", "name to tree, parent, properties, files", D + "mod.rs"), ("mounted file systems", "tree to properties in force", C + "controller.rs")])

prop("C27", "The FUSE server answers the kernel as a file system does",
     "For any history of requests that a kernel may send to the FUSE server, also several at once, with vnodes forgotten at any moment and looked up again by any of their names or (for NFS) by their number: every request is answered; every name leads to the file it was given to and every answer has that file's attributes, contents, target, extended attributes and entries as of the completed requests; an unlinked file stays usable until the kernel forgets it; renaming a directory into itself is refused; the blocks a file is charged for are those of its data; and all of it is there after mounting again or importing the pool again. The server never panics and never loses count of what the kernel knows.",
     ["histories", "schedules", "inputs"], "all histories of concurrent requests that respect the kernel's locks and lookup counts, names, links, sizes and offsets of requests, record sizes, caches and pool layouts",
     "The tests give the server one request at a time with a mocked file system, or a few system calls in order; FORGETs that overtake LOOKUPs, links of one file looked up at once, lookups by number and many records in a request are not sampled.",
     ["bfffs/src/bin/bfffsd/fs.rs", C + "fs.rs", D + "database.rs"],
     [("files and names the kernel knows", "bfffs/src/bin/bfffsd/fs.rs"), ("write-back credit of a request", C + "idml/idml.rs")],
     "runtime monitor: a model of a kernel (vnodes, lookup counts, name cache, locks) driving the real server with concurrent system calls, with a model of the files compared with every answer and, repeatedly, with everything; bfffs's own check; termination by virtual time",
     "The FUSE protocol's transport and the kernel are stand-ins; interleavings are those of one executor thread. Known finding: a file that another one is renamed over is lost to those who have it open (the repository's tests demand it).",
     state=[("files", "model of files, names, attributes and contents", C + "fs.rs"), ("vnodes", "lookup counts of the kernel and the server", "bfffs/src/bin/bfffsd/fs.rs")])

prop("C28", "No stray memory is read, written or stored",
     "Whatever is done to a pool, bfffs only touches memory that it owns at that moment, and nothing it decides and nothing it writes to a disk depends on memory that was never given a value. In particular the buffers of asynchronous I/O outlive it, vectors that are made longer without being filled are filled before anything reads them, and the tables of the native erasure code are as long as it takes them to be.",
     ["histories", "configurations", "schedules"], "all histories and pool layouts that the monitors of C16 to C25 and C29 generate",
     "The tests check results; a stray read or a few bytes of heap content on disk leave results as they are, and what a heap contains differs from run to run.",
     [C + "raid/vdev_raid.rs", C + "vdev_file.rs", C + "vdev_block.rs", C + "raid/codec.rs", C + "dml.rs", C + "util.rs", "bfffs-isa-l/src/lib.rs"],
     [("buffers of asynchronous I/O", C + "vdev_file.rs"), ("reconstruction into unfilled buffers", C + "raid/vdev_raid.rs")],
     "sanitizer: valgrind's memcheck (addressability and definedness of memory) under the monitors' workloads on the whole of bfffs-core and isa-l",
     "Only reports with a frame of bfffs count. Accesses that stay inside one allocation, and memory that has been freed and allocated again, escape memcheck. Erasure coding uses the code paths of the simulated CPU (AVX2 under valgrind).",
     state=[("memory", "which bytes are allocated and have a value", C + "vdev_file.rs")])

prop("C29", "A disk does exactly what is asked of it",
     "Whatever is asked of a disk, in any number and order, with any latencies, and with the kernel refusing operations for lack of resources or failing them: every request is carried out exactly once with its own data and answered once, after it is done, with the disk's own answer; one that was never started never reaches the disk, and nothing else does. Requests are merged only into operations that are exactly their concatenation and that the kernel takes. No more operations are under way than the queue is deep. Writes of a zone reach the disk in order. A sync comes after all writes asked for before it and before all asked for after it. A disk being removed cancels what it has not begun, finishes the rest, and then touches the disk no more.",
     ["histories", "schedules"], "all histories of concurrent reads, writes, syncs, labels, spacemaps and zone operations, latencies, completion orders, refusals (EAGAIN), failures and removals",
     "The tests queue a few operations with a mocked device; the kernel's refusals, callers that give up, hundreds of requests at once and failures of merged operations are sampled once or not at all.",
     [C + "vdev_block.rs", C + "vdev_file.rs", C + "util.rs"], [("the queue of a disk", C + "vdev_block.rs"), ("EAGAIN and repeated polls", C + "vdev_file.rs")],
     "runtime monitor: exactly-once and ordering checker over the recorded log of device operations and of requests; byte comparison; termination by virtual time",
     "The kernel's asynchronous I/O is a stand-in that completes in any order. Interleavings are those of one executor thread.",
     state=[("requests", "asked for, told to the disk, done, answered", C + "vdev_block.rs")])

prop("C30", "The server obeys its own user only, and answers every command",
     "Only the user whom bfffsd runs as can have it create, destroy, set, mount or unmount file systems, clean, fault or attach, or drop caches: anybody else is told EPERM and nothing changes. What that user asks for is done, or refused with the reason, exactly as asked: the properties given, mounted at its mount point, unmounted itself and nothing else, with a failed mount reported and leaving nothing behind. Anybody can look: a list has every file system within its depth exactly once with the right properties however many there are and however long their names, wherever it was interrupted, and a status is that of the pool's disks. Every client gets the answer to its own command, of the kind it asked for, and what it did not ask for never happens; clients who send noise, or leave early, disturb nobody. What the server did is there for the next one.",
     ["histories", "schedules"], "all histories of commands of any clients with any credentials, at the same time or in turn, noise, failing mounts and restarts of the server",
     "The integration tests need FreeBSD, root and a mounted FUSE file system; each gives one command as root to a fresh server. None is refused for its user, none lists more than a few file systems, none is given while another is under way.",
     ["bfffs/src/bin/bfffsd/main.rs", "bfffs/src/lib.rs", C + "rpc.rs", C + "controller.rs"], [("who may do what, and what is done", "bfffs/src/bin/bfffsd/main.rs"), ("the client library", "bfffs/src/lib.rs"), ("mounts and properties", C + "controller.rs")],
     "runtime monitor: the real server and client library over sockets with credentials of the monitor's choosing, against a reference model of file systems, properties and mounts",
     "The socket, the mount table and the user of the process are stand-ins. Commands given at the same time are about different file systems.",
     state=[("commands", "who asked for what, and what was so before", "bfffs/src/bin/bfffsd/main.rs")])

prop("C31", "The command line tool does what its words say, and says how it went",
     "Each command of bfffs(8) asks the server for exactly what its arguments name, in their order and with all of them (file systems, properties, sources, depth, devices by path or UUID, force), however the options are arranged and abbreviated; words that mean nothing ask nothing and change no disk. What it prints is what the server told it: a list and a table of properties have every matching file system and property once, with its value and source and in the order asked for, the machine-readable output exactly and the other in the units of its columns; a status has all the pool's vdevs under each other with their own UUID and health. It ends with success only if all of that was done: a request that is refused, an answer that is garbled, missing, too large or of another kind is reported and the exit status is not zero. A pool that \"pool create\" made is imported under its name with the clusters, RAID levels, mirrors, zones and properties given, and passes its check; \"check\" fails on pools with damaged or lost space.",
     ["histories", "inputs"], "all command lines, all states of the server and all answers of it, including wrong ones",
     "Unit tests parse single command lines; the integration tests, which need FreeBSD and root, run each command once against a server with a few file systems that never fails, and look at one layout of a pool per kind.",
     ["bfffs/src/bin/bfffs/main.rs", "bfffs/src/lib.rs"], [("the commands", "bfffs/src/bin/bfffs/main.rs"), ("the client library", "bfffs/src/lib.rs")],
     "runtime monitor: the real tool run with generated command lines against a scripted server that records what it is asked and may fail, and against disks, judged by a model of what each command means",
     "Tables are laid out by stand-ins for prettytable, tabular and si-scale, of which only the cells are judged. Which of file systems that compare equal comes first is open. Checks of damaged pools are on pools without redundancy.",
     state=[("commands", "the arguments, what the server was asked, what was printed and the exit status", "bfffs/src/bin/bfffs/main.rs")])

prop("C32", "The B+Tree is an ordered map, whoever uses it and whatever is flushed",
     "Every B+Tree is a map from keys to values in the order of its keys, whatever its fanout, the size of its nodes on disk, compression, and what of it is in memory, being written or only on disk: an insertion returns the old value, a lookup, a removal and the last key the stored one, a range read gives exactly the records between its bounds in order, a range deletion removes exactly those. Of any number of clients each operation takes effect at once for each key, in some order that agrees with when they were called and answered; flushes and evictions from the cache change nothing. After every sync the tree written is sound by its own check (fanout limits, order of keys, one level for all leaves, transactions of nodes), holds exactly the records of the tree in memory, and uses exactly the addresses that are on disk: nothing leaks, is freed twice or read after it was freed. Writeback credit is conserved: what was borrowed for an operation is back once nothing is dirty, or the tree is dropped. No operation blocks another for ever, and none panics.",
     ["histories", "schedules"], "all histories of operations of any number of clients, all fanouts and sizes of caches, all moments of flushes, syncs and evictions",
     "Unit tests build small trees by hand and compare them with YAML after a single operation with a mocked DML; the concurrency tests run insertions only. No test has a tree with clients, a flusher and a cache that evicts at the same time.",
     [C + "tree/tree/mod.rs", C + "tree/node.rs", C + "cache/lru.rs"], [("the tree", C + "tree/tree/mod.rs"), ("nodes and their locks", C + "tree/node.rs"), ("the cache below", C + "cache/lru.rs")],
     "runtime monitor: the real tree and cache over a recording store, judged by a reference map (one client) and a per-key linearizability checker over the recorded history (many); conservation of addresses and credit at every sync",
     "The store is in memory and does not fail; its latencies are virtual. Interleavings are those of one executor thread. A range's start does not lie above its end.",
     state=[("the tree", "its records, addresses, nodes in memory and credit", C + "tree/tree/mod.rs")])
