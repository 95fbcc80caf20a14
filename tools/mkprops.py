#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements live in one readable place)."""
import json, os
SL="crates/cfg-noodle/src/storage_list.rs"; SN="crates/cfg-noodle/src/storage_node.rs"
FL="crates/cfg-noodle/src/flash.rs"; WT="crates/cfg-noodle/src/worker_task.rs"; LB="crates/cfg-noodle/src/lib.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Acknowledged configuration survives every later crash, fault and cancellation",
  "Once a write-back to flash has been reported successful, at every later instant (so after a power loss at any point of any later read, write or garbage collection, and whatever storage errors or cancellations happened in between) the flash holds a complete valid record that is that record or a newer one, and a node attached later gets its value from it. Only damage done to the stored bytes from outside can take it away, and then every other intact record survives.",
  ["crash_points","fault_sequences","histories"],
  "every prefix of every history of attach/write/read/write-back/garbage-collect operations, with a crash, storage error or cancellation at every storage step",
  "The tests crash at a handful of points of one or two scripted histories and never combine errors, cancelled operations and reboots; what must hold is a statement about every prefix of every history.",
  [SL],[("scan of all records before anything is overwritten","get_or_populate_latest"),("write new record completely and verify before it counts","process_writes / write_to_flash / verify_list_in_flash"),("garbage collection only pops elements outside the newest good records","process_garbage")],
  [("seq_state.last_records","newest good records known",SL)],["NdlDataStorage::push","NdlElemIterNode::invalidate","return value of process_writes"])
p("C02","A record is an atomic snapshot: never torn, never mixed",
  "What a write-back puts on flash is one start marker, exactly one data element for each attached node that has a value, and one matching end marker whose checksum covers exactly those elements; the values are those the nodes all held at one single instant during the call. A write-back cut short at any point leaves nothing that is later taken for a valid record.",
  ["schedules","crash_points","fault_sequences"],
  "every interleaving of node writes, attaches and detaches with the storage steps of a write-back, and every point at which it can be cut short",
  "Tests run write-backs without concurrent clients and check end results by reloading; a record that mixes two instants or lacks one node is only visible for particular interleavings.",
  [SL,SN],[("list mutex held for the whole write-back","process_writes"),("Start/Data/End framing and CRC","write_to_flash"),("node writes take the same mutex","StorageListNodeHandle::write")],
  [],["sequence of NdlDataStorage::push calls"])
p("C03","Attach yields the newest valid record's value, else the default",
  "When an attach succeeds for the first time after boot or detach, the node's value is the one stored under its key in the valid record with the highest sequence number on flash, if it is there and decodes as the node's type, and otherwise the default; invalid, truncated, undecodable or foreign elements never contribute, wherever they lie (a record whose write-back was reported as failed may count or not). A default is never handed out before a complete and successful look at the flash.",
  ["inputs","histories","fault_sequences"],
  "every content of the flash (valid records in any order, torn records, undecodable elements, wrong checksums, duplicate starts), every set of attached keys, every read failure or cancellation before the successful read",
  "Tests cover a few hand-written flash contents; the claim is over every sequence of elements and every history of failed reads before the one that succeeds.",
  [SL,SN],[("full scan with CRC check","get_or_populate_latest"),("extraction from the newest record only","extract_all"),("default after NonResident","attach_with_default")],
  [],["handle.load() after attach","NdlElemIter::next"])
p("C04","Garbage collection never touches the newest K valid records",
  "For a list that keeps K records, garbage collection never invalidates an element belonging to one of the K newest valid records on flash, at any step, whether it then completes, fails, is cancelled or loses power; a record whose write-back was reported as failed is the only exception. Running it before anything has been read, or twice, removes nothing it should keep.",
  ["histories","crash_points","configurations","fault_sequences"],
  "every K, every flash content left by any history, every step of the collection and every interruption of it",
  "Tests use K=3 and flash contents produced by straight-line runs; positions cached across failed and interrupted operations are what goes wrong.",
  [SL],[("ranges of the good records","SeqState::insert_good, GoodWriteRecord.range"),("pop only outside ranges","process_garbage")],
  [],["NdlElemIterNode::invalidate"])
p("C05","Successful garbage collection leaves exactly the newest K records",
  "After a read has succeeded, a due garbage collection that reports success leaves on the flash exactly the elements of the newest K valid records (all of them if there are fewer) and nothing else: no older record, no torn or undecodable element, no debris of an earlier failed write-back.",
  ["histories","inputs","configurations"],
  "every flash content and every history of failed or interrupted write-backs before the collection, every K",
  "Tests check the number of elements after regular runs; leftovers depend on which kind of debris lies where, and on what failed before.",
  [SL],[("pop everything not in a good range","process_garbage"),("needs_gc bookkeeping","SeqState.needs_gc")],
  [],["flash content after process_garbage returns Ok"])
p("C06","Every new record outranks all valid records already on flash",
  "The sequence number given to a new record is strictly greater than that of every valid record on flash at that moment, in every history, including after reboots, failed or cancelled write-backs and collections, damaged records and manual cache resets. No two valid records written by the system are on flash with the same number at the same time.",
  ["histories","crash_points","fault_sequences"],
  "every history, including those where the newest record was damaged, where records lie out of order on flash and where numbers are large",
  "Tests only look at sequence numbers of a few straight-line runs starting at 1.",
  [SL],[("next_seq = newest + 1, recomputed by the scan","SeqState::insert_good, get_or_populate_latest")],
  [("seq_state.next_seq","number for the next record",SL)],["seq_no of pushed Start elements"])
p("C07","Successful write-back persists every pending value; failure loses none",
  "When a write-back reports success, every value written to a node (or defaulted) before the call is in the newest valid record on flash, and if flash held no valid record one has been written. When it fails or is cancelled every such value remains pending, so that the next successful write-back persists it; a value written while a write-back runs is either in that record or still pending.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of node writes with write-backs, and every sequence of failing, cancelled and successful write-backs",
  "Tests wait for one write-back with nothing running beside it; losing the pending mark needs a write or a failure at a particular step.",
  [SL,SN],[("NeedsWrite -> ValidNoWriteNeeded only after verification, under the mutex","process_writes"),("needs_writing","storage_list.rs"),("read-back verification","verify_list_in_flash")],
  [("NodeHeader.state","pending or not",SN)],["return value of process_writes vs. flash content"])
p("C08","Flash is never modified without need",
  "A write-back with nothing pending and a valid record on flash modifies nothing; reading and resetting the cache never modify flash; a write-back only appends and never invalidates; a collection only invalidates and never appends, and one that is not due touches nothing. An operation that is refused modifies nothing.",
  ["histories","schedules"],
  "every history; each operation in every state it can be called in",
  "Flash wear is invisible to tests that compare final values; they count elements in a few runs only.",
  [SL],[("needs_writing","process_writes"),("needs_gc early return","process_garbage")],
  [],["NdlDataStorage::push","NdlElemIterNode::invalidate"])
p("C09","Write-back is refused until the flash was read and collected",
  "A write-back while the flash has not been scanned completely since boot or cache reset, or while some attached node has not been looked up on flash yet, is refused as needing a read first; one after the first read of a non-empty flash or after an earlier write-back, with no successful collection since, is refused as needing garbage collection. A refusal changes neither flash nor any node, and these refusals occur in no other situation.",
  ["histories","schedules"],
  "every order of operations, including attaches arriving between and during them, and failed or cancelled reads and collections",
  "Tests assert each refusal once in a fixed order; a wrong precondition lets a record be written that silently drops a stored key or overfills the flash.",
  [SL],[("NeedsFirstRead / NeedsGarbageCollect checks","process_writes, needs_writing")],
  [("seq_state.next_seq / needs_gc","scanned and collection-due flags",SL)],["result of process_writes"])
p("C10","No lost wake-up: waiting attaches complete, signals always arrive",
  "Every attach that was waiting when a read begins has completed once that read has succeeded, however many attaches wait and however polls interleave. Every attach that has to wait is signalled through the needs-read notification and every completed node write through the needs-write notification, even if nobody was listening at that moment.",
  ["schedules"],
  "every interleaving of attaches, node writes, reads and listeners, including listeners that start late and attaches that arrive during a read",
  "A lost wake-up shows up only under particular poll orders; the tests' executors use one order and time out rarely.",
  [SL,SN],[("reading_done.wake_all / needs_read.wake / needs_write.wake","process_reads, attach_with_default, write"),("wait_for_value re-check","attach_with_default")],
  [],["completion of attach futures","needs_read()/needs_write() completion"])
p("C11","A handle always reads its own last write, undisturbed by flash activity",
  "A value read through a handle is the value of that node's last completed write, or its initial value if there was none: no read, write-back, collection, cache reset, failure, cancellation, re-attach or activity of another node ever changes it. A node write that was abandoned midway took effect either fully or not at all.",
  ["schedules","histories"],
  "every interleaving of loads with operations in flight, with handles dropped and re-attached and other nodes being hydrated",
  "Tests load right after writing; re-hydration over a live value needs another attach or read at the right moment.",
  [SN,SL],[("hydration only in Initial state","extract_all"),("write under mutex","StorageListNodeHandle::write")],
  [],["StorageListNodeHandle::load"])
p("C12","One handle per node, one node per key, one list per node",
  "At any time a node has at most one live handle, belongs to at most one list, and no list contains two nodes with the same key; an attach that would break this is rejected with the error naming the reason and changes nothing, and one that would not is never rejected. Detach is refused exactly while a handle is live or the node belongs to another list.",
  ["schedules","histories"],
  "every sequence and interleaving of attach, detach, handle drop and cancelled attach on several nodes, keys and lists",
  "Tests try each error once on fresh nodes; what must hold is over all sequences, e.g. after a rejected attach, across lists, and with attaches still waiting.",
  [SN],[("taken_for_list compare/exchange under list mutex","attach_with_default, detach, Drop for StorageListNodeHandle")],
  [("taken_for_list","list pointer plus handle-live bit",SN)],["results of attach and detach"])
p("C13","Detach forgets exactly that node; each stored value is dropped exactly once",
  "A detached node takes no part in later reads, write-backs and collections, and when attached again it starts over from flash or its default; detaching one node never affects another. Every value a node ever held is dropped exactly once: when overwritten or when the node is detached, never while it can still be read.",
  ["histories","schedules"],
  "every sequence of attach, write, handle drop, re-attach, detach and operations over several nodes",
  "Tests detach a node once and do not count drops.",
  [SN,SL],[("list removal, assume_init_drop and state reset","detach"),("replacement of the old value","write")],
  [],["later records and loads","live-instance count of the value type"])
p("C14","Abandoning any call midway leaves everything usable",
  "Dropping the future of an attach, detach, node write, read, write-back or collection at any point where it can be suspended leaves the list, all nodes and the flash usable: the node can be attached again and detached, no later call is rejected or blocked because of the abandoned one, and no value changes other than the one being written.",
  ["schedules","crash_points"],
  "every suspension point of every asynchronous call, in every state, followed by every continuation",
  "The tests never drop a future midway and then continue with the same list.",
  [SN,SL],[("handle-live bit released when the attach is dropped","attach_with_default"),("seq_state taken for the duration of the collection","process_garbage"),("async mutex guards","storage_list.rs")],
  [],["results of calls after a cancellation"])
p("C15","Operations fail only for a cause, and recover when it is gone",
  "A read, write-back or collection reports failure only if during that call the storage returned an error or altered data, or the call was refused for its documented precondition or an oversized value; it reports success only if it did its job. After any history of transient storage errors, cancellations and crashes, a fault-free read, collection and write-back in that order all succeed and persist all values; no operation ever panics or hangs.",
  ["fault_sequences","histories"],
  "every placement of transient faults (errors with or without effect, silently altered elements, cancellations, crashes) in every history, followed by fault-free operation",
  "Tests inject one read failure at the very beginning; getting stuck needs debris of one failed step to meet a later one.",
  [SL],[("needs_gc after an incomplete write-back","process_writes"),("scan results committed only when complete","get_or_populate_latest"),("rescan after collection","process_garbage")],
  [],["results of process_reads/process_writes/process_garbage"])
p("C16","On-flash element format is stable and decoded faithfully",
  "On a real flash every element is stored byte for byte in the documented format (tag, little-endian sequence number, CBOR key and value, CRC-32/CKSUM over the data elements) and every such stored item is read back as the same element, in order; any other stored item is presented as undecodable, never as an element and never as an error. The size predicate accepts a key and value exactly if they can be stored and read back, and reported lengths equal the space occupied.",
  ["inputs","configurations"],
  "all sequence numbers, checksums, keys, values and raw items, all flash geometries",
  "Tests round-trip a few elements; compatibility with flash written by other versions depends on the exact bytes for all inputs.",
  [FL,LB],[("push encoding","Flash::push"),("HalfElem::from_bytes","flash.rs"),("MAX_ELEM_SIZE / check_node_size","flash.rs, lib.rs"),("Crc32","lib.rs")],
  [],["raw queue items on the flash","elements yielded by FlashIter"])
p("C17","Power loss at any flash word leaves all other elements intact",
  "If power fails in the middle of any flash write or erase issued through the flash backend, then after reboot the backend yields exactly the elements that were there before, in order, except that the one being appended or invalidated may be present or absent; reading and appending work again. The same holds when the flash is full: a failed append removes nothing.",
  ["crash_points","inputs","configurations"],
  "every word of every flash write and erase during read, write-back and collection, on several geometries, and every fill level",
  "Tests on the real backend never cut power inside an operation, and none runs the flash full.",
  [FL],[("append without overwriting old data","Flash::push"),("pop via multiwrite","FlashNode::invalidate")],
  [],["raw flash contents before and after"])
p("C18","Storage use stays bounded: regular operation never fills the flash",
  "With a flash large enough for the kept records, the one being written and the reclaim slack, any number of write-back and collection cycles, with crashes, reboots, failures and cancellations in between, never ends in an out-of-space error as long as the remains of interrupted write-backs between two successful ones fit as well; space of collected elements is actually reclaimed.",
  ["histories","crash_points","configurations"],
  "unbounded histories of write-back/collection cycles with interruptions, over flash geometries and K",
  "Tests run some hundred clean cycles on a big flash; a leak per failure or reboot needs many interrupted cycles on a small one.",
  [SL,FL],[("collection forced after first read and every write-back","SeqState.needs_gc"),("page erase when all items are popped","FlashNode::invalidate")],
  [],["errors of NdlDataStorage::push"])
p("C19","The default worker eventually serves every attach and persists every write",
  "While the default worker runs on working storage, every attach is eventually completed and every completed node write is eventually part of the newest valid record on flash, whatever the relative timing of attaches, writes, reads, write-backs and collections; old records are collected eventually. A storage error never ends the worker, and later requests are served once storage works again.",
  ["schedules","fault_sequences"],
  "every timing of attaches and writes relative to the worker's debounce intervals and running operations, and every transient storage fault",
  "Tests have real-time delays and exercise one or two timings; a signal consumed by an abandoned debounce is lost only for particular timings.",
  [WT],[("select over read/write/gc signals with debounce","default_worker_task")],
  [],["attach completion and flash content over virtual time"])
p("C20","Stopping the default worker flushes what is pending and returns",
  "When the stop condition of the default worker completes, at whatever moment and whatever the worker was doing, the worker returns after finitely many storage operations, and if storage works every node write completed before the stop is in the newest valid record on flash.",
  ["schedules","crash_points"],
  "every instant at which the stop can arrive: idle, debouncing, in the middle of a read, write-back or collection, with attaches waiting",
  "Tests stop an idle worker; the flush is only lost if the stop hits a particular step.",
  [WT],[("final process_writes / process_garbage sequence","default_worker_task")],
  [],["flash content when the worker future completes"])
p("C21","The default worker debounces: reads 100 ms, writes 10 s, first collection 120 s",
  "Unless stopped, the default worker starts no write-back until 10 seconds have passed without a completed node write, so that a burst is written as one record, starts no read until 100 ms have passed without a new attach, and collects garbage no earlier than 120 seconds after a read unless around a write-back. Without new requests it leaves the flash alone.",
  ["schedules"],
  "every timing of attaches and writes on storage whose operations take negligible time",
  "Tests wait in real time for single events; burst patterns around the debounce boundary are not sampled.",
  [WT],[("debounce loops and delays","default_worker_task")],
  [],["times of storage accesses over virtual time"])
p("C22","The no-op worker hands out defaults and never touches or blocks anything",
  "With the no-op worker every attach completes with the node's default, for any number and order of nodes, attaches, detaches and re-attaches; writes stay in memory and are read back; nothing is ever persisted, no operation fails, and the worker never ends or panics.",
  ["schedules","histories"],
  "every sequence and interleaving of attach, write, load, drop, detach and re-attach under the no-op worker",
  "One test with one node.",
  [WT,FL],[("no_op_worker_task","worker_task.rs"),("AlwaysEmptyFlash","flash.rs")],
  [],["attach results and loads"])
p("C23","A cache reset forgets only cached flash positions",
  "After a manual cache reset no value, handle or pending mark of any node is changed, write-back is refused until the next successful read, and read, collection and write-back then work against whatever is on flash by then, even if it was wiped or replaced: after a wipe the next write-back stores the values of all nodes although none was modified. Nothing remembered from before the reset influences which elements are kept, removed or numbered.",
  ["histories","inputs"],
  "every state in which the reset can be called and every replacement of the flash contents around it",
  "One test resets once after wiping; stale positions matter only for particular replaced contents.",
  [SL],[("reset_cache","storage_list.rs"),("needs_writing without record on disk","storage_list.rs")],
  [],["flash content and results after reset"])
p("C24","Reported byte counts equal the storage traffic actually caused",
  "The counters returned by successful reads, write-backs and collections equal the sum of the lengths of the elements that call actually read from, appended to, or invalidated on the storage; the count of current data is the size of the newest record's data elements, and an operation that did nothing reports zero.",
  ["histories","inputs"],
  "every operation in every state of the flash and list",
  "Tests never look at the counters' values across histories.",
  [SL],[("ProcessReadCounters/ProcessWriteCounters/ProcessGarbageCounters","storage_list.rs")],
  [],["Ok values of process_reads/process_writes/process_garbage vs. storage calls"])
p("C25","A changed type reads what it can of a stored value, else its default",
  "The bytes stored under a key reach a node of whatever type exactly as they were stored, and the node's value is what that type's decoder makes of them: after added optional or defaulted fields and after removed fields the stored fields are kept; if the type cannot decode them the node gets its default. Either way no other node, no record and no later read, write-back or collection is affected, the stored value stays as it is until the next write-back that is needed, and that one stores the node's value in its own encoding.",
  ["inputs","histories"],
  "every stored value and every type it is read with, over every history of attaches, detaches and reboots that change the types under the same keys",
  "The documentation example and one test walk through one chain of types; what a stored value turns into depends on the bytes, on the type and on which other nodes are looked up in the same pass.",
  ["crates/cfg-noodle/src/data_portability.rs",SN,SL,LB],[("decode the value under the key, default if that fails","deserialize in storage_node.rs, extract_all"),("split of key and value bytes","SerData::kv_pair"),("encoding of the node's own value","serialize in storage_node.rs")],
  [],["attach results and loads of nodes with other types","NdlDataStorage::push"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
