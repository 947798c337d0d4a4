#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so the file is easy to edit; no check runs it.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(obs),"hook_needed":None}})

MAP="xsync/map.go"
p("P01","Concurrent Map is linearizable and free of data races",
 "Load, Store, LoadOrStore, LoadAndDelete, Delete and Clear of one concurrent Map behave, for every interleaving, as if each took effect at one instant between its call and its return on a plain map; no stored value is lost, resurrected or torn. None of these calls races on memory with any other call on the same map, panics or blocks forever.",
 ["schedules","histories"],"every interleaving of 2-3 goroutines running the map operations on colliding keys, from every internal layout reachable by a short setup history",
 "The tests run each operation sequentially or throw goroutines at the map; they reach a handful of schedules and the read/dirty/expunged transitions only in one order.",
 [MAP],[("read/dirty promotion, expunge protocol","xsync/map.go missLocked, dirtyLocked, tryExpungeLocked, unexpungeLocked"),("CAS loops on entry.p","xsync/map.go tryStore, tryLoadOrStore, delete"),("reset under the mutex","xsync/map.go Clear")],
 [("Map.read","lock-free snapshot","xsync/map.go"),("Map.dirty","keys not yet promoted","xsync/map.go"),("entry.p","value pointer, nil or expunged","xsync/map.go")],["return values of the map operations"])
p("P02","ComputeIfAbsent and ComputeIfPresent update a key atomically",
 "ComputeIfPresent replaces the value of a present key by the function's result for exactly the value it replaces, so concurrent read-modify-write updates are never lost, and does nothing on an absent key; ComputeIfAbsent stores the function's result only if the key is absent and otherwise returns the value present. A function that panics changes nothing and leaves the map usable by every goroutine. This holds against every concurrent operation on the same map, for Map and for the sharded map.",
 ["schedules","histories"],"every interleaving of the compute operations, panicking functions included, with each other and with Store, LoadOrStore, Delete and Clear on the same key, from every short setup history",
 "The tests call the compute operations from one goroutine; the compare-and-swap retry path never runs.",
 [MAP,"xsync/shared_map.go"],[("CAS of the value the function was applied to","xsync/map.go tryComputeIfPresent"),("CAS from nil","xsync/map.go tryComputeIfAbsent")],
 [("entry.p","value pointer the computation started from","xsync/map.go")],["return values and the final map contents"])
p("P03","Map.Range visits each key once and misses no stable key",
 "A Range over the concurrent map never calls the function twice for one key, calls it for every key that was present before the call began and is neither deleted nor cleared before the call ends, and only with values that key held at some moment of the call; it stops as soon as the function returns false. This holds while other goroutines store, delete and clear.",
 ["schedules","histories"],"every interleaving of one Range with concurrent writers, every map iteration order, from every short setup history",
 "The tests range over a quiet map or assert under random schedules; iteration order and promotion races are not enumerated.",
 [MAP,"xsync/shared_map.go"],[("promotion of the dirty map before iterating","xsync/map.go Range"),("per-entry load during iteration","xsync/map.go Range")],
 [("Map.read","snapshot iterated","xsync/map.go")],["the sequence of callback calls"])
p("P04","SharedMap is one map for every shard count and key set",
 "For every accepted shard count and any string keys, SharedMap answers every sequence of Store, MStore, LoadOrStore, Load, Has, Delete, Clear, Range and compute calls exactly as a single map would, and per-key operations stay linearizable under concurrency. A shard count below one is refused when the map is constructed, never later.",
 ["configurations","histories","schedules"],"shard counts around every power of two up to a bound and non-positive ones, all operation sequences up to a depth over keys that share and do not share a shard, and interleavings of two goroutines",
 "The tests use a few shard counts and one sequence; which keys collide depends on the hash and the mask.",
 ["xsync/shared_map.go"],[("power-of-two rounding and mask","xsync/shared_map.go getShardBlockSize, GetShard"),("shard fan-out","xsync/shared_map.go Range, Clear, MStore")],
 [("SharedMap.n","shard mask","xsync/shared_map.go")],["return values of the SharedMap operations"])
p("P05","Spinlock gives mutual exclusion and progress",
 "At most one goroutine is between a successful Lock or TryLock and its Unlock, writes made while holding the lock are visible to the next holder, TryLock never blocks and fails only while the lock is held, and whenever the holder unlocks some waiting Lock returns.",
 ["schedules"],"every interleaving of 2-3 goroutines locking, trying and unlocking, including the back-off loop",
 "The tests count under contention; a lost exclusion needs a particular interleaving and a lost wake-up shows only as a rare hang.",
 ["xsync/spinlock.go"],[("compare-and-swap acquire, store release","xsync/spinlock.go TryLock, Unlock"),("exponential back-off loop","xsync/spinlock.go Lock")],
 [("Spinlock.lock","0 free, 1 held","xsync/spinlock.go")],["who is inside the critical section; plain memory guarded by it"])
RM="xsync/resourcemanager.go"
p("P06","ResourceManager creates each resource once and shares it",
 "However many goroutines Get the same key, at most one create call runs for that key at a time, every Get returns a resource that was registered under that key at some moment during the call or the error of a create call made by an overlapping Get, and create is not called while a resource is registered under the key. A failed create registers nothing, and distinct keys never receive each other's resource.",
 ["schedules","fault_sequences"],"every interleaving of 2-3 Get and Remove calls on one or two keys with create succeeding or failing in each possible way",
 "The tests call Get sequentially or with identical results; the windows inside the duplicate-suppression path are never hit on purpose.",
 [RM],[("duplicate suppression per key","xsync/resourcemanager.go Get"),("locked registry","xsync/resourcemanager.go Get, Remove")],
 [("ResourceManager.resources","registered resources","xsync/resourcemanager.go")],["Get results, number and overlap of create calls"])
p("P07","ResourceManager Close and Remove account for every resource",
 "Close closes every resource registered and not removed exactly once and reports exactly the errors those closes returned; Remove unregisters the resource without closing it and reports whether this call removed it, so of concurrent Removes of one registered resource exactly one reports true. A Get that starts after Remove returned never receives the removed resource.",
 ["schedules","histories","fault_sequences"],"every short sequence and interleaving of Get, Remove and a final Close with each resource's Close succeeding or failing",
 "The tests close one or two resources after a fixed sequence.",
 [RM,"xerror/err.go"],[("registry swap under the write lock","xsync/resourcemanager.go Close, Remove"),("error aggregation","xsync/resourcemanager.go Close")],
 [("ResourceManager.resources","registered resources","xsync/resourcemanager.go")],["close counts per resource, returned errors"])
p("P08","Ring returns the last n added values in order, atomically",
 "Take on a Ring of size n returns the most recent min(n, number added) values in the order they were added, in a slice the caller owns, without changing the ring; concurrent Add and Take behave as if each took effect at one instant, with no data race. A size below one is refused at construction.",
 ["schedules","histories","configurations"],"every interleaving of 2-3 goroutines adding and taking; every ring size and number of additions up to a bound including several wrap-arounds",
 "The tests use one size and a few additions; a concurrent test counts elements only.",
 ["xring/xring.go"],[("modular cursor","xring/xring.go Add, Take"),("reader/writer lock","xring/xring.go")],
 [("Ring.index","number of additions","xring/xring.go")],["slices returned by Take"])
p("P09","A byte buffer from the pool has one owner and the right shape",
 "Malloc(size, capacity) returns a slice of length size and capacity max(size, capacity), and no two live slices ever share memory: until its owner frees it, nothing written through another slice from the pool is visible in it. This holds for every history of Malloc, MallocSize and Free from any goroutines, including slices freed that were made elsewhere or resliced.",
 ["schedules","histories","inputs"],"every sequence of allocations and frees up to a depth over sizes around each other, every choice the pool can make, and interleavings of 2-3 goroutines",
 "The tests allocate once per size; whether the pool returns a recycled slice is up to the runtime.",
 ["xbytes/pool.go"],[("one pool per capacity, created once","xbytes/pool.go getOrCreatePool"),("reslice on hand-out and on recycle","xbytes/pool.go Malloc, Free")],
 [("bytesPoolMap","capacity to pool","xbytes/pool.go")],["len, cap and memory of returned slices"])
p("P10","Recycled buffered readers and writers carry nothing over",
 "A reader or writer obtained from the pool works only on the stream given to that call: it delivers exactly that stream's bytes and errors, or writes exactly the bytes given to it, with nothing buffered, no error and no stream left over from an earlier user, and no live object is handed out twice. An object requested with a size has a buffer of at least that size.",
 ["histories","schedules","fault_sequences","inputs"],"every get/use/put history up to a depth with every recycling choice of the pool, previous users leaving unread bytes, unflushed bytes or a sticky error, and every pair of sizes",
 "The tests get, use and put one object; recycling is not controlled.",
 ["xio/buffer.go"],[("reset on hand-out and on recycle","xio/buffer.go GetBuffer*, PutBuffer*")],
 [("bufReaderPool, bufWriterPool","recycled objects","xio/buffer.go")],["bytes seen by the streams, Size of the returned objects"])
p("P11","Write-once cells accept exactly one write, of any value",
 "Of all Write calls on one cell exactly the first to take effect reports success and every other reports failure without panicking or blocking, whatever the values; a reader sees nothing before and only the winning value after, and never a different value later. The channel form delivers the winning value exactly once and is then closed.",
 ["schedules","inputs"],"every interleaving of 2-3 writers and readers with values of equal and different types including nil",
 "The tests write two values of one type in sequence.",
 ["xonce/value.go","xonce/chan.go"],[("compare-and-swap from empty","xonce/value.go Write"),("won flag, then send and close","xonce/chan.go Write")],
 [("Chan.wrote","won flag","xonce/chan.go")],["Write results, Value, the channel"])
p("P12","Barriers stop on cancellation and lose no element",
 "A barrier Read or Write whose context is already cancelled reports failure without touching the channel, and one that is blocked when the context is cancelled returns failure instead of staying blocked. A Read that succeeds returned one element taken from the channel (or nil from a closed one) and a failed Read took none; a successful Write delivered its element exactly once and a failed one not at all.",
 ["schedules"],"every interleaving of 1-2 readers or writers with a canceller and a peer on buffered and unbuffered channels",
 "The tests cancel before the call or read from a ready channel; blocking while cancellation arrives is not exercised.",
 ["xbarrier/readbarrier.go","xbarrier/writebarrier.go"],[("context check and channel operation","xbarrier/readbarrier.go Read, xbarrier/writebarrier.go Write")],
 [],["results of Read and Write, elements seen by the peer"])
p("P13","xtask.Do returns one outcome, cleans up once, leaks nothing",
 "Do runs the function at most once and returns its error if it finished, the context's error if the context ended first, or panics in the caller with the function's panic value in the message if the function panicked; with a context already ended the function does not run. The deferred function runs exactly once, before Do returns or panics, on every path, and once the function itself ends no goroutine of Do is left behind. DoWithTimeout and DoWithoutDefer behave likewise.",
 ["schedules","fault_sequences"],"every interleaving of the function (returning, failing, panicking, blocking until released) with cancellation or the deadline at every point",
 "The tests use sleeps, so completion and cancellation never coincide, and nothing checks for goroutines left over.",
 ["xtask/do.go"],[("buffered result and panic channels","xtask/do.go Do"),("deferred clean-up","xtask/do.go Do")],
 [],["return value or panic, counts of do and deferFunc, goroutines still alive"])
p("P14","Retry stops at the first success and reports all failures",
 "DoWithRetry calls the function until it first succeeds and then returns nil, or, with a retry count of n >= 0 (3 by default), after exactly n+1 failed attempts returns an error that is the single failure or contains every failure in order; no attempt is made after a success and none runs concurrently with another. If several options are given the last one counts.",
 ["fault_sequences","configurations"],"every retry count up to a bound and every success/failure pattern of the attempts",
 "The tests try four patterns.",
 ["xtask/retry.go","xerror/err.go"],[("attempt loop","xtask/retry.go DoWithRetry")],[("retryOptions.times","number of retries","xtask/retry.go")],["number of attempts, returned error"])
p("P15","BatchError reports exactly the non-nil errors added, in order",
 "After any sequence of Add calls, Err is nil and NotNil false exactly if every added error was nil; otherwise Err is the very error added if there was one, and if there were several an error whose message lists every message in order separated by newlines. An error obtained from Err does not change when more errors are added later.",
 ["histories","inputs"],"every sequence of Add, Err and NotNil up to a depth with nil, empty, multi-line and repeated errors",
 "The tests add at most two errors once.",
 ["xerror/err.go","xstring/stringjoiner.go"],[("append and snapshot","xerror/err.go Add, Err, Error")],[("BatchError.errs","collected errors","xerror/err.go")],["Err, NotNil, Error"])
p("P16","Worker bounds concurrency and accounts for every run",
 "A Worker of size n never has more than n functions running whose contexts are still live, Run blocks while n are running and proceeds once one ends, and every accepted Run calls its deferred function exactly once, after its function ended or its context was cancelled. A run whose context ended before it began does not run its function, and no capacity is ever lost: afterwards n functions can run again.",
 ["schedules","configurations"],"every interleaving of up to n+2 runs with completion and cancellation, n = 1, 2",
 "The tests start runs and sleep; overlap is not measured and cancellation races are not produced.",
 ["xworker/xworker.go","xtask/do.go"],[("slot channel acquired in Run, released after deferFunc","xworker/xworker.go Run")],[("Worker.c","slots in use","xworker/xworker.go")],["overlap of running functions, counts of run and deferFunc"])
p("P17","MapReduce output is exactly what the map calls wrote",
 "With a live context, Map calls the map function exactly once for every generated element, with at most the configured number of calls at a time, and the output channel delivers every value the calls wrote exactly once and is closed only after the last of them; MapStream delivers the same. Nothing is left running once the output is drained.",
 ["schedules","configurations"],"every interleaving (up to a preemption bound) of generator, workers and consumer for 0-4 elements, 0-2 writes each, worker sizes 1-3, and fixed schedules for sizes up to the largest",
 "The tests run one pipeline under whatever schedule happens; early closing or a dropped value needs a particular one.",
 ["xmapreduce/xmapreduce.go","xworker/xworker.go","xbarrier/writebarrier.go"],[("wait for all workers, then close","xmapreduce/xmapreduce.go doMap"),("worker slots","xworker/xworker.go Run")],[],["values received and closing of the output, calls of the map function"])
p("P18","MapReduce cancellation closes the output and breaks nothing",
 "Whenever the context is cancelled and the running map calls end or use the writer, the output channel is closed even if nobody reads it, no map call starts after a cancellation that preceded the whole call, every value received was written once by a map call, and a map call still running sees its writes fail instead of panicking or blocking forever. No cancellation crashes the process.",
 ["schedules","fault_sequences"],"every interleaving (up to a preemption bound) of cancellation with generator, workers and consumer, with consumers that stop reading",
 "The tests cancel after a sleep; a write in flight while the output is being closed is never hit on purpose.",
 ["xmapreduce/xmapreduce.go","xbarrier/writebarrier.go","xtask/do.go"],[("cancellation checks, closing the collector","xmapreduce/xmapreduce.go doMap"),("writer that honours cancellation","xbarrier/writebarrier.go Write")],[],["output channel, writer results, panics in map calls"])
XS="xstream/xstream.go"
p("P19","Sequential stream pipelines equal the list functions, in order",
 "Of, From, Range, Buffer, Peek, Skip, Limit, Tail, Distinct, Filter, Walk, Map and FlatMap with a work size of at most one, composed in any order and ended by Chan, Foreach, ForeachOrdered, Count, FindFirst, FindLast or Collection, produce exactly the elements the corresponding list functions produce, in that order, and then close. Every callback runs exactly once per element it should see, and the result is the same for every schedule.",
 ["schedules","inputs","programs"],"every pipeline of up to two stages over short inputs with duplicates, every parameter around the boundaries, and every interleaving up to a bound",
 "The tests run each operator once on one input under one schedule.",
 [XS,"xstream/ring.go"],[("one goroutine per stage, channel hand-over","xstream/xstream.go")],[("Stream.source","upstream channel","xstream/xstream.go")],["elements received downstream, callback calls"])
p("P20","Parallel stream stages process every element exactly once",
 "With any work size n, Filter, Walk, Map, FlatMap and ParallelFinish apply the callback exactly once to every upstream element with at most n callbacks running at once, deliver exactly the multiset of values the callbacks sent, and close the output or return only after every callback has ended. A callback that panics loses only what it had not yet sent: the others complete and the stage still closes.",
 ["schedules","configurations","fault_sequences"],"every interleaving (up to a bound) for 0-4 elements, work sizes from non-positive to 3 and larger than memory, callbacks sending 0-2 values, panicking ones included",
 "The tests check totals under one schedule; early close, lost slot and overlap need particular ones.",
 [XS,"xstream/option.go"],[("slot channel and wait group before close","xstream/xstream.go Walk"),("default work size","xstream/option.go loadOptions")],[],["values received, callback counts and overlap, closing"])
p("P21","Concat and Copy deliver every element of every stream",
 "Concat delivers every element of all its streams exactly once, keeps the relative order of each stream's elements, and closes only after all of them ended. Copy gives every named copy exactly the elements of the source in order and closes it, with the requested buffer size, when all copies are consumed concurrently.",
 ["schedules","configurations"],"every interleaving (up to a bound) for 1-3 streams or copies of 0-3 elements with buffer sizes 0-2",
 "The tests compare one run.",
 [XS],[("wait group over the forwarding goroutines","xstream/xstream.go Concat"),("fan-out loop","xstream/xstream.go Copy")],[],["elements received, order, closing"])
p("P22","Ending a stream early is correct and strands no producer",
 "AnyMach, AllMach, FindFirst, Limit, Tail(0), Limit(0) and the operators that reject their argument after starting to drain return the documented answer for every upstream, and every goroutine feeding the finite stream, however many stages up, runs to its end instead of staying blocked. AnyMach, AllMach and FindFirst evaluate no element after the deciding one.",
 ["schedules","inputs"],"every interleaving (up to a bound) of short pipelines ended early at every position",
 "The tests check the answer only; a stranded goroutine is invisible to them.",
 [XS],[("background drain after the answer","xstream/xstream.go AnyMach, AllMach, FindFirst, Tail, Limit")],[],["answers, goroutines still blocked at the end"])
p("P23","Group, Sort, Reverse, Merge and Split rearrange without loss",
 "Group and GroupBy partition the elements by key, keeping arrival order inside each group; Sort delivers an ordered permutation, Reverse the reversed sequence, Merge one slice of all elements in order, Split and SplitSteam consecutive chunks of n elements with a shorter last one and no empty one. None drops, duplicates, aliases or mixes elements, for any input, and every resulting stream closes.",
 ["inputs","schedules","configurations"],"all inputs up to a length over a small alphabet, all chunk sizes around it, every map iteration order, and interleavings with a consumer of nested streams",
 "The tests use one input each.",
 [XS,"xstream/collection.go"],[("collect then emit","xstream/xstream.go Group, Sort, Reverse, Merge, Split, SplitSteam"),("group collector","xstream/collection.go")],[],["elements and slices received"])
XB="xbinary/xbinary.go"
p("P24","The binary codec reads back what it wrote, however chunked",
 "Every sequence of booleans, 16 and 32 bit integers and byte strings of up to 65535 bytes written by the Write functions is read back unchanged by the corresponding Read functions, from any reader that obeys the io.Reader contract, however it splits the bytes, mixes in empty reads or combines data with EOF; each read consumes exactly the bytes of its value. The format is big-endian with a 16-bit length before byte strings, and a byte string returned earlier never changes later.",
 ["inputs","fault_sequences","histories","schedules"],"boundary values of every type, all short sequences, and every split of the byte stream (one-byte, empty and data-with-EOF reads included)",
 "The tests use bytes.Buffer, which always returns everything at once.",
 [XB,"xbytes/pool.go"],[("fixed-size reads into pooled buffers","xbinary/xbinary.go Read*"),("length prefix","xbinary/xbinary.go WriteBytes, ReadBytes")],[],["decoded values and bytes consumed"])
p("P25","The binary codec never turns a fault into a value",
 "If the stream ends or fails before a value is complete, the Read function returns an error and a zero value, never a wrong value: the reader's own error when it failed, io.EOF only if no byte of the value was there. A Write function reports every error of the writer and writes nothing after it, a byte string longer than 65535 is refused with nothing written, and after any fault the codec and its buffers keep working for others.",
 ["fault_sequences","inputs"],"truncation and an injected error at every byte of every short message, at every split; write errors at every call; lengths around 65535",
 "The tests truncate in a couple of places.",
 [XB,"xbytes/pool.go"],[("error and length checks","xbinary/xbinary.go")],[],["errors and values returned"])
ST="xstring/xstring.go"
p("P26","Substring, pad, rotate, reverse and removal work on characters",
 "For every valid UTF-8 string, Sub, Left, Right, Len, the Pad, Repeat, Rotate, Reverse, RemoveChar, RemoveString, DeleteWhitespace and Trim functions return what their definition on the sequence of characters gives, with negative and out-of-range indexes counted from the end or clamped instead of panicking. Reverse reports an error exactly for invalid UTF-8, and Shuffle returns a permutation of the characters.",
 ["inputs"],"all strings up to a length over an alphabet of 1-, 2-, 3- and 4-byte characters, U+FFFD, combining marks and whitespace, all index arguments around the length, every random choice",
 "The tests use a few mostly ASCII examples.",
 [ST,"internal/hack/xstring.go"],[("rune-wise slicing","xstring/xstring.go sub, Rotate, Reverse, DeleteWhitespace")],[],["returned strings"])
p("P27","Search, comparison and classification agree with definitions",
 "For every valid UTF-8 input, the contains, index, prefix/suffix, equals and ignore-case functions and the IsX and default functions answer exactly as their definition on characters: two strings are equal ignoring case only if they have the same number of characters and each pair matches under case mapping, region matching never panics for any offsets, and IsNumerical accepts only digits with at most one decimal point.",
 ["inputs"],"all pairs of strings up to a length over an alphabet with case pairs, special case mappings, digits, points and whitespace, and all offset and length arguments around the bounds",
 "The tests use a few examples of equal length.",
 [ST],[("rune comparison","xstring/xstring.go RegionMatches, EndsWith, EqualsIgnoreCase, ContainsIgnoreCase"),("character classes","xstring/xstring.go Is*")],[],["returned booleans and indexes"])
p("P28","Difference and common-prefix functions are exact",
 "For any valid UTF-8 strings, CommonPrefix returns their longest common character prefix, IndexOfDifference its length in characters or -1 when they are all equal or there are fewer than two, the two-string form agrees with it, and Difference returns what follows that prefix in the second string.",
 ["inputs"],"all tuples of up to three strings up to a length over an alphabet of single- and multi-byte characters",
 "The tests use a few examples.",
 [ST,"xmath/xmath.go"],[("position-wise comparison","xstring/xstring.go IndexOfDifference, IndexOfDifferenceWithTwoStr, Difference, CommonPrefix")],[],["returned strings and indexes"])
p("P29","Abbreviate keeps within the width and keeps the right text",
 "Abbreviate returns the string unchanged if it fits, and otherwise a result of at most maxWidth characters that is one contiguous piece of the string with the marker at each cut end, containing the character at the offset when that lies in the string; a width too small for the marker is an error, never a wrong or longer result. No arguments with a non-negative offset make it panic.",
 ["inputs"],"all strings lengths, marker lengths, offsets and widths up to a bound, with distinct multi-byte characters",
 "The tests use a few widths and offsets.",
 [ST],[("offset arithmetic","xstring/xstring.go Abbreviate")],[],["returned string and error"])
p("P30","Joiner equals prefix, pieces joined by the step, suffix",
 "After any sequence of Write, WriteString, WriteByte, WriteRune, Grow, Reset, Len, Cap and String calls, String is the prefix, the pieces written since the last Reset joined by the step, and the suffix; Len is its length in bytes, Cap is at least Len, and each write reports the size of its piece. Grow and the read-only calls never change the text.",
 ["histories","configurations"],"every call sequence up to a depth with empty, single and multi-byte prefix, step, suffix and pieces",
 "The tests run a few fixed sequences; none mixes Grow or Reset with a non-empty step.",
 ["xstring/stringjoiner.go"],[("step before every piece but the first","xstring/stringjoiner.go tryWriteStep"),("builder reset","xstring/stringjoiner.go Reset, Grow")],[("Joiner.b","text so far","xstring/stringjoiner.go")],["String, Len, Cap, write results"])
p("P31","Min and Max return the exact smaller or larger argument",
 "For every pair of arguments, MaxInt, MinInt, MaxInt64 and MinInt64 return exactly the larger or smaller argument over the whole integer range, and the float versions do the same with math.Max's and math.Min's treatment of NaN, infinities and signed zero.",
 ["inputs"],"all pairs from a set of boundary values: powers of two and their neighbours over the whole range, extremes, special floats",
 "The tests use small numbers, where float64 arithmetic is exact.",
 ["xmath/xmath.go"],[("comparison","xmath/xmath.go")],[],["returned numbers"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
