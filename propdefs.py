#!/usr/bin/env python3
"""The properties, and what is derived from them: properties.jsonl and MANIFEST.json (run this file to rewrite both)."""
import json, os
from registry import CHECKS

H = "include/stxxl/bits/"


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": hook}}
    return d


PROPS = [
    P("P01", "A file gives back what was last written, for every kind of file",
      "For every file implementation and open mode: a read that starts after the completion of a write of the same bytes delivers exactly the bytes "
      "last written, whatever other requests are in flight for other parts; bytes never written inside the size read as zero, and so does the part of "
      "a read beyond the end. The size is what was set or written, nothing outside a request's range or buffer changes, and closing, reopening "
      "(with another implementation), discarding, shrinking or removing the file affects only what it names. A store that keeps its blocks in separate files or "
      "behind a write buffer and address translation gives the same view.",
      ["histories", "inputs", "schedules", "configurations"], "all sequences of overlapping and disjoint synchronous and asynchronous reads, writes, resizes, discards and reopenings over every file implementation and mode",
      "The tests write one pattern to one file with fixed sizes; misplaced, lost or stale data shows only for particular offsets, orders, sizes relative to the end of the file, or buffer states.",
      ["lib/io/syscall_file.cpp", "lib/io/mmap_file.cpp", "lib/io/mem_file.cpp", "lib/io/linuxaio_file.cpp", "lib/io/ufs_file_base.cpp", "lib/io/wbtl_file.cpp", "lib/io/fileperblock_file.cpp", "lib/io/simdisk_file.cpp", "lib/io/create_file.cpp"],
      [("positioned transfer loops", "lib/io/syscall_file.cpp serve(), lib/io/mmap_file.cpp serve(), lib/io/mem_file.cpp serve()"),
       ("logical to physical mapping and free space", "lib/io/wbtl_file.cpp swrite()/sread()/discard()/_add_free_region()"),
       ("one file per block", "lib/io/fileperblock_file.cpp serve()/discard()")],
      [("address_mapping", "where each logical block lies", H + "io/wbtl_file.h")], ["bytes read back", "file contents read independently", "file::size()"]),
    P("P02", "Every request completes exactly once and whoever waits for it continues",
      "Every submitted request is eventually completed, and exactly once: either executed (its data is transferred and its completion handler called "
      "once, before wait() returns) or cancelled (then nothing is transferred and no handler called, and cancel() said so); waiting for one, all or any of a set, "
      "polling and cancelling return as documented, from any number of threads and for every queue type and interleaving. Nothing deadlocks, "
      "references are given back, and the synchronisation primitives underneath (semaphore, state, on/off switch) keep their contracts under any schedule including "
      "spurious wakeups.",
      ["schedules", "histories", "configurations"], "all interleavings of submitting, waiting, polling and cancelling threads with the queue threads, over all queue types",
      "The tests submit a few requests from one thread; lost wakeups, double completion and deadlocks need particular interleavings.",
      ["lib/io/request_with_state.cpp", "lib/io/request_with_waiters.cpp", "lib/io/request_queue_impl_qwqr.cpp", "lib/io/request_queue_impl_1q.cpp", "lib/io/linuxaio_queue.cpp", H + "io/disk_queues.h", H + "io/request_operations.h", H + "common/semaphore.h", H + "common/state.h", H + "common/onoff_switch.h"],
      [("completion and notification", "lib/io/request_with_state.cpp completed()/cancel(), lib/io/request_with_waiters.cpp"),
       ("queue threads", "lib/io/request_queue_impl_qwqr.cpp worker()/cancel_request()"),
       ("wait_any / wait_all / cancel_all", H + "io/request_operations.h")],
      [("m_state", "OP, DONE or READY2DIE", H + "io/request_with_state.h")], ["request::wait/poll/cancel", "completion handlers", "transferred bytes", "reference counts"]),
    P("P03", "A failed or partial transfer is never taken for success",
      "When the operating system transfers only part of a request, the rest is transferred too; when an operation of it fails, the request reports an io_error to "
      "everybody who waits for or polls it, does not hang, and leaves its file and queue usable, and every other request unaffected. No sequence of failures makes a request "
      "succeed without its data having been transferred. Failing to open, lock, resize or allocate reports an error rather than going on.",
      ["faults", "histories", "schedules"], "all placements of errors and short transfers in the system calls under any sequence of requests",
      "The tests never see a failing or short system call.",
      ["lib/io/syscall_file.cpp", "lib/io/mmap_file.cpp", "lib/io/linuxaio_request.cpp", "lib/io/linuxaio_queue.cpp", "lib/io/serving_request.cpp", "lib/io/ufs_file_base.cpp", H + "io/request.h"],
      [("transfer loop and error reports", "lib/io/syscall_file.cpp serve()"), ("errors kept in the request", "lib/io/serving_request.cpp serve(), " + H + "io/request.h error_occured()/check_errors()"),
       ("results of asynchronous operations", "lib/io/linuxaio_request.cpp check_result()/post()")],
      [("m_error", "the error of the request", H + "io/request.h")], ["request::wait/poll", "bytes transferred"]),
    P("P04", "The block manager hands out each place on the disks at most once",
      "Blocks in use never overlap, on any disk, for any mix of block sizes and any order of allocations and releases, also from several threads; a released "
      "place is handed out again only after it was given back (and discarded), and disks grow only when no free place fits. Blocks are "
      "distributed over the disks as the allocation strategy documents, an allocation that cannot be satisfied reports it and takes nothing, and the "
      "counters of total, free, allocated and maximal bytes are exact at every moment. Disks marked for removal vanish with the manager, others keep their files.",
      ["histories", "configurations", "schedules", "faults"], "all sequences of allocations and releases of blocks of different sizes over all disk configurations and strategies, by one or several threads",
      "The tests allocate and release a few blocks in one order; overlapping places need a particular history of merging and splitting free regions or a race.",
      ["lib/mng/block_manager.cpp", "lib/mng/disk_allocator.cpp", H + "mng/block_manager.h", H + "mng/disk_allocator.h", H + "mng/block_alloc.h", "lib/mng/config.cpp"],
      [("first fit over free regions, merging on release", "lib/mng/disk_allocator.cpp add_free_region(), " + H + "mng/disk_allocator.h new_blocks()"),
       ("distribution over the disks", H + "mng/block_manager.h new_blocks_int(), " + H + "mng/block_alloc.h"),
       ("start and end of the disks", "lib/mng/block_manager.cpp")],
      [("free_space", "free regions of a disk", H + "mng/disk_allocator.h"), ("m_current_allocation", "bytes in use", H + "mng/block_manager.h")],
      ["BIDs handed out", "contents of the blocks", "get_total_bytes()/get_free_bytes()/get_current_allocation()", "files in the directory"]),
    P("P05", "Buffered streams, prefetchers and pools transfer exactly the blocks they stand for",
      "Whatever is written through a buffered stream, a buffered writer or a write pool is in the right block once it is flushed or the object is gone, and reading blocks "
      "forward, backward, by a prefetch schedule or from a pool (with hints, stealing and invalidation) delivers the contents last written, in the order "
      "of consumption, for any number of buffers, blocks and disks and any completion order of the requests. Each block is fetched once, ends are reported exactly, nothing is "
      "transferred outside the blocks, no request outlives its object, and typed blocks give back elements, references and information unchanged.",
      ["histories", "schedules", "configurations", "inputs"], "all sequences of stream, prefetcher and pool operations over all buffer counts and all completion orders of the requests",
      "The tests use one buffer count with fast disks; a buffer used too early or too late shows only for particular counts and completion orders.",
      [H + "mng/buf_istream.h", H + "mng/buf_istream_reverse.h", H + "mng/buf_ostream.h", H + "mng/buf_writer.h", H + "mng/block_prefetcher.h", H + "mng/prefetch_pool.h", H + "mng/write_pool.h", H + "mng/read_write_pool.h", H + "mng/typed_block.h"],
      [("read buffers and their requests", H + "mng/block_prefetcher.h pull_block()/block_consumed()"),
       ("write buffers in batches", H + "mng/buf_writer.h write()/flush()"),
       ("blocks waiting to be written or hinted", H + "mng/write_pool.h steal_request(), " + H + "mng/prefetch_pool.h hint()/read()/invalidate()")],
      [("busy_blocks", "blocks being transferred", H + "mng/write_pool.h")], ["blocks read", "contents of the files", "numbers of requests"]),
    P("P07", "A vector behaves like an in-memory array for every history",
      "Whatever sequence of element reads and writes, appends, removals, resizes (with and without giving back capacity), reservations, clears, "
      "flushes, swaps, copies, iterator walks and buffered range reads and writes is applied, every element last written is read back with that "
      "value through every access path, and size, capacity and comparison agree with an ordinary array. The external memory held equals the reported "
      "raw capacity at every moment, and all of it is given back.",
      ["histories", "inputs", "configurations"], "all operation histories over all element sizes, page sizes, cache sizes, pagers and disk layouts",
      "The tests run a few fixed histories with one page and cache geometry; wrong eviction, growth or write-back only shows for particular orders of operations and sizes around block and page boundaries.",
      [H + "containers/vector.h", H + "containers/pager.h"],
      [("page cache with dirty flags, eviction and write-back", H + "containers/vector.h element()/read_page()/write_page()"),
       ("capacity growth and shrinking", H + "containers/vector.h reserve()/_resize()/_resize_shrink_capacity()"),
       ("overlapped range access", H + "containers/vector.h vector_bufreader/vector_bufwriter")],
      [("m_page_status", "uninitialized, valid on disk or dirty, per page", H + "containers/vector.h")],
      ["element access operators", "size()/capacity()/raw_capacity()", "block_manager allocation counters"]),
    P("P08", "A vector over a file leaves exactly its elements in the file",
      "A vector constructed over a file shows the elements the file's length implies, and after it is destroyed the file holds exactly the vector's "
      "elements, contiguous and nothing more, whatever was done in between and whichever access method each session used. Opening the file again, as a "
      "vector or as plain bytes, shows the same data, and an exported vector's numbered pieces hold its elements in order.",
      ["histories", "inputs", "configurations"], "all sequences of sessions over a file with any operations in each session",
      "The tests map one file once with sizes chosen in advance; truncation, padding and write-back errors depend on the size relative to block and page boundaries and on the history of sessions.",
      [H + "containers/vector.h", "lib/io/ufs_file_base.cpp", "lib/io/fileperblock_file.cpp"],
      [("length derived from file and truncation on destruction", H + "containers/vector.h size_from_file_length()/file_length()/~vector()"),
       ("growth of the file with the vector", H + "containers/vector.h reserve()"),
       ("export of single blocks", "lib/io/fileperblock_file.cpp export_files()")],
      [], ["file bytes read independently", "vector(file*)"]),
    P("P06", "The block scheduler gives every swappable block its own contents, whatever order it swaps in",
      "Every swappable block keeps the contents written to it while acquired, however many blocks compete for however little internal memory, whether it is acquired, "
      "released (dirty or not), explicitly initialised, deinitialised, handed out as external block or taken back, and under each algorithm: online, simulation and offline ones "
      "that prefetch along a recorded sequence. Acquired blocks stay in place, no more internal memory than granted is used, running a program again "
      "under another algorithm gives the same result, and all internal and external memory is given back.",
      ["histories", "configurations", "schedules"], "all programs of acquisitions and releases over all internal memory sizes and scheduling algorithms, including switching between them",
      "The tests run one fixed program with one memory size; wrong evictions or lost writes need particular sequences and timings of the background writes.",
      [H + "mng/block_scheduler.h"],
      [("swapping in and out", H + "mng/block_scheduler.h block_scheduler_algorithm_online_lru"), ("offline algorithms along a sequence", H + "mng/block_scheduler.h block_scheduler_algorithm_offline_lfd, block_scheduler_algorithm_offline_lru_prefetching"),
       ("state of one block", H + "mng/block_scheduler.h swappable_block")],
      [("dirty, internal and external data", "where the valid contents of a swappable block are", H + "mng/block_scheduler.h swappable_block")], ["contents of acquired blocks", "get_simulated counters", "block_manager counters"]),
    P("P09", "Every kind of stack is last in, first out",
      "Whatever sequence of pushes, pops, changes of the top, swaps and copies is applied, a stack of any kind (normal, grow-shrink, with shared pools, migrating between internal and "
      "external) has the size and top element of an ordinary stack at every moment, also when it is rocked over block and page boundaries, when pools are shared between stacks and "
      "when the prefetch aggressiveness changes. It holds external blocks only for its elements, gives them all back, and returns pool blocks.",
      ["histories", "configurations"], "all histories of pushes and pops over all kinds of stacks, page sizes, pool sizes and disks",
      "The tests push a fixed number and pop them again; errors at the borders of cached pages need particular alternations of pushes and pops.",
      [H + "containers/stack.h"],
      [("two cached pages", H + "containers/stack.h normal_stack, grow_shrink_stack"), ("prefetching from the pool", H + "containers/stack.h grow_shrink_stack2 push()/pop()/set_prefetch_aggr()"), ("migration", H + "containers/stack.h migrating_stack")],
      [("cache_offset", "position of the top in the cached pages", H + "containers/stack.h")], ["top()/size()/empty()", "block_manager counters", "pool sizes"]),
    P("P10", "Queues and sequences keep their elements in order, read from either end or by streams",
      "Whatever sequence of insertions and removals at the ends is applied, a queue or sequence has the size, front and back of an ordinary queue at every moment, and "
      "forward and reverse streams over a sequence, also several at once, deliver all its elements in order, for any pool sizes, shared or own pools and any prefetch "
      "aggressiveness. Only full blocks are external, and all blocks and pool buffers are given back.",
      ["histories", "configurations", "schedules"], "all histories of insertions and removals at both ends, streams, swaps and pool settings over all block sizes",
      "The tests fill and drain with one block size; moving elements within memory and taking the next block need particular fill levels at both ends.",
      [H + "containers/queue.h", H + "containers/sequence.h", H + "mng/read_write_pool.h"],
      [("moving elements between the two blocks in memory", H + "containers/sequence.h push_front()/push_back()"), ("taking over the next block", H + "containers/queue.h pop(), " + H + "containers/sequence.h pop_front()/pop_back()"), ("streams", H + "containers/sequence.h stream, reverse_stream")],
      [("m_front_element, m_back_element", "the ends within the two blocks in memory", H + "containers/sequence.h")], ["front()/back()/size()", "stream elements", "block_manager counters", "pool sizes"]),
    P("P11", "A deque behaves like an in-memory deque",
      "Whatever sequence of insertions and removals at both ends, element and iterator accesses, resizes, swaps and comparisons is applied, a deque agrees with an ordinary deque, "
      "wherever its elements lie within the circular array and whenever that array grows; iterators are random access iterators in both directions.",
      ["histories", "inputs"], "all histories of operations, at all positions within the circular array and all growth steps",
      "The tests stay within one array size and position; errors of wrapping around and growing need a particular history.",
      [H + "containers/deque.h"],
      [("circular array over a vector", H + "containers/deque.h double_array()/resize()"), ("iterator arithmetic modulo the array size", H + "containers/deque.h deque_iterator, const_deque_iterator")],
      [("m_begin, m_end", "ends within the array", H + "containers/deque.h")], ["elements by index and iterator", "comparisons"]),
    P("P13", "A priority queue always delivers the largest element",
      "Whatever sequence of insertions, removals and swaps is applied, the top of a priority queue is the extreme element of the multiset inserted and not yet removed, and "
      "its size is right, for every order, element type and configuration the generator yields, with parallel merging and with its own loser trees, through all levels "
      "of groups, merges and refills from external memory; equal elements are neither lost nor duplicated. All blocks and pool buffers are given back.",
      ["histories", "configurations"], "all histories of insertions and removals over all arities, group numbers, buffer and pool sizes",
      "The tests fill and drain with one configuration; merging into the next group, emptying a group and refilling buffers in between need particular histories.",
      [H + "containers/priority_queue.h", H + "containers/pq_ext_merger.h", H + "containers/pq_int_merger.h", H + "containers/pq_losertree.h", H + "containers/pq_mergers.h"],
      [("groups and refilling", H + "containers/priority_queue.h empty_insert_heap()/refill_group_buffer()/refill_delete_buffer()/make_space_available()"),
       ("external merger", H + "containers/pq_ext_merger.h"), ("internal merger", H + "containers/pq_int_merger.h, " + H + "containers/pq_losertree.h"), ("generator", H + "containers/priority_queue.h PRIORITY_QUEUE_GENERATOR")],
      [("group buffers, delete buffer, insert heap", "the levels of the queue", H + "containers/priority_queue.h")], ["top()/size()/empty()", "block_manager counters", "pool sizes"]),
    P("P25", "Parallel multiway merging, splitting and merge sort are exact",
      "multiway_merge (plain, stable, with sentinels) writes exactly the smallest elements of its sorted sequences in order and advances each sequence by what it took, for any "
      "number, length and content of the sequences and any part of their elements, with every algorithm, splitting, number of threads and from within parallel regions; the stable variants keep the "
      "order of equal elements. multiseq_partition splits at exactly the given rank with equal elements to the left from the first sequences, multiseq_selection finds the element of the "
      "rank and its offset, equally_split yields almost equal parts, and parallel merge sort sorts, stably if so asked. Nothing is read or written beyond the sequences.",
      ["inputs", "configurations", "schedules"], "all sets of sorted sequences, parts, orders, settings, thread numbers and calling contexts",
      "The tests merge random sequences of few forms with default settings; ties between sequences, empty sequences, parts of the elements and small teams of threads are not met.",
      [H + "parallel/multiway_merge.h", H + "parallel/multiseq_selection.h", H + "parallel/multiway_mergesort.h", H + "parallel/losertree.h", H + "parallel/merge.h"],
      [("merging", H + "parallel/multiway_merge.h multiway_merge_3_variant()/multiway_merge_4_variant()/multiway_merge_bubble()/multiway_merge_loser_tree*()"), ("splitting", H + "parallel/multiway_merge.h parallel_multiway_merge_*_splitting(), " + H + "parallel/multiseq_selection.h"),
       ("loser trees", H + "parallel/losertree.h"), ("merge sort", H + "parallel/multiway_mergesort.h parallel_sort_mwms_pu()")],
      [("a[], b[]", "left and right borders of the splitting", H + "parallel/multiseq_selection.h")], ["merged output", "positions of the sequences afterwards", "splitters"]),
    P("P15", "A map is an ordered map, and its iterators survive reorganisation",
      "stxxl::map answers every sequence of insertions (plain, hinted, ranges, []), removals (by key, iterator, range), searches, bounds, scans in both directions, swaps, comparisons and "
      "constructions (bulk from sorted input with any fill factors and duplicates, or one by one) as an ordered map with unique keys under its comparator does, with the smallest caches, with and "
      "without prefetching and for trees of many levels. An iterator held over splits, fusions, balancing and evictions still refers to its element or to the end. All blocks are given back.",
      ["histories", "configurations"], "all histories of operations over node and leaf sizes, cache sizes, orders, key and data types",
      "The tests insert and erase in a few orders with roomy caches; evictions in the middle of a split, deep trees, swapped maps and held iterators are not met.",
      [H + "containers/map.h", H + "containers/btree/btree.h", H + "containers/btree/node.h", H + "containers/btree/leaf.h", H + "containers/btree/node_cache.h", H + "containers/btree/iterator_map.h"],
      [("splitting, fusing, balancing", H + "containers/btree/leaf.h insert()/split()/fuse()/balance(), " + H + "containers/btree/node.h insert()/fuse_or_balance()"), ("root", H + "containers/btree/btree.h insert_into_root()/erase()/bulk_construction()"),
       ("caches", H + "containers/btree/node_cache.h get_node()/prefetch_node()/swap()"), ("iterators", H + "containers/btree/iterator_map.h, " + H + "containers/btree/iterator.h")],
      [("m_dirty, m_fixed", "which cached nodes must be written, which may not be evicted", H + "containers/btree/node_cache.h"), ("m_iterator_map", "iterators by leaf and position", H + "containers/btree/btree.h")], ["results of every operation", "held iterators", "block_manager counters"]),
P("P19", "Sorting a range puts exactly its elements in order, whatever the memory, and touches nothing else",
      "stxxl::sort, ksort (by key() or by a key extractor) and stable_ksort leave the range [first, last) of a vector ordered as the comparison or key demands and holding exactly the elements, "
      "byte for byte, it held before; stable_ksort keeps the order of elements with equal keys. It holds for ranges that start or end within a block, for every amount of memory the algorithm accepts, "
      "from two blocks (less is refused with bad_parameter by sort) to all data, for any number of merging passes and disks, for native and library merging, and for equal, ordered, reversed or extreme keys. "
      "Elements outside the range do not change, the vector goes on working, no block is lost or freed twice, and a vector on a file is sorted within the file.",
      ["inputs", "configurations"], "all contents, ranges, memory sizes, element and key types, disk and allocation layouts, managed and file-backed vectors",
      "The tests sort one or two sizes of whole, block-aligned vectors of random elements with generous memory; boundaries within blocks, few memory, equal keys and files are not sampled.",
      ["include/stxxl/bits/algo/sort.h", "include/stxxl/bits/algo/ksort.h", "include/stxxl/bits/algo/stable_ksort.h", "include/stxxl/bits/algo/intksort.h", "include/stxxl/bits/algo/inmemsort.h", "include/stxxl/bits/algo/run_cursor.h", "include/stxxl/bits/algo/losertree.h", "include/stxxl/bits/algo/adaptor.h"],
      [("run formation", H + "algo/sort.h create_runs(), ksort.h create_runs()"), ("merging with prefetching and write buffers", H + "algo/sort.h merge_runs(), losertree.h"),
       ("first and last blocks shared with elements outside the range", H + "algo/sort.h sort(), ksort.h ksort()"), ("distribution into buckets", H + "algo/stable_ksort.h distribute(), stable_ksort()")],
      [], ["elements of the vector inside and outside the range", "allocated bytes", "the file"]),
P("P18", "The sorter and the sort streams deliver exactly what was put in, in order, as often as asked",
      "After any sequence of pushes and phase changes (sort with any merger memory, sort_reuse, rewind, partial reading, clear, finish, finish_clear) stxxl::sorter delivers exactly the elements pushed since the last clear, "
      "unchanged and in order; size() and empty() are exact throughout. The same holds for stream::sort, for runs creators fed from a stream, by push() or with ordered sequences, for one set of runs merged several times, and for "
      "sorting a range of iterators, with any number of runs and merging passes; the input is read exactly once. Too little memory is refused with bad_parameter and can be supplied afterwards. "
      "All blocks and buffers are released on clear, finish_clear and destruction, at any time and never while being written.",
      ["histories", "inputs", "schedules", "configurations"], "all sequences of operations, contents, run and merger memories, element sizes and disk layouts",
      "The tests push one amount and read it once or twice; changes of phase in other orders, runs that end exactly at block or memory boundaries, several merging passes and destruction with pending writes are not sampled.",
      ["include/stxxl/bits/containers/sorter.h", "include/stxxl/bits/stream/sort_stream.h", "include/stxxl/bits/stream/sorted_runs.h", "include/stxxl/bits/algo/losertree.h", "include/stxxl/bits/algo/sort_helper.h"],
      [("run creation", H + "stream/sort_stream.h basic_runs_creator::compute_result(), runs_creator<use_push>, runs_creator<from_sorted_sequences>"), ("merging, also recursively", H + "stream/sort_stream.h basic_runs_merger::initialize(), merge_recursively(), fill_buffer_block()"),
       ("phases", H + "containers/sorter.h")],
      [("m_result", "the runs on disk and their sizes", H + "stream/sort_stream.h")], ["elements in the order of reading", "size() and empty()", "allocated bytes"]),
P("P21", "Scans visit every element of the range once and in order, and shuffling permutes it",
      "for_each and for_each_m apply the functor to exactly the elements of the range, once each, in order, and return it; what for_each_m and generate assign is what the vector contains afterwards, also in blocks that were never written before; "
      "find returns the first position of the value or the end; random_shuffle leaves a permutation of the range with any amount of memory, drawing from the generator given, every permutation being equally likely. "
      "Elements outside the range, pages in the cache and external memory in use are not affected, for ranges and numbers of buffers of any size, including none.",
      ["inputs", "histories", "configurations"], "all vectors, page sizes, ranges, numbers of buffers and memory sizes",
      "The tests scan whole vectors of one size; ranges that begin and end inside blocks and pages, empty ranges, a single buffer, pages never written or changed in the cache, and recursion in shuffling are not sampled.",
      ["include/stxxl/bits/algo/scan.h", "include/stxxl/bits/algo/random_shuffle.h", "include/stxxl/bits/mng/buf_istream.h", "include/stxxl/bits/mng/buf_ostream.h"],
      [("scans", H + "algo/scan.h for_each(), for_each_m(), generate(), find()"), ("shuffling", H + "algo/random_shuffle.h random_shuffle() for vector_iterator")],
      [("blocks of the vector", "rewritten behind the vector's cache", H + "containers/vector.h page_externally_updated()")], ["elements of the vector", "calls of the functor", "position found"]),
P("P24", "A pipeline of stream operations delivers what its operations define, element by element",
      "streamify (iterators, vectors, generators), transform of one to six inputs, make_tuple of two to six, choose, unique with and without predicate, sort, materialize into arrays and vectors with and without bound, and discard, composed in any way, "
      "deliver exactly the elements their definitions say, in order; operators apply their functor once per element, never ahead of what is read, and never read or advance an input at its end; the shortest input ends the stream. "
      "Copying an unused stream moves its buffers. materialize returns the position behind the last element and leaves every other element of the vector and its cache as they were.",
      ["inputs", "histories", "configurations"], "all compositions of operations, contents, ranges, bounds, numbers of buffers and page sizes",
      "The tests run fixed pipelines over whole vectors; other arities, inputs of different lengths, ranges inside blocks, partial reading, and outputs into partly written vectors are not sampled.",
      ["include/stxxl/bits/stream/stream.h", "include/stxxl/bits/stream/choose.h", "include/stxxl/bits/stream/unique.h", "include/stxxl/bits/common/tuple.h"],
      [("sources", H + "stream/stream.h iterator2stream, vector_iterator2stream, vector_iterator2stream_sr, generator2stream"), ("operations", H + "stream/stream.h transform, make_tuple; stream/choose.h; stream/unique.h"), ("sinks", H + "stream/stream.h materialize(), discard()")],
      [("position in each input", "advanced together", H + "stream/stream.h")], ["elements read", "elements of the output vector", "calls of the operations"]),
P("P16", "A hash map is a map, also while its buffer is merged to disk, and its iterators follow their elements",
      "stxxl::unordered_map answers every sequence of insertions (single, bulk, oblivious, []), removals (by key, by iterator, oblivious), searches, counts, equal ranges, scans, rehashing, changes of the buffer and the load factor, "
      "clear, swap and construction as a map with unique keys does, also for hash functions that collide or use the ends of the range, for any number of buckets including none, with the smallest buffers and block caches and on every kind of disk. "
      "Iteration yields each element once, ordered by hash value and key; the last value assigned through an iterator or [] is kept. An iterator held over insertions, rebuilding and swaps still refers to its element, or to the end "
      "once that is erased. size() is exact, also after oblivious operations. The cache of blocks below it delivers each part of a block as last changed, whether read whole or in part, retained, prefetched, evicted, flushed or swapped. All blocks are given back.",
      ["histories", "configurations", "schedules"], "all histories of operations over hash functions, buffer, cache, bucket and element sizes, and kinds of disks",
      "The tests insert and erase random keys with one well-spread hash function and a roomy buffer; collisions, values of the hash at its limits, iterators held over a rebuild, full caches and blocks read while being written are not met.",
      [H + "containers/unordered_map.h", H + "containers/hash_map/hash_map.h", H + "containers/hash_map/iterator.h", H + "containers/hash_map/iterator_map.h", H + "containers/hash_map/block_cache.h", H + "containers/hash_map/util.h"],
      [("buffer and buckets", H + "containers/hash_map/hash_map.h insert(), erase(), find(), _find_key_internal(), _find_key_external()"), ("rebuilding, bulk insertion", H + "containers/hash_map/hash_map.h _rebuild_buckets(), insert(f, l)"),
       ("iterators", H + "containers/hash_map/iterator.h find_next(), iterator_map.h fix_iterators_*()"), ("cache of partly loaded blocks", H + "containers/hash_map/block_cache.h get_subblock(), make_dirty(), kick_block()")],
      [("oblivious_, num_total_", "whether the number of elements is exact", H + "containers/hash_map/hash_map.h"), ("valid_subblock_, dirty_, retain_count_", "what a cached block holds and whether it may leave", H + "containers/hash_map/block_cache.h")],
      ["results of every operation", "held iterators", "allocated bytes"]),
    P("P14", "A parallel priority queue always delivers the extreme element, however elements are put in and taken out",
      "Whatever sequence of single, bulk and parallel insertions, removals, bulk removals with a number or a limit, limit sessions and forced merges is applied, each element the parallel priority queue delivers is the extreme "
      "one of those inserted and not yet removed, none is lost, duplicated or changed, size() and empty() are right, bulk_pop_limit() yields only elements before the limit and says so truly when there are no more, for any "
      "number of threads and insertion heaps, merging often on few levels or seldom, with the smallest pools and with blocks still being written. Memory in use stays within what the queue was given; all blocks are given back.",
      ["histories", "configurations", "schedules"], "all histories of operations over numbers of threads and heaps, sizes of heaps, pools, buffers and levels, element sizes and orders",
      "The tests fill and drain large queues with ample memory in one way each; merging levels of external arrays, mixing bulk and limit operations, hints removed during writes and few read blocks are not met.",
      [H + "containers/parallel_priority_queue.h", H + "common/winner_tree.h", H + "parallel.h"],
      [("insertion", H + "containers/parallel_priority_queue.h push(), bulk_push*(), limit_push(), flush_insertion_heaps*()"), ("extraction", H + "containers/parallel_priority_queue.h pop(), bulk_pop(), bulk_pop_limit(), refill_extract_buffer(), calculate_merge_sequences()"),
       ("external arrays, hints", H + "containers/parallel_priority_queue.h flush_internal_arrays(), check_external_level(), rebuild_hint_tree(), external_array, external_array_writer"), ("minima", H + "common/winner_tree.h, minima_tree")],
      [("m_unhinted_block, m_end_index", "blocks requested and blocks in RAM", H + "containers/parallel_priority_queue.h"), ("m_mem_left, m_num_read_blocks", "memory accounting", H + "containers/parallel_priority_queue.h")],
      ["elements delivered", "size()/empty()", "memory_consumption()", "allocated bytes"]),
P("P32", "Small integers and binary buffers hold exactly the values put into them",
      "uint40 and uint48 take five and six bytes and behave as unsigned integers modulo 2^40 and 2^48 in conversions, arithmetic with carries, comparisons, limits and printing, also inside arrays. A binary buffer holds the concatenation "
      "of everything appended, put or aligned, and a reader yields the same items in the same order; variable-length integers and strings survive unchanged. Reading from any bytes at all yields a value that is really there or an "
      "exception for underruns, overlong and too large numbers, and never touches memory beyond the end. Logarithms, rounding and division with rounding up are exact over the whole range of 32-bit and 64-bit integers.",
      ["inputs", "histories"], "all values, sequences of items and byte strings",
      "The tests use a few values around one carry and one fixed sequence of items, and decode only what they encoded.",
      ["include/stxxl/bits/common/uint_types.h", "include/stxxl/bits/common/binary_buffer.h", "include/stxxl/bits/common/utils.h"],
      [("integers", "include/stxxl/bits/common/uint_types.h uint_pair"), ("writing", "include/stxxl/bits/common/binary_buffer.h binary_buffer"), ("reading", "include/stxxl/bits/common/binary_buffer.h binary_reader"), ("helpers", "include/stxxl/bits/common/utils.h ilog2, div_ceil, round_up_to_power_of_two")],
      [("low, high", "the two parts of an integer", "include/stxxl/bits/common/uint_types.h"), ("m_curr", "position of the reader", "include/stxxl/bits/common/binary_buffer.h")],
      ["values", "contents of buffers", "exceptions"]),
P("P27", "Disk configurations and command lines mean what they say",
      "Every well-formed disk line, option list and size yields exactly the disk described (decimal and binary units, MiB as default, later options winning, ### replaced by the process number, size 0 growing and removed at exit), printing and reparsing "
      "it changes nothing, and malformed ones are refused with a runtime_error. The first configuration file in the documented order is used, regular disks before flash disks in the order of their lines, disks added by the program instead of any file. "
      "The disks that result have the configured sizes, queues, device numbers and files, hold blocks, and after the process has ended exactly the files to be deleted or unlinked are gone. Command lines set exactly the variables their words name, "
      "required, repeated and optional parameters and the end of options included, and invalid ones are refused with a usage text; printing wraps any text without losing or lengthening anything and always ends.",
      ["inputs", "configurations"], "all lines, files in all places, sizes, option lists, parsers and command lines, texts and widths",
      "The tests parse a dozen fixed lines and four fixed command lines; option combinations, malformed and overflowing sizes, the search for files, flash disks, deletion at exit and long names are not sampled.",
      ["lib/mng/config.cpp", "include/stxxl/bits/mng/config.h", "lib/io/create_file.cpp", "lib/mng/block_manager.cpp", "lib/common/utils.cpp", "lib/common/cmdline.cpp", "include/stxxl/bits/common/cmdline.h"],
      [("lines and options", "lib/mng/config.cpp parse_line(), parse_fileio(), fileio_string()"), ("search for files", "lib/mng/config.cpp find_config(), load_config_file()"), ("opening", "lib/io/create_file.cpp create_file()"),
       ("sizes", "lib/common/utils.cpp parse_SI_IEC_size(), format_SI_size(), format_IEC_size()"), ("command lines", "lib/common/cmdline.cpp process(), output_wrap()")],
      [("disks_list, first_flash", "configured disks", "include/stxxl/bits/mng/config.h")], ["parsed fields", "exceptions", "files left behind", "variables set", "printed text"]),
P("P34", "The supporting structures keep their contracts over every history",
      "A winner tree names an active player with the least value after every change, activation beyond its slots, deactivation (single or in batches), rebuilding and resizing. Swapping and simple vectors keep their elements in order through erasing any range, "
      "removal by predicate, reserving, resizing and swapping, and lose or copy none. Addressable queues deliver in order of insertion or priority, with elements moved or removed by key or handle. Counting pointers keep an object alive exactly while one refers to it, "
      "also over unify(), swapping, assignment of contents and several threads; pointers kept in external memory hold their reference. Aligned memory, blocks and arrays of blocks are aligned, as large as requested and apart. Heap and order tests are right, and random numbers lie in their ranges and are repeated by the same seed.",
      ["histories", "inputs", "schedules"], "all histories of operations, contents, sizes, orders and threads",
      "The tests exercise one short fixed history of each; erasing near the end, growing trees, batches of removals, updates of priorities and concurrent releases are not sampled.",
      ["include/stxxl/bits/common/winner_tree.h", "include/stxxl/bits/common/swap_vector.h", "include/stxxl/bits/common/simple_vector.h", "include/stxxl/bits/common/addressable_queues.h", "include/stxxl/bits/common/counting_ptr.h", "include/stxxl/bits/common/external_shared_ptr.h", "include/stxxl/bits/common/rand.h", "include/stxxl/bits/common/aligned_alloc.h", "include/stxxl/bits/common/new_alloc.h", "lib/common/seed.cpp"],
      [("winner trees", "include/stxxl/bits/common/winner_tree.h replay_on_change(), double_num_slots(), rebuild()"), ("vectors", "include/stxxl/bits/common/swap_vector.h erase(), reserve(), swap_remove_if()"),
       ("queues", "include/stxxl/bits/common/addressable_queues.h insert(), erase(), pop()"), ("pointers", "include/stxxl/bits/common/counting_ptr.h"), ("numbers", "include/stxxl/bits/common/rand.h, lib/common/seed.cpp")],
      [("m_tree", "games of the tree", "include/stxxl/bits/common/winner_tree.h"), ("m_reference_count", "references to an object", "include/stxxl/bits/common/counting_ptr.h")], ["winner", "elements", "objects alive", "numbers"]),
P("P26", "The prefetch schedule requests every block once, in time, and no slower than in order",
      "For every sequence of blocks on any number of disks (files outside the configured disks included) and any number of buffers, the computed schedule is a permutation of the blocks in which no block comes so late that a consumer with that many buffers "
      "would wait for ever, blocks of one disk come in the order in which they are needed, and reading by it takes no more parallel steps than reading in order plus one per disk. Nothing is written beside the schedule.",
      ["inputs"], "all sequences of disks, numbers of disks and buffers",
      "The test computes one schedule for random disks and checks only that it is printed; a schedule that is late by one place blocks a merge for ever only with particular layouts.",
      ["lib/algo/async_schedule.cpp", "include/stxxl/bits/algo/async_schedule.h"],
      [("simulation", "lib/algo/async_schedule.cpp simulate_async_write()"), ("schedule", "lib/algo/async_schedule.cpp compute_prefetch_schedule()")],
      [("disk_queues, disk_busy", "blocks of the reversed sequence waiting for their disk", "lib/algo/async_schedule.cpp")], ["the schedule"]),
P("P17", "Matrices in external memory compute exact results with every algorithm and schedule",
      "A matrix behaves like a two-dimensional array of its elements, initially zero, whatever the size (also when it is no multiple of the block side), the memory of the block scheduler and the history: element access, "
      "row- and column-major iterators in both directions and their assignment, copies that share their blocks until one is changed, transposition, zeroing, sums, differences, scalar multiples and products with vectors and of two vectors "
      "give exactly what the definition gives, and every multiplication algorithm with every scheduling algorithm gives the same product, also for rectangular, transposed and partly zero factors. At the end every block is given back.",
      ["inputs", "histories"], "all matrices over integers, sequences of operations, multiplication and scheduling algorithms, memory limits of at least the blocks one step needs",
      "The tests multiply a few square matrices of doubles and print norms or compare with a tolerance; rectangular, transposed, padded or shared operands are not combined with the algorithms.",
      ["include/stxxl/bits/containers/matrix.h", "include/stxxl/bits/containers/matrix_arithmetic.h", "include/stxxl/bits/containers/matrix_low_level.h"],
      [("padding, transposition", "include/stxxl/bits/containers/matrix.h swappable_block_matrix"), ("multiplication", "include/stxxl/bits/containers/matrix_arithmetic.h matrix_operations"),
       ("iterators", "include/stxxl/bits/containers/matrix.h matrix_iterator")],
      [("blocks, elements_in_blocks_transposed", "which blocks hold the elements and in which order", "include/stxxl/bits/containers/matrix.h")], ["element", "operator *", "multiply"]),
P("P29", "I/O statistics count every request once and measure what they define",
      "After any history of asynchronous reads and writes on any kind of file, from any number of threads and with any requests cancelled, the global statistics have counted exactly the requests that were carried out, with their volumes, once each, and none that was cancelled "
      "(write-behind files: a block written counts as a cached write, a block read as a cached read or as one read of the disk). The times obey their definitions: the serial times are the sums of the service times, the parallel times those during which at least one request "
      "of the kind was in service, never negative, the wait time is the sum over the measured waits and splits into waits for reads and for writes, and nothing runs on while nothing is in service. Snapshots subtract and add exactly, a reset starts everything at zero, "
      "and the printed text shows these numbers, with correct SI and IEC multipliers.",
      ["histories", "schedules"], "all histories of requests on all kinds of files, threads, cancellations and overlaps in time",
      "The tests print statistics but compare none of them with anything; cancelled and overlapping requests, the order of accounting and the split of waits are not sampled.",
      ["include/stxxl/bits/io/iostats.h", "lib/io/iostats.cpp", "lib/io/linuxaio_request.cpp", "lib/io/wbtl_file.cpp", "lib/io/syscall_file.cpp", "lib/io/mmap_file.cpp", "lib/io/mem_file.cpp", "lib/io/request_with_state.cpp", "include/stxxl/bits/io/request_operations.h"],
      [("collector", "lib/io/iostats.cpp read_started(), read_finished(), read_canceled(), wait_started(), reset()"), ("scoped timers", "include/stxxl/bits/io/iostats.h stats::scoped_read_write_timer, scoped_wait_timer"),
       ("Linux AIO", "lib/io/linuxaio_request.cpp post(), completed()"), ("snapshots and text", "include/stxxl/bits/io/iostats.h stats_data, lib/io/iostats.cpp operator <<")],
      [("reads, writes, volume_read, volume_written", "counts and volumes", "include/stxxl/bits/io/iostats.h"), ("acc_reads, acc_writes, acc_ios, acc_waits", "requests in service, waits", "include/stxxl/bits/io/iostats.h")], ["counts", "volumes", "times", "printed text"]),
P("P31", "Structures sharing the disks behave as if each were alone, also in several threads, and leave nothing behind",
      "Any number of containers, sorters, streams, matrices and plain blocks of any kinds and block sizes can live over the same disks at the same time: whatever operations are interleaved on them, in one thread or with different structures in different threads, "
      "each yields exactly what it would yield alone, no element of one appears in another, and creating, clearing and destroying some of them in any order leaves the others intact. When all are gone, all external memory has been given back.",
      ["histories", "schedules"], "all sets of structures, interleavings, threads, orders of destruction and disks",
      "The tests use one structure at a time in one thread, and none looks at the memory that is left allocated at its end.",
      ["include/stxxl/bits/mng/block_manager.h", "include/stxxl/bits/mng/disk_allocator.h", "lib/mng/disk_allocator.cpp", "include/stxxl/bits/mng/read_write_pool.h", "include/stxxl/bits/containers", "doc/faq.dox"],
      [("allocation", "include/stxxl/bits/mng/block_manager.h new_blocks(), delete_block()"), ("free space", "include/stxxl/bits/mng/disk_allocator.h, lib/mng/disk_allocator.cpp"), ("thread safety", "doc/faq.dox faq_threadsafe")],
      [("free_space", "regions of a disk that belong to nobody", "include/stxxl/bits/mng/disk_allocator.h"), ("m_current_allocation", "bytes allocated", "include/stxxl/bits/mng/block_manager.h")], ["elements", "bytes allocated"]),
P("P30", "The number of block transfers stays within the bounds of the external-memory algorithms",
      "An operation transfers no more blocks than its documented algorithm: a vector's cache transfers exactly what a pager of that size and strategy does, at most (reads of pages not in memory, writes of changed pages only); scanning a range reads and writes every block of it once; "
      "stack operations are amortised to O(1/B) transfers, for the grow-shrink stacks in every sequence of only pushes or only pops; queues, sequences and priority queues write an element at most once per level and read no block more often than it was written; "
      "sorting N elements takes one pass to form runs and ceil(log_m(runs)) merge passes over the data with the given memory; a lookup in a map reads at most one node per level, scanning it one block per leaf, and neither writes more than the nodes changed before.",
      ["inputs", "histories"], "all sequences of operations on vectors, stacks, queues, sequences, priority queues, sorters, maps; sizes, memory, cache sizes, prefetch buffers, disks",
      "An operation that moves more blocks than promised still returns the right elements: no test counts transfers, and the bounds concern all histories, in particular those that oscillate around a boundary.",
      ["include/stxxl/bits/containers/vector.h", "include/stxxl/bits/containers/pager.h", "include/stxxl/bits/containers/stack.h", "include/stxxl/bits/algo/sort_base.h", "include/stxxl/bits/algo/sort.h", "include/stxxl/bits/stream/sort_stream.h", "include/stxxl/bits/containers/btree", "doc/design.dox"],
      [("page replacement", "include/stxxl/bits/containers/vector.h page_externally(), pager.h"), ("amortisation", "include/stxxl/bits/containers/stack.h"), ("merge passes", "include/stxxl/bits/algo/sort_base.h optimal_merge_factor()"), ("node cache", "include/stxxl/bits/containers/btree/node_cache.h")],
      [("m_page_status", "pages that have to be written", "include/stxxl/bits/containers/vector.h"), ("reads, writes", "transfers counted", "include/stxxl/bits/io/iostats.h")], ["blocks read and written", "elements"]),
P("P33", "A transfer that fails below a container is reported, never turned into wrong elements",
      "If a transfer of a block fails below a vector (through its cache, iterators, buffered readers and writers, scanning or sorting algorithms), a stack, queue, sequence, deque, map, unordered_map, priority queue, sorter, sorted stream or pool of blocks, then io_error is thrown by the operation that needs the transfer or a later one - or ends the process, where only a destructor notices it. "
      "Every element delivered before, or despite it, is the right one; nothing is thrown if no transfer fails; no memory in use by a transfer is freed while other transfers still run, no block is freed twice, and a structure that an io_error has left can be destroyed; the disks remain usable for other structures. "
      "(Matrices and the parallel priority queue are not included.)",
      ["inputs", "histories", "faults"], "all histories of these structures, in which the n-th read, write or both - or all from then on - fail with EIO or ENOSPC, on any disk",
      "The tests run on disks that never fail. Which transfer fails, what else is under way then, and what is destroyed in which order, makes the difference between an error message and silently wrong data.",
      ["include/stxxl/bits/io/request_operations.h", "include/stxxl/bits/containers/vector.h", "include/stxxl/bits/mng/block_prefetcher.h", "include/stxxl/bits/mng/buf_writer.h", "include/stxxl/bits/mng/buf_ostream.h", "include/stxxl/bits/stream/sort_stream.h", "lib/io/request_with_state.cpp", "lib/io/serving_request.cpp", "include/stxxl/bits/containers/btree/leaf.h", "include/stxxl/bits/containers/hash_map/iterator.h", "include/stxxl/bits/algo/sort.h"],
      [("errors of requests", "include/stxxl/bits/io/request.h check_errors(), lib/io/serving_request.cpp serve()"), ("several requests", "include/stxxl/bits/io/request_operations.h wait_all()"), ("vector cache", "include/stxxl/bits/containers/vector.h read_page(), write_page(), flush()"), ("prefetching", "include/stxxl/bits/mng/block_prefetcher.h wait()"), ("sorting", "include/stxxl/bits/stream/sort_stream.h merge_recursively(), deallocate_prefetcher()")],
      [("m_error", "why a request has failed", "include/stxxl/bits/io/request.h"), ("m_page_status", "pages to be written", "include/stxxl/bits/containers/vector.h"), ("m_free_slots", "slots that hold no page", "include/stxxl/bits/containers/vector.h")], ["io_error", "elements", "memory errors", "further use of the disks"]),
]

NOT_APPLICABLE = []

NOTE = ("Random search: says that no counterexample was found among the generated cases, whose number, classes and samples the evidence reports. "
        "Trusts the reference model in the harness and the sandbox's kernel and compiler. ")
LEVEL_NOTES = {}

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in PROPS]
    na = {x["property"] for x in NOT_APPLICABLE}
    assert set(CHECKS) | na == set(ids), (set(CHECKS) ^ set(ids))
    checks = []
    for i in ids:
        if i in na:
            continue
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": CHECKS[i].get("technique", "model-based property testing"), "level": "exploration",
                       "level_note": NOTE + LEVEL_NOTES.get(i, "")})
    man = {"version": 1, "setup_cmd": "python3 check.py --build P01", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "Everything is built by build.py from /repo's working tree; no hooks in /repo are needed."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
