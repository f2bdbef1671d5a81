"""What each check builds, and the rule its evidence reports."""
ASAN, PLAIN = "asan", "plain"


def b(*srcs, flavour=ASAN, flags=(), ldflags=()):
    return {"srcs": list(srcs), "flavour": flavour, "flags": list(flags), "ldflags": list(ldflags)}


def parts(src, n):
    return ["%s:PART=%d" % (src, i) for i in range(n)]


PERTURB = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait"]



def bp(*srcs, flavour=ASAN, flags=()):
    """with delays at the synchronisation points of the library's threads"""
    return b(*srcs, flavour=flavour, flags=list(flags) + ["-DPERTURBED"], ldflags=PERTURB)


CHECKS = {
    "P01": {"bins": {"storage": b("p01_storage.cpp")},
            "rule": "more than 3 requests with at least one growth or change of the size and more than 8 operations (flat files), more than 2 rewrites of written blocks (block stores)"},
    "P02": {"bins": {"requests": b("p02_requests.cpp", ldflags=PERTURB)},
            "rule": "more than 4 requests of which one was cancelled or failed (histories over simulated files), a successful cancellation (real files), every case (synchronisation primitives)"},
    "P03": {"bins": {"faults": b("p03_faults.cpp", ldflags=["-Wl," + ",".join("--wrap=" + f for f in (
                "read", "write", "lseek", "lseek64", "ftruncate", "ftruncate64", "mmap", "mmap64", "munmap", "open", "open64", "syscall"))])},
            "rule": "an error or a short transfer was injected during the case; opening: a failing or rejected opening"},
    "P04": {"bins": {"blocks": b("p04_blocks.cpp", ldflags=PERTURB)},
            "rule": "more than 3 deallocations with more than 3 blocks in use (allocator), more than one disk with more than 6 blocks of two sizes in use (manager), more than 20 operations by the threads (threads)"},
    "P05": {"bins": {"streams": b("p05_streams.cpp", ldflags=PERTURB)},
            "rule": "more than 4 blocks of which more than 2 are read (streams), more blocks consumed than buffers with more than 3 blocks written (engines), more than 3 writes and 3 reads with a hinted block (pools), every case (typed)"},
    "P06": {"bins": {"scheduler": b("p06_scheduler.cpp", ldflags=PERTURB)},
            "rule": "more blocks than fit into memory and more accesses than that (scheduler), blocks evicted and read again (online_io)"},
    "P07": {"bins": {"vector": bp(*parts("p07_vector.cpp", 3))},
            "rule": "the vector grew beyond two pages of its cache"},
    "P08": {"bins": {"vector_file": bp("p08_vector_file.cpp")},
            "rule": "at least two sessions changed a file of more than one block; export: at least two pieces"},
    "P09": {"bins": {"stack": bp(*parts("p09_stack.cpp", 3))},
            "rule": "the stack held more than four pages and was popped from more than once"},
    "P10": {"bins": {"queue": bp("p10_queue.cpp")},
            "rule": "more than four blocks of elements and at least two phases of removals"},
    "P11": {"bins": {"deque": bp("p11_deque.cpp")},
            "rule": "the deque turned round within its array and grew to at least the initial size of the array"},
    "P13": {"bins": {"pq": bp(*parts("p13_priority_queue.cpp", 3)),
                     "pqtree": bp(*parts("p13_priority_queue.cpp", 3), flags=["-DLOSER"] + ["-DSTXXL_PARALLEL_PQ_MULTIWAY_MERGE_%s=0" % x for x in ("INTERNAL", "EXTERNAL", "DELETE_BUFFER")])},
            "rule": "the queue outgrew the first group of internal sequences and more elements than one sequence holds were removed"},
    "P25": {"bins": {"multiway": b(*parts("p25_multiway.cpp", 3))},
            "rule": "more than two sequences with more than 50 elements (merging), more than one sequence with more than 10 elements (splitting), more than one thread and more than 50 elements (sorting)"},
    "P15": {"bins": {"map": bp(*parts("p15_map.cpp", 2))},
            "rule": "more elements than six leaves hold and more removals than one leaf holds"},
    "P19": {"bins": {"sort": bp(*parts("p19_sort.cpp", 3)), "sortpar": bp("p19_sort.cpp:PART=0", flags=["-DSTXXL_PARALLEL_MODE"]),
                     "sortl2": bp("p19_sort.cpp:PART=1", "p19_sort.cpp:PART=2", flags=["-DSTXXL_L2_SIZE=2048"])},
            "rule": "the range is too large to be sorted in memory"},
    "P18": {"bins": {"sorter": bp(*parts("p18_sorter.cpp", 2)), "sorterpar": bp("p18_sorter.cpp:PART=1", flags=["-DSTXXL_PARALLEL_MODE"])},
            "rule": "more elements than three times the memory for forming runs, read back at least once (sorter), than twice that memory (streams)"},
    "P24": {"bins": {"pipeline": bp(*parts("p24_pipeline.cpp", 2))},
            "rule": "more than three blocks written to a vector, or more than one operation on more than one block of elements"},
    "P21": {"bins": {"scan": bp(*parts("p21_scan.cpp", 3)), "scanpar": bp("p21_scan.cpp:PART=2", flags=["-DSTXXL_PARALLEL_MODE"])},
            "rule": "a range of more than three blocks was processed"},
    "P16": {"bins": {"hashmap": bp(*parts("p16_hash_map.cpp", 2)), "hashcache": bp("p16_cache.cpp")},
            "rule": "more than 40 elements and more than twice as many as the buffer holds (map), more than two changes and more blocks than cached (cache), more than two blocks read with changes (readers)"},
    "P14": {"bins": {"ppq": bp(*parts("p14_ppq.cpp", 2))},
            "rule": "external arrays were written, and more elements taken than two insertion heaps hold"},
    "P27": {"bins": {"config": b("p27_config.cpp")},
            "rule": "a value above 1000 that fits (sizes), more than two fields (splitting), a device, unlink or direct option (lines), a file or disk that counts (discovery), more than one disk and more blocks than disks (disks), more than two words used (arguments), more than two lines (wrapping)"},
    "P34": {"bins": {"aux": b("p34_aux.cpp"), "memory": b("p34_memory.cpp"), "memoryplain": b("p34_memory.cpp", flavour=PLAIN)},
            "rule": "the tree grew in more than 20 steps (winner), more than two erasures in more than 15 steps (swapping vectors), elements moved or changed more than twice (queues), more than three pointers shared (counted pointers), more than 600 elements (external pointers), more than ten operations (memory), more than 20 or 5 elements (others)"},
    "P26": {"bins": {"schedule": b("p26_schedule.cpp")},
            "rule": "the schedule differs from the order of the blocks"},
    "P17": {"bins": {"matrix": bp(*parts("p17_matrix.cpp", 2))},
            "rule": "a matrix product, and a matrix of more than eight blocks"},
    "P29": {"bins": {"iostats": b("p29_iostats.cpp", ldflags=PERTURB)},
            "rule": "two operations open at the same time among more than 6 events (collector), more than five requests (counting), more than one request (one_by_one), reads and writes together in service (together), more than three events (text)"},
    "P30": {"bins": {"transfers": b(*parts("p30_transfers.cpp", 3))},
            "rule": "pages thrown out of the cache more than three times (paging), a range of more than four pages (scanning), two changes of direction in more than three pages of operations (stacks), more than six blocks (queues), blocks written and read (priority queues), a merge pass (sorting), more than two runs (sorters), more than four leaves and three lookups (maps)"},
    "P31": {"bins": {"together": bp("p31_together.cpp")},
            "rule": "at least two structures held more than 100 elements (interleaved), more than 500 operations (threads)"},
    "P33": {"bins": {"failures": b(*parts("p33_failures.cpp", 3), ldflags=["-Wl,--wrap=read,--wrap=write,--wrap=__cxa_throw"]),
                     "failuresn": b(*parts("p33_failures.cpp", 3), flavour="asan_ndebug", ldflags=["-Wl,--wrap=read,--wrap=write,--wrap=__cxa_throw"])},
            "rule": "a transfer has failed during the case"},
    "P32": {"bins": {"values": b("p32_values.cpp")},
            "rule": "a carry between the parts (small integers), more than one value of several bytes in more than 600 bytes (buffers), more than one outcome (decoding), every case (helpers)"},
}

# the quick tiers whose cases are cheap run more of them
QUICK_SCALE = {"P01": 4, "P02": 2, "P03": 4, "P04": 2, "P05": 2, "P07": 4, "P08": 2, "P09": 1.5, "P10": 3, "P11": 1.5, "P15": 2, "P16": 1.5, "P18": 3, "P21": 2, "P24": 5,
               "P25": 2, "P26": 8, "P27": 1.5, "P29": 2, "P32": 5, "P33": 1.5, "P34": 5}
