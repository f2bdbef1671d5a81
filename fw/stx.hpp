// STXXL environment for a generated case: a drawn disk configuration inside the case's scratch directory.
#ifndef STX_HPP
#define STX_HPP
#include "pbt.hpp"
#include <stxxl/bits/config.h>
#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/mng/block_manager.h>
#include <stxxl/bits/common/rand.h>
#include <stxxl/bits/common/seed.h>
#include <omp.h>
#ifdef PERTURBED
#include "perturb.hpp"
#endif

namespace stx {

struct Opt {
    unsigned max_disks = 3;
    bool allow_files = true;      // files in the scratch directory besides memory disks
    bool allow_slow = false;      // wbtl
    uint64_t size = 32ull << 20;  // initial bytes per disk
    bool small_disks = true;      // sometimes start with tiny disks that have to grow
    unsigned max_threads = 4;
};

inline uint64_t allocated() { return stxxl::block_manager::get_instance()->get_current_allocation(); }
inline uint64_t used_bytes()
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    return bm->get_total_bytes() - bm->get_free_bytes();
}

// draws a disk configuration and starts STXXL with it
inline void setup(pbt::Src& s, const Opt& o = Opt())
{
    unsigned nd = 1 + (unsigned)s.raw(o.max_disks);
    stxxl::config* cfg = stxxl::config::get_instance();
    std::string desc;
    for (unsigned i = 0; i < nd; ++i) {
        std::string impl = "memory";
        if (o.allow_files) {
            switch (s.weighted({ 12, 4, 2, 2, o.allow_slow ? 2u : 0u })) {
            case 0: impl = "memory"; break;
            case 1: impl = "syscall"; break;
            case 2: impl = "mmap"; break;
            case 3: impl = "fileperblock_syscall"; break;
            case 4: impl = "wbtl"; break;
            }
        }
        uint64_t size = o.size;
        if (o.small_disks && s.chance(1, 6)) size = 4096ull * s.range(1, 64);
        if (impl == "wbtl") size = 64ull << 20;
        stxxl::disk_config d(std::string(pbt::scratch()) + "/disk" + std::to_string(i), size, impl);
        d.autogrow = true;
        d.direct = stxxl::disk_config::DIRECT_OFF;
        cfg->add_disk(d);
        desc += impl + "/" + std::to_string(size >> 10) + "K ";
    }
    unsigned seed = (unsigned)s.raw(1u << 16);
    stxxl::set_seed(seed);
    stxxl::srandom_number32(seed * 2654435761u + 1);
    int th = 1 + (int)s.raw(o.max_threads);
    omp_set_num_threads(th);
    unsigned delay = 0;
#ifdef PERTURBED
    // the I/O threads are delayed at synchronisation points
    perturb::seed = s.raw(1u << 30) + 1;
    perturb::level = delay = s.pick({ 0u, 0u, 0u, 0u, 0u, 6u, 6u, 60u });
#endif
    PBT_NOTE("{disks " << desc << "seed " << seed << " threads " << th << " delay " << delay << "}");
    stxxl::block_manager::get_instance();
    PBT_CHECK(stx::allocated() == 0, "fresh block manager has allocations");
}

// every block has been given back
inline void check_no_blocks(const char* when, uint64_t base_alloc = 0, uint64_t base_used = 0)
{
    PBT_EQ(allocated(), base_alloc, "external memory still allocated " << when);
    PBT_EQ(used_bytes(), base_used, "disk space still in use " << when);
}

} // namespace stx
#endif
