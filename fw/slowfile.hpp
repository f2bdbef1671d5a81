// A file in memory whose requests take a time that a seed decides, so that many requests are in flight at once.
// Writes read their buffer at the end of the delay, reads fill theirs at the end of it.
#ifndef SLOWFILE_HPP
#define SLOWFILE_HPP
#include "pbt.hpp"
#include <stxxl/bits/io/disk_queued_file.h>
#include <stxxl/bits/io/request.h>
#include <cstring>
#include <mutex>
#include <vector>
#include <sched.h>
#include <unistd.h>

class slow_file : public stxxl::disk_queued_file
{
    std::mutex m;
    uint64_t state;
    unsigned max_us;
public:
    std::vector<unsigned char> data;
    uint64_t served = 0;
    slow_file(uint64_t size, int queue, unsigned device, uint64_t seed, unsigned max_us_)
        : file(device), disk_queued_file(queue, stxxl::file::NO_ALLOCATOR), state(seed * 2 + 1), max_us(max_us_), data(size, 0) { }
    void serve(void* buffer, offset_type offset, size_type bytes, stxxl::request::request_type type)
    {
        state = state * 6364136223846793005ull + 1442695040888963407ull;
        unsigned r = (unsigned)(state >> 40);
        if (max_us) { if (r & 1) sched_yield(); if (r & 2) usleep((r >> 4) % max_us); }
        std::lock_guard<std::mutex> l(m);
        if (offset + bytes > data.size()) pbt::fail("a request lies outside the file");
        if (type == stxxl::request::WRITE) memcpy(&data[offset], buffer, bytes);
        else memcpy(buffer, &data[offset], bytes);
        ++served;
    }
    void set_size(offset_type n) { data.resize(n); }
    offset_type size() { return data.size(); }
    void lock() { }
    const char* io_type() const { return "slow"; }
};
#endif
