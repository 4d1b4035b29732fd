// Buffers larger than memory: one file mapped many times over, so that gigabytes cost a few megabytes.
#pragma once
#include "util.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>

struct Giant
{
    static constexpr size_t PERIOD = 4099 * 4096;      // a prime number of pages
    char *base; size_t total;
    explicit Giant(size_t size) : total(size + PERIOD)
    {
        int fd = memfd_create("giant", MFD_CLOEXEC);
        if(fd < 0 || ftruncate(fd, PERIOD) != 0) { perror("memfd"); _exit(2); }
        base = (char *) mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(base == MAP_FAILED) { perror("mmap"); _exit(2); }
        for(size_t o = 0; o < size; o += PERIOD)
            if(mmap(base + o, std::min(PERIOD, total - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
        ::close(fd);
    }
    void fill() { std::string p = pattern(PERIOD, 77); memcpy(base, p.data(), PERIOD); }
    ~Giant() { munmap(base, total); }
    Giant(const Giant &) = delete;
};
static const size_t GIANTS[] = {(size_t(1) << 31) + 9, (size_t(1) << 32) + 5, (size_t(1) << 31) - 1, size_t(1) << 32};
