// Messages placed in the middle of a large inaccessible reservation: any read outside the
// given bytes faults (or is poisoned for the address sanitizer), any write faults.
#pragma once
#include "vz.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VZ_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VZ_ASAN 1
#endif
#ifdef VZ_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace vz {

class Guard {
    static constexpr size_t kPage = 4096;
    uint8_t* base_ = nullptr; size_t len_ = 0; uint8_t* mid_ = nullptr;
    uint8_t* page_ = nullptr; size_t mapped_ = 0; uint8_t* p_ = nullptr; size_t n_ = 0;
public:
    Guard() {
        for (size_t gb : {80, 20, 6}) {
            len_ = gb << 30;
            void* m = mmap(nullptr, len_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m != MAP_FAILED) { base_ = static_cast<uint8_t*>(m); break; }
        }
        if (!base_) harness_error("cannot reserve address space");
        mid_ = base_ + (len_ / 20 / kPage) * kPage + (size_t(1) << 30);
    }
    Guard(const Guard&) = delete;
    // how: 0 = ends at the end of a page; k > 0 = starts 16*(k-1) bytes into a page with poisoned surroundings
    std::span<const uint8_t> place(std::span<const uint8_t> b, unsigned how, bool writable = false) {
        release();
        n_ = b.size();
        size_t lead = how ? 16 * (how - 1) : 0;
        mapped_ = std::max<size_t>(1, (n_ + lead + kPage - 1) / kPage) * kPage;
        page_ = mid_;
        if (mprotect(page_, mapped_, PROT_READ | PROT_WRITE) != 0) harness_error("mprotect failed");
        p_ = how ? page_ + lead : page_ + mapped_ - n_;
        if (n_) std::memcpy(p_, b.data(), n_);
        if (!writable && mprotect(page_, mapped_, PROT_READ) != 0) harness_error("mprotect failed");
#ifdef VZ_ASAN
        if (how) { if (lead) __asan_poison_memory_region(page_, lead); __asan_poison_memory_region(p_ + n_, size_t(page_ + mapped_ - (p_ + n_))); }
        else if (p_ > page_) __asan_poison_memory_region(page_, size_t(p_ - page_));
#endif
        return {p_, n_};
    }
    // A message of n bytes that are zero except for the given pieces; only touched pages take memory.
    // Ends at the end of a page. Empty when the address space or memory policy forbids it.
    std::span<const uint8_t> place_sparse(size_t n, const std::vector<std::pair<size_t, std::vector<uint8_t>>>& pieces) {
        release();
        mapped_ = (n + kPage - 1) / kPage * kPage; page_ = mid_; n_ = n;
        if (size_t(page_ - base_) + mapped_ + (size_t(1) << 30) > len_ || mprotect(page_, mapped_, PROT_READ | PROT_WRITE) != 0) { mapped_ = 0; return {}; }
        p_ = page_ + mapped_ - n_;
        for (auto& [at, b] : pieces) if (at + b.size() <= n) std::memcpy(p_ + at, b.data(), b.size());
        if (mprotect(page_, mapped_, PROT_READ) != 0) harness_error("mprotect failed");
        return {p_, n_};
    }
    void release() {
        if (!mapped_) return;
#ifdef VZ_ASAN
        __asan_unpoison_memory_region(page_, mapped_);
#endif
        if (mapped_ > 64 * kPage) madvise(page_, mapped_, MADV_DONTNEED);
        mprotect(page_, mapped_, PROT_NONE);
        mapped_ = 0;
    }
};

} // namespace vz
