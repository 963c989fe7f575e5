// Messages whose pages are inaccessible until first touched: tells which pages an operation reads.
#pragma once
#include "vz.hpp"
#include <signal.h>
#include <sys/mman.h>

namespace vz {

class PageTrace {
    static constexpr size_t kPage = 4096;
    static inline PageTrace* self = nullptr;
    uint8_t* base_; size_t cap_, len_ = 0; uint8_t* p_ = nullptr; size_t n_ = 0;
    static inline struct sigaction old_{};
    static void on_segv(int sig, siginfo_t* si, void* ctx) {
        auto* a = static_cast<uint8_t*>(si->si_addr);
        if (self && a >= self->base_ && a < self->base_ + self->len_ && si->si_code == SEGV_ACCERR) {
            size_t k = size_t(a - self->base_) / kPage;
            if (self->seen_[k]) { chain(sig, si, ctx); return; } // readable already: this is a write
            self->seen_[k] = 1; self->touched = self->touched + 1;
            mprotect(self->base_ + k * kPage, kPage, PROT_READ);
            return;
        }
        chain(sig, si, ctx);
    }
    static void chain(int sig, siginfo_t* si, void* ctx) { if (old_.sa_flags & SA_SIGINFO) old_.sa_sigaction(sig, si, ctx); else { signal(sig, SIG_DFL); raise(sig); } }
    std::vector<uint8_t> seen_;
public:
    volatile size_t touched = 0;
    explicit PageTrace(size_t cap) : cap_(cap), seen_(cap / kPage + 1) {
        void* m = mmap(nullptr, cap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) harness_error("cannot reserve pages");
        base_ = static_cast<uint8_t*>(m); self = this;
        struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigemptyset(&sa.sa_mask);
        if (sigaction(SIGSEGV, &sa, &old_) != 0) harness_error("cannot install a fault handler");
    }
    std::span<const uint8_t> place(std::span<const uint8_t> b) {
        if (len_) madvise(base_, len_, MADV_DONTNEED);
        len_ = (b.size() + kPage - 1) / kPage * kPage; n_ = b.size();
        if (len_ > cap_ || mprotect(base_, len_, PROT_READ | PROT_WRITE) != 0) harness_error("page trace: message too large");
        p_ = base_ + len_ - n_ - (len_ - n_) % 16; std::memcpy(p_, b.data(), n_);
        arm(); return {p_, n_};
    }
    void arm() { touched = 0; std::fill(seen_.begin(), seen_.end(), uint8_t(0)); if (len_) mprotect(base_, len_, PROT_NONE); }
    void open() { if (len_) mprotect(base_, len_, PROT_READ); }
};

} // namespace vz
