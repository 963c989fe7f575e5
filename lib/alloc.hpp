// Observes allocations of the current thread through the sanitizer's malloc hooks, without
// replacing the allocator (so mismatches of new/delete/free are still reported).
#pragma once
#include "vz.hpp"
#include <sanitizer/allocator_interface.h>

namespace vz {

struct AllocWatch {
    static inline thread_local bool on = false;
    static inline thread_local uint64_t allocs = 0, frees = 0;
    static inline thread_local int64_t live = 0; // net number of blocks while on
    static void on_malloc(const volatile void* p, size_t) { if (on && p) { ++allocs; ++live; } }
    static void on_free(const volatile void* p) { if (on && p) { ++frees; --live; } }
    static void install() {
        static bool done = false;
        if (!done) { done = true; if (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) == 0) harness_error("cannot install malloc hooks"); }
    }
    AllocWatch() { install(); allocs = frees = 0; live = 0; on = true; }
    ~AllocWatch() { on = false; }
    AllocWatch(const AllocWatch&) = delete;
};
// Bytes held by the current thread since the watch began, and the most held at any time. Nests.
struct PeakWatch {
    static inline thread_local PeakWatch* top = nullptr;
    PeakWatch* up; int64_t live = 0, peak = 0; size_t largest = 0; int64_t total = 0; bool alive = true;
    static void on_malloc(const volatile void* p, size_t n) { for (PeakWatch* w = top; p && w; w = w->up) { w->live += int64_t(n); w->peak = std::max(w->peak, w->live); w->largest = std::max(w->largest, n); w->total += int64_t(n); } }
    static void on_free(const volatile void* p) { if (!top || !p) return; int64_t n = int64_t(__sanitizer_get_allocated_size(p)); for (PeakWatch* w = top; w; w = w->up) w->live -= n; }
    static void install() {
        static bool done = false;
        if (!done) { done = true; if (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) == 0) harness_error("cannot install malloc hooks"); }
    }
    PeakWatch() { install(); up = top; top = this; }
    ~PeakWatch() { stop(); }
    void stop() { if (alive) { alive = false; top = up; } } // innermost first
    PeakWatch(const PeakWatch&) = delete;
};
struct AllocPause { // allocations of the harness itself do not count
    bool was = AllocWatch::on;
    AllocPause() { AllocWatch::on = false; }
    ~AllocPause() { AllocWatch::on = was; }
};

} // namespace vz
