/// The run-time library for sources compiled with -fsanitize=thread (in place of ThreadSanitizer's): their memory
/// accesses become points of the scheduler where threads share the memory without a common lock.
///
/// It judges nothing: an access without a lock is a place where to switch, not a violation.
#include <malloc.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <array>
#include <map>
#include <new>
#include <set>
#include <unordered_map>
#include <vector>

#include "internal.h"

namespace threads {
namespace {

const int LOCKS = 6;

struct Access {
    int16_t thread;
    bool write;
    uint8_t nlocks;
    uint32_t clock;
    void* locks[LOCKS];
    void* pc;
};

struct Quiet {
    Quiet() { enter(); }
    ~Quiet() { leave(); }
};

bool recording = false, pointing = false, quarantining = false;
std::unordered_map<uintptr_t, std::vector<Access>>* shadow = nullptr;
using Clock = std::array<uint32_t, MAXT>;
Clock clocks[MAXT];
std::map<void*, Clock>* published = nullptr;
std::vector<void*> held[MAXT];
std::set<void*>* found = nullptr;

// places: open addressing
const size_t NP = 16384;
void* table[NP];
uint16_t seen[NP][MAXT];
size_t slot(void* pc) {
    size_t h = ((uintptr_t)pc >> 1) * 0x9E3779B97F4A7C15ull >> 50;
    while (table[h] && table[h] != pc) {
        h = (h + 1) % NP;
    }
    return h;
}

bool disjoint(const Access& a, const Access& b) {
    for (int i = 0; i < a.nlocks; ++i) {
        for (int j = 0; j < b.nlocks; ++j) {
            if (a.locks[i] == b.locks[j]) {
                return false;
            }
        }
    }
    return true;
}

void record(uintptr_t addr, size_t size, bool write, void* pc) {
    Quiet q;
    int me = current();
    Access a{(int16_t)me, write, 0, clocks[me][me], {}, pc};
    for (auto* m : held[me]) {
        if (a.nlocks < LOCKS) {
            a.locks[a.nlocks++] = m;
        }
    }
    for (uintptr_t g = addr >> 3; g <= (addr + size - 1) >> 3; ++g) {
        auto& v    = (*shadow)[g];
        bool known = false;
        for (auto& b : v) {
            if (b.thread == me) {
                if (b.pc == pc && b.write == write && b.nlocks == a.nlocks && !memcmp(b.locks, a.locks, sizeof(void*) * a.nlocks)) {
                    b.clock = a.clock;
                    known   = true;
                }
                continue;
            }
            if ((write || b.write) && clocks[me][b.thread] < b.clock && disjoint(a, b)) {
                found->insert(pc);
                found->insert(b.pc);
            }
        }
        if (!known && v.size() < 64) {
            v.push_back(a);
        }
    }
}

void access(void* p, size_t size, bool write, void* pc) {
    if (pointing) {
        size_t h = slot(pc);
        if (table[h] && underControl() && seen[h][current()] < options().perPlace && alive() > 1) {
            seen[h][current()]++;
            point(write ? "memory write" : "memory read", (void*)((uintptr_t)p & ~7ull), pc);
        }
    }
    else if (recording && underControl()) {
        record((uintptr_t)p, size, write, pc);
    }
}

void atomicAccess(void* p, bool write, void* pc) {
    if (recording && underControl()) {
        {
            Quiet q;
            auto& c = (*published)[p];
            int me  = current();
            // (acquire and release, whatever was asked for)
            for (int i = 0; i < MAXT; ++i) {
                clocks[me][i] = std::max(clocks[me][i], c[i]);
            }
            if (write) {
                c = clocks[me];
                clocks[me][me]++;
            }
        }
        // where two threads come to it, it is a place to switch
        Quiet q;
        static std::map<void*, std::pair<int, bool>>* users = new std::map<void*, std::pair<int, bool>>;
        static std::map<void*, std::set<void*>>* pcs        = new std::map<void*, std::set<void*>>;
        auto [i, fresh] = users->emplace(p, std::make_pair(current(), write));
        (*pcs)[p].insert(pc);
        if (!fresh) {
            i->second.second = i->second.second || write;
            if (i->second.first != current()) {
                i->second.first = -2;
            }
            if (i->second.first == -2 && i->second.second) {
                found->insert((*pcs)[p].begin(), (*pcs)[p].end());
            }
        }
    }
    else if (pointing) {
        access(p, 1, write, pc);
    }
}

struct Memory : Hooks {
    void start() override {
        auto& o      = options();
        recording    = o.record;
        pointing     = !o.record && !o.places.empty();
        quarantining = true;
        if (recording) {
            shadow    = new std::unordered_map<uintptr_t, std::vector<Access>>;
            published = new std::map<void*, Clock>;
            found     = new std::set<void*>;
            memset(clocks, 0, sizeof clocks);
            clocks[0][0] = 1;
        }
        for (auto* p : o.places) {
            table[slot(p)] = p;
        }
    }
    void stop() override {
        if (recording) {
            Quiet q;
            for (auto* p : *found) {
                place(p);
            }
        }
        recording = pointing = quarantining = false;
    }
    void began() override {
        if (recording) {
            // (its stack may have been another thread's)
            Quiet q;
            pthread_attr_t a;
            void* low = nullptr;
            size_t n  = 0;
            if (pthread_getattr_np(pthread_self(), &a) == 0) {
                pthread_attr_getstack(&a, &low, &n);
                pthread_attr_destroy(&a);
            }
            uintptr_t from = (uintptr_t)low >> 3, to = ((uintptr_t)low + n) >> 3;
            for (auto i = shadow->begin(); i != shadow->end();) {
                i = i->first >= from && i->first < to ? shadow->erase(i) : std::next(i);
            }
        }
    }
    void acquired(void* m) override {
        if (recording) {
            Quiet q;
            held[current()].push_back(m);
        }
    }
    void released(void* m) override {
        if (recording) {
            Quiet q;
            auto& h = held[current()];
            auto i  = std::find(h.rbegin(), h.rend(), m);
            if (i != h.rend()) {
                h.erase(std::next(i).base());
            }
        }
    }
    void publishes(void* p) override {
        if (recording) {
            Quiet q;
            int me          = current();
            (*published)[p] = clocks[me];
            clocks[me][me]++;
        }
    }
    void observes(void* p) override {
        if (recording) {
            Quiet q;
            auto i = published->find(p);
            if (i != published->end()) {
                int me = current();
                for (int k = 0; k < MAXT; ++k) {
                    clocks[me][k] = std::max(clocks[me][k], i->second[k]);
                }
            }
        }
    }
    void created(int parent, int child) override {
        if (recording) {
            clocks[child]        = clocks[parent];
            clocks[child][child] = 1;
            clocks[parent][parent]++;
        }
    }
    void joined(int parent, int child) override {
        if (recording) {
            for (int k = 0; k < MAXT; ++k) {
                clocks[parent][k] = std::max(clocks[parent][k], clocks[child][k]);
            }
        }
    }
};

struct Install {
    Install() {
        mallopt(M_ARENA_MAX, 1);
        mallopt(M_TOP_PAD, 8 << 20);
        setHooks(new Memory);
    }
} install;

void forget(void* p, size_t n) {
    if (recording && shadow && underControl()) {
        Quiet q;
        for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; ++g) {
            shadow->erase(g);
        }
    }
}

// Memory that has been released is not used again, and its contents are spoilt: who still uses it is found out
const uint64_t SPOILT = 0xD5D5D5D5D5D5D5D5ull;
void release(void* p) {
    if (!p) {
        return;
    }
    if (!quarantining) {
        free(p);
        return;
    }
    size_t n = malloc_usable_size(p);
    forget(p, n);
    if (n > 4096) {
        free(p);
        return;
    }
    uint64_t first;
    memcpy(&first, p, 8);
    if (first == SPOILT) {
        memoryFault("memory released twice");
    }
    memset(p, 0xD5, n);
}

}  // namespace
}  // namespace threads

using namespace threads;

void operator delete(void* p) noexcept {
    threads::release(p);
}
void operator delete[](void* p) noexcept {
    threads::release(p);
}
void operator delete(void* p, size_t) noexcept {
    threads::release(p);
}
void operator delete[](void* p, size_t) noexcept {
    threads::release(p);
}
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n) {
    return operator new(n);
}

#define PC __builtin_return_address(0)

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

#define SIZED(N)                                                      \
    void __tsan_read##N(void* p) { access(p, N, false, PC); }             \
    void __tsan_write##N(void* p) { access(p, N, true, PC); }            \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }   \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }   \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }    \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }
SIZED(1)
SIZED(2)
SIZED(4)
SIZED(8)
SIZED(16)

void __tsan_vptr_read(void** p) {
    access(p, 8, false, PC);
}
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) {
        access(p, 8, true, PC);
    }
}
void __tsan_read_range(void* p, size_t n) {
    if (n) {
        access(p, n, false, PC);
    }
}
void __tsan_write_range(void* p, size_t n) {
    if (n) {
        access(p, n, true, PC);
    }
}

#define ATOMIC(BITS, T)                                                                    \
    T __tsan_atomic##BITS##_load(const volatile T* p, int) {                               \
        atomicAccess((void*)p, false, PC);                                                 \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                       \
    }                                                                                      \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int) {                            \
        atomicAccess((void*)p, true, PC);                                                  \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                          \
    }                                                                                      \
    T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int) {                            \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                \
    }                                                                                      \
    T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int) {                           \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                 \
    }                                                                                      \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int) {                           \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                 \
    }                                                                                      \
    T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int) {                           \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                 \
    }                                                                                      \
    T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int) {                            \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                  \
    }                                                                                      \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int) {                           \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                 \
    }                                                                                      \
    T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int) {                          \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                \
    }                                                                                      \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                      \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {  \
        atomicAccess((void*)p, true, PC);                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                      \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int, int) {      \
        atomicAccess((void*)p, true, PC);                                                  \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);  \
        return e;                                                                          \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
