// Heap of the simulator itself (C++ objects of the model, the oracles and the stub server). The code under test is C and
// never gets here: its memory comes from AddressSanitizer's allocator through sim_malloc.
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sys/mman.h>

namespace {
const size_t CLASSES = 64, STEP = 16, CHUNK = 1 << 20;
struct Free { Free *next; };
Free *lists[CLASSES + 1];
char *chunk, *chunkEnd;
std::atomic_flag busy = ATOMIC_FLAG_INIT;
struct Guard { Guard() { while (busy.test_and_set(std::memory_order_acquire)) {} } ~Guard() { busy.clear(std::memory_order_release); } };
struct Head { size_t cls; size_t pad; }; // before every block: its class, 0: from malloc
void *get(size_t n) {
    size_t c = (n + STEP - 1) / STEP; if (!c) c = 1;
    if (c > CLASSES) { Head *h = (Head *)malloc(n + sizeof(Head)); if (!h) abort(); h->cls = 0; return h + 1; }
    Guard g;
    if (Free *f = lists[c]) { lists[c] = f->next; return f; }
    size_t need = c * STEP + sizeof(Head);
    if ((size_t)(chunkEnd - chunk) < need) {
        void *p = mmap(nullptr, CHUNK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) abort();
        chunk = (char *)p; chunkEnd = chunk + CHUNK;
    }
    Head *h = (Head *)chunk; chunk += need; h->cls = c;
    return h + 1;
}
void put(void *p) {
    if (!p) return;
    Head *h = (Head *)p - 1;
    if (!h->cls) { free(h); return; }
    Guard g;
    Free *f = (Free *)p; f->next = lists[h->cls]; lists[h->cls] = f;
}
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
