// Deterministic allocator: fixed addresses, fill patterns, red zones, quarantine, injected failures.
#include "internal.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

namespace sim {

// Two heaps: A for the code under test and the harness while a run goes on, B for everything else (the
// simulator's own data, static initialisation, the plan), so that what the simulator stores about a run
// never changes the addresses the run sees.
static const uintptr_t BASE_A = 0x100000000000ULL, BASE_B = 0x200000000000ULL;
static const size_t SIZE_A = 16ULL << 30, SIZE_B = 8ULL << 30;
static const uint32_t MAGIC_LIVE = 0x51AB11FEu;
static const uint32_t MAGIC_FREE = 0xDEADF4EEu;
static const uint8_t FILL_NEW = 0xC7;
static const uint8_t FILL_FREE = 0xDD;
static const uint8_t FILL_RED = 0xB5;
static const size_t TAIL = 8;

struct Hdr {              // 16 bytes before each user block
    uint32_t magic;
    uint32_t cls;         // size class index
    uint64_t size;        // requested size
};
struct FreeNode {
    FreeNode* next;
};

static bool g_ready = false;
static const int NSMALL = 64;              // 16..1024
static const int NBIG = 96;
struct Heap {
    uintptr_t bump, end;
    FreeNode* free[NSMALL + NBIG];
};
static Heap g_A, g_B;
static size_t g_clsSize[NSMALL + NBIG];
static inline Heap& heapNow() {
    return g_cur && !g_cur->inSim ? g_A : g_B;
}
static inline bool inA(const void* p) {
    return (uintptr_t)p >= BASE_A && (uintptr_t)p < BASE_A + SIZE_A;
}
static inline bool inB(const void* p) {
    return (uintptr_t)p >= BASE_B && (uintptr_t)p < BASE_B + SIZE_B;
}
static const int QN = 8192;
static const size_t QMAX = 24u << 20;
static Hdr* g_q[QN];
static int g_qHead = 0, g_qCount = 0;
static size_t g_qBytes = 0;
static uint64_t g_liveBytes = 0, g_liveBlocks = 0;
static uint64_t g_oomCountdown = 0;
static bool g_oomFired = false;

static void clsInit() {
    for (int i = 0; i < NSMALL; ++i) {
        g_clsSize[i] = (size_t)(i + 1) * 16;
    }
    size_t s = 1024;
    int i = NSMALL;
    while (i < NSMALL + NBIG) {
        for (int k = 1; k <= 4 && i < NSMALL + NBIG; ++k) {
            g_clsSize[i++] = s + s * k / 4;
        }
        s *= 2;
    }
}
static int clsFor(size_t total) {
    if (total <= 1024) {
        return (int)((total + 15) / 16) - 1;
    }
    int lo = NSMALL, hi = NSMALL + NBIG - 1;
    while (lo < hi) {
        int m = (lo + hi) / 2;
        if (g_clsSize[m] >= total) {
            hi = m;
        } else {
            lo = m + 1;
        }
    }
    return lo;
}
void heapInit() {
    if (g_ready) {
        return;
    }
    for (int i = 0; i < 2; ++i) {
        uintptr_t base = i ? BASE_B : BASE_A;
        size_t size = i ? SIZE_B : SIZE_A;
        void* p = (void*)raw::sc6(SYS_mmap, (long)base, (long)size, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | 0x100000 /*FIXED_NOREPLACE*/, -1, 0);
        if (p != (void*)base) {
            const char m[] = "sim: cannot reserve the heap\n";
            raw::writeAll(2, m, sizeof(m) - 1);
            raw::exitGroup(97);
        }
        (i ? g_B : g_A).bump = base + 4096;
        (i ? g_B : g_A).end = base + size;
    }
    clsInit();
    g_ready = true;
}

[[noreturn]] static void heapBug(const char* what, void* p, size_t size) {
    g_oomCountdown = 0;
    char buf[160];
    snprintf(buf, sizeof buf, "%s (block of %zu bytes)", what, size);
    (void)p;
    violation("heap-corruption", buf);
}

static inline bool patternOk(const uint8_t* p, size_t n, uint8_t v) {
    return n == 0 || (p[0] == v && (n == 1 || memcmp(p, p + 1, n - 1) == 0));
}
static inline size_t freeFillLen(Hdr* h) {
    size_t usable = g_clsSize[h->cls] - sizeof(Hdr);
    return usable < 512 ? usable : 512;
}
static void releaseOldest() {
    Hdr* h = g_q[g_qHead];
    g_qHead = (g_qHead + 1) % QN;
    --g_qCount;
    g_qBytes -= g_clsSize[h->cls];
    uint8_t* u = (uint8_t*)(h + 1);
    if (g_running && h->magic == MAGIC_FREE && !patternOk(u, freeFillLen(h), FILL_FREE)) {
        heapBug("write to freed memory", u, h->size);
    }
    FreeNode* f = (FreeNode*)u;
    f->next = g_A.free[h->cls];
    g_A.free[h->cls] = f;
}

static void* allocRaw(size_t n, size_t align) {
    if (!g_ready) {
        heapInit();
    }
    if (n > (8ULL << 30)) {
        return nullptr;
    }
    Hdr* h;
    Heap& H = heapNow();
    if (align <= 16) {
        int c = clsFor(n + sizeof(Hdr) + TAIL);
        size_t total = g_clsSize[c];
        FreeNode* f = H.free[c];
        if (f) {
            H.free[c] = f->next;
            h = (Hdr*)f - 1;
        } else {
            if (H.bump + total + 64 > H.end) {
                return nullptr;
            }
            h = (Hdr*)H.bump;
            H.bump += total;
        }
        h->cls = (uint32_t)c;
    } else {
        int c = clsFor(n + sizeof(Hdr) + TAIL);
        uintptr_t p = (H.bump + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
        h = (Hdr*)p - 1;
        H.bump = ((uintptr_t)h + g_clsSize[c] + 15) & ~(uintptr_t)15;
        h->cls = (uint32_t)c;
    }
    h->magic = MAGIC_LIVE;
    h->size = n;
    uint8_t* u = (uint8_t*)(h + 1);
    size_t usable = g_clsSize[h->cls] - sizeof(Hdr);
    if (n <= 65536) {
        memset(u, FILL_NEW, n);
    }
    size_t red = usable - n;
    memset(u + n, FILL_RED, red < 64 ? red : 64);
    if (&H == &g_A) {
        g_liveBytes += n;
        ++g_liveBlocks;
    }
    return u;
}

static void freeRaw(void* p) {
    if (!inA(p) && !inB(p)) {
        if (g_running) {
            heapBug("free of a pointer that is not from the heap", p, 0);
        }
        return;
    }
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != MAGIC_LIVE) {
        heapBug(h->magic == MAGIC_FREE ? "double free" : "free of an invalid pointer", p, h->size);
    }
    size_t usable = g_clsSize[h->cls] - sizeof(Hdr);
    size_t red = usable - h->size;
    if (!patternOk((uint8_t*)p + h->size, red < 64 ? red : 64, FILL_RED)) {
        heapBug("write past the end of a block", p, h->size);
    }
    h->magic = MAGIC_FREE;
    if (inB(p)) {
        FreeNode* f = (FreeNode*)p;
        f->next = g_B.free[h->cls];
        g_B.free[h->cls] = f;
        return;
    }
    g_liveBytes -= h->size;
    --g_liveBlocks;
    memset(p, FILL_FREE, freeFillLen(h));
    while (g_qCount == QN || (g_qCount && g_qBytes + g_clsSize[h->cls] > QMAX)) {
        releaseOldest();
    }
    g_q[(g_qHead + g_qCount) % QN] = h;
    ++g_qCount;
    g_qBytes += g_clsSize[h->cls];
}

// true when this allocation must fail
static inline bool oomNow() {
    if (g_oomCountdown == 0 || !g_cur || g_cur->inSim || g_cur->noOom) {
        return false;
    }
    if (--g_oomCountdown == 0) {
        g_oomFired = true;
        return true;
    }
    return false;
}

void armOom(uint64_t n) {
    g_oomCountdown = n;
    g_oomFired = false;
}
void disarmOom() {
    g_oomCountdown = 0;
}
bool oomFired() {
    return g_oomFired;
}
NoOom::NoOom() {
    if (g_cur) {
        ++g_cur->noOom;
    }
}
NoOom::~NoOom() {
    if (g_cur) {
        --g_cur->noOom;
    }
}
uint64_t liveBytes() {
    return g_liveBytes;
}
uint64_t liveBlocks() {
    return g_liveBlocks;
}
void heapCheck() {
    for (int i = 0; i < g_qCount; ++i) {
        Hdr* h = g_q[(g_qHead + i) % QN];
        if (h->magic != MAGIC_FREE || !patternOk((uint8_t*)(h + 1), freeFillLen(h), FILL_FREE)) {
            heapBug("write to freed memory", h + 1, h->size);
        }
    }
}

}

using namespace sim;
extern "C" {
void* malloc(size_t n) {
    if (oomNow()) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = allocRaw(n, 16);
    if (!p) {
        errno = ENOMEM;
    }
    return p;
}
void free(void* p) {
    if (p) {
        freeRaw(p);
    }
}
void* calloc(size_t a, size_t b) {
    if (b && a > (size_t)-1 / b) {
        errno = ENOMEM;
        return nullptr;
    }
    if (oomNow()) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = allocRaw(a * b, 16);
    if (p) {
        memset(p, 0, a * b);
    }
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) {
        return malloc(n);
    }
    if (n == 0) {
        free(p);
        return nullptr;
    }
    if (oomNow()) {
        errno = ENOMEM;
        return nullptr;
    }
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != MAGIC_LIVE) {
        heapBug("realloc of freed memory", p, h->size);
    }
    void* q = allocRaw(n, 16);
    if (!q) {
        errno = ENOMEM;
        return nullptr;
    }
    memcpy(q, p, h->size < n ? h->size : n);
    freeRaw(p);
    return q;
}
void* memalign(size_t a, size_t n) {
    return allocRaw(n, a < 16 ? 16 : a);
}
void* aligned_alloc(size_t a, size_t n) {
    return allocRaw(n, a < 16 ? 16 : a);
}
int posix_memalign(void** out, size_t a, size_t n) {
    if (oomNow()) {
        return ENOMEM;
    }
    void* p = allocRaw(n, a < 16 ? 16 : a);
    if (!p) {
        return ENOMEM;
    }
    *out = p;
    return 0;
}
void* valloc(size_t n) {
    return allocRaw(n, 4096);
}
void* pvalloc(size_t n) {
    return allocRaw((n + 4095) & ~(size_t)4095, 4096);
}
size_t malloc_usable_size(void* p) {
    return p ? ((Hdr*)p - 1)->size : 0;
}
void cfree(void* p) {
    free(p);
}
}
